------------------------------ MODULE Altitude ------------------------------
(* The altitude and identity codes (ICAO Annex 10 vol. IV, 3.1.1.7.12, 3.1.2.6.5.4 and 3.1.2.6.7.1).             *)
EXTENDS Bits

Bad == -999999

\* ---------------------------------------------------------------------------------------------------------------
\* Gillham code. The pulses D2 D4 A1 A2 A4 B1 B2 B4 are a Gray code of the 500 ft increments and C1 C2 C4 a
\* reflected code of the 100 ft increments. 0 feet is 500 ft increment 2 (from -1300 ft).
\* D1 is the most significant pulse of the Gray code (unused below 62 000 ft).

RECURSIVE GrayIter(_, _, _)
GrayIter(bits, i, acc) ==   \* acc: <<value, previous bit>>
  IF i > Len(bits) THEN acc[1]
  ELSE LET b == (acc[2] + bits[i]) % 2 IN GrayIter(bits, i+1, <<2*acc[1] + b, b>>)

Gray(bits) == GrayIter(bits, 1, <<0, 0>>)

\* The 100 ft increment (1..5), or 0 when the pulses are illegal
Hundreds(c1, c2, c4, odd) ==
  LET g == Gray(<<c1, c2, c4>>)
      h == IF g = 7 THEN 5 ELSE IF g \in 1..4 THEN g ELSE 0
  IN IF h = 0 THEN 0 ELSE IF odd THEN 6 - h ELSE h

Gillham(d1, d2, d4, a1, a2, a4, b1, b2, b4, c1, c2, c4) ==
  LET f == Gray(<<d1, d2, d4, a1, a2, a4, b1, b2, b4>>)
      h == Hundreds(c1, c2, c4, f % 2 = 1)
  IN IF h = 0 THEN Bad ELSE 500*f + 100*h - 1300

\* ---------------------------------------------------------------------------------------------------------------
\* The 13 bits altitude code: C1 A1 C2 A2 C4 A4 M B1 Q B2 D2 B4 D4 (bits i..i+12 of the message m)
\* Methods: 1 not available, 2 metric, 3 Gillham, 4 25 ft increments

AC13(m, i) == <<B(m,i), B(m,i+1), B(m,i+2), B(m,i+3), B(m,i+4), B(m,i+5), B(m,i+6), B(m,i+7), B(m,i+8), B(m,i+9), B(m,i+10), B(m,i+11), B(m,i+12)>>

\* <<method, feet>>; feet = Bad when the code is illegal
Altitude13(b) ==
  IF \A i \in 1..13 : b[i] = 0 THEN <<1, 0>>
  ELSE IF b[7] = 1 THEN <<2, 0>>
  ELSE IF b[9] = 1
  THEN LET n == 1024*b[1] + 512*b[2] + 256*b[3] + 128*b[4] + 64*b[5] + 32*b[6] + 16*b[8] + 8*b[10] + 4*b[11] + 2*b[12] + b[13]
       IN <<4, 25*n - 1000>>
  ELSE <<3, Gillham(b[9], b[11], b[13], b[2], b[4], b[6], b[8], b[10], b[12], b[1], b[3], b[5])>>

\* The 12 bits altitude of the airborne positions: the same without M. The whole field at 0 is not a legal code.
\* Methods: 0 100 ft increments, 1 25 ft increments
Altitude12(m, i) ==
  LET b(k) == B(m, i+k-1)
  IN IF b(8) = 1
     THEN LET n == 1024*b(1) + 512*b(2) + 256*b(3) + 128*b(4) + 64*b(5) + 32*b(6) + 16*b(7) + 8*b(9) + 4*b(10) + 2*b(11) + b(12)
          IN <<1, 25*n - 1000>>
     ELSE <<0, Gillham(0, b(10), b(12), b(2), b(4), b(6), b(7), b(9), b(11), b(1), b(3), b(5))>>

\* ---------------------------------------------------------------------------------------------------------------
\* The 13 bits identity code: C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4. The four digits ABCD.
Digit(x) == <<"0", "1", "2", "3", "4", "5", "6", "7">>[x+1]
Identity13(b) ==
  LET A == 4*b[6] + 2*b[4] + b[2]
      Bd == 4*b[12] + 2*b[10] + b[8]
      C == 4*b[5] + 2*b[3] + b[1]
      D == 4*b[13] + 2*b[11] + b[9]
  IN Digit(A) \o Digit(Bd) \o Digit(C) \o Digit(D)

\* ---------------------------------------------------------------------------------------------------------------
\* Encoders, used to state that the decoding is the inverse of the encoding
GrayOf(n, w) == LET b == ToBits(n, w) IN [i \in 1..w |-> IF i = 1 THEN b[1] ELSE (b[i-1] + b[i]) % 2]

\* The Gillham pulses of an altitude, multiple of 100 ft from -1200 ft: <<D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4>>
GillhamOf(feet) ==
  LET n == (feet + 1200) \div 100          \* 100 ft increments from -1200
      f == n \div 5
      k == (n % 5) + 1
      h == IF f % 2 = 1 THEN 6 - k ELSE k
      c == IF h = 5 THEN 7 ELSE h
  IN GrayOf(f, 8) \o GrayOf(c, 3)
=============================================================================
