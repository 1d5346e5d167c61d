-------------------------------- MODULE Bits --------------------------------
(* Bit fields of messages. A message is a sequence of octets; as in the ICAO and RTCA documents its bits are     *)
(* numbered from 1, bit 1 being the most significant bit of the first octet.                                     *)
EXTENDS Integers, Sequences

Pow2 == [i \in 0..30 |-> 2^i]

\* The unsigned number in the bits s..e (at most 24 bits, in at most 3 octets)
U(m, s, e) ==
  LET a == (s-1) \div 8
      b == (e-1) \div 8
      sh == 8*(b+1) - e
  IN IF a = b THEN (m[a+1] \div Pow2[sh]) % Pow2[e-s+1]
     ELSE IF b = a+1 THEN ((m[a+1]*256 + m[b+1]) \div Pow2[sh]) % Pow2[e-s+1]
     ELSE ((m[a+1]*65536 + m[a+2]*256 + m[b+1]) \div Pow2[sh]) % Pow2[e-s+1]

\* Same, for any width up to 30 bits, by value (used to check U)
RECURSIVE UDef(_, _, _)
UDef(m, s, e) == IF e < s THEN 0
                 ELSE 2*UDef(m, s, e-1) + ((m[((e-1) \div 8) + 1] \div Pow2[7 - ((e-1) % 8)]) % 2)

\* Bit i
B(m, i) == (m[((i-1) \div 8) + 1] \div Pow2[7 - ((i-1) % 8)]) % 2

\* The bits s..e as a two's complement number whose sign is bit s
S(m, s, e) == LET v == U(m, s+1, e) IN IF B(m, s) = 1 THEN v - Pow2[e-s] ELSE v

\* The bits s..e are all zero
Zero(m, s, e) == \A i \in s..e : B(m, i) = 0

\* n/d rounded to the nearest integer, halves away from zero
Rnd(n, d) == IF n >= 0 THEN (2*n + d) \div (2*d) ELSE -((2*(-n) + d) \div (2*d))

Bool(b) == IF b THEN 1 ELSE 0
Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* Packs a sequence of bits (most significant first, length multiple of 8) in octets
Octets(bits) == [i \in 1..(Len(bits) \div 8) |->
  LET o == 8*(i-1) IN 128*bits[o+1] + 64*bits[o+2] + 32*bits[o+3] + 16*bits[o+4] + 8*bits[o+5] + 4*bits[o+6] + 2*bits[o+7] + bits[o+8]]

\* The n bits of the number v
ToBits(v, n) == [i \in 1..n |-> (v \div Pow2[n-i]) % 2]

\* Exclusive or of two numbers of at most n bits
RECURSIVE XorN(_, _, _)
XorN(a, b, n) == IF n = 0 THEN 0
                 ELSE 2*XorN(a \div 2, b \div 2, n-1) + (((a % 2) + (b % 2)) % 2)
=============================================================================
