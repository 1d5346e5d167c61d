------------------------------- MODULE Parity -------------------------------
(* The cyclic redundancy of Mode S frames (ICAO Annex 10 vol. IV, 3.1.2.3.3): the parity of the content is the   *)
(* remainder of the content, multiplied by x^24, divided by the generator polynomial G. It is transmitted        *)
(* overlaid (exclusive or) with the address of the aircraft (AP), with the interrogator code (PI, DF11), or      *)
(* as it is (PI, DF17 and DF18).                                                                                 *)
EXTENDS Bits, Bitwise

\* x^24 + x^23 + ... + x^10 + x^3 + 1, without its leading term
G == 16774153   \* 0xFFF409
Full == 16777216

\* The definition: the content is divided bit by bit
RECURSIVE Divide(_, _, _)
Divide(r, bits, i) ==
  IF i > Len(bits) THEN r
  ELSE LET top == (r \div 8388608 + bits[i]) % 2
           s == (r % 8388608) * 2
       IN Divide(IF top = 1 THEN s ^^ G ELSE s, bits, i+1)

RECURSIVE BitsOf(_)
BitsOf(m) == IF m = <<>> THEN <<>> ELSE ToBits(Head(m), 8) \o BitsOf(Tail(m))

ParityDef(m) == Divide(0, BitsOf(m), 1)

\* The same, one octet at a time
Table == [b \in 0..255 |-> ParityDef(<<b>>)]

RECURSIVE Crc(_, _, _, _)
Crc(r, m, i, n) == IF i > n THEN r
                   ELSE Crc(((r % 65536) * 256) ^^ Table[((r \div 65536) % 256) ^^ m[i]], m, i+1, n)

\* The parity of the n first octets
ParityN(m, n) == Crc(0, m, 1, n)
Parity(m) == ParityN(m, Len(m))

Octets3(v) == << v \div 65536, (v \div 256) % 256, v % 256 >>

\* The three last octets of a frame
Last24(m) == LET n == Len(m) IN m[n-2]*65536 + m[n-1]*256 + m[n]

\* What the parity field is overlaid with
Overlay(m) == ParityN(m, Len(m)-3) ^^ Last24(m)

\* The frame made of a content and the parity field, overlaid with a
Frame(content, a) == content \o Octets3(Parity(content) ^^ a)
=============================================================================
