-------------------------------- MODULE MC_Shift --------------------------------
(* No burst of 24 bits or less is missed, wherever it is. A burst at the end of the frame is its own syndrome (the       *)
(* parity field holds it), and the syndrome of the same burst one bit earlier is one Step further: Step never leads to    *)
(* zero, since it can be undone. All the syndromes are enumerated.                                                   *)
EXTENDS Parity

CONSTANTS Rows        \* the syndromes are cut in 64 rows of 64 blocks of 4096

Step(s) == IF s >= 8388608 THEN ((s % 8388608) * 2) ^^ G ELSE s * 2
\* The last bit of the generator is 1
Undo(s) == IF s % 2 = 1 THEN (s ^^ G) \div 2 + 8388608 ELSE s \div 2

VARIABLES row, block
vars == <<row, block>>
Init == row = -1 /\ block = -1
Next == \/ row = -1 /\ row' \in Rows /\ UNCHANGED block
        \/ row >= 0 /\ block = -1 /\ block' \in 0..63 /\ UNCHANGED row
Spec == Init /\ [][Next]_vars

\* Step is linear: it is the exclusive or of the steps of the bits. One table for each half of the syndrome.
RECURSIVE Steps(_, _, _)
Steps(v, shift, i) == IF i = 12 THEN 0 ELSE (IF (v \div Pow2[i]) % 2 = 1 THEN Step(Pow2[i+shift]) ELSE 0) ^^ Steps(v, shift, i+1)
High == [v \in 0..4095 |-> Steps(v, 12, 0)]
Low == [v \in 0..4095 |-> Steps(v, 0, 0)]
Linear == block >= 0 =>
  \A k \in 0..4095 : Step((row*64 + block)*4096 + k) = High[row*64 + block] ^^ Low[k]

Undone == block >= 0 =>
  \A k \in 0..4095 :
    LET s == (row*64 + block)*4096 + k
        t == Step(s)
    IN Undo(t) = s /\ t < Full /\ (t = 0 <=> s = 0)

\* The syndromes of the bits: the last 24 are themselves, each of the others is one step from the next one
Unit(p, n) == [i \in 1..(n \div 8) |-> IF (p-1) \div 8 = i-1 THEN Pow2[7 - ((p-1) % 8)] ELSE 0]
ASSUME Themselves == \A n \in {56, 112} : \A p \in n-23..n : Overlay(Unit(p, n)) = Pow2[n-p]
ASSUME Shifted == \A n \in {56, 112} : \A p \in 1..n-1 : Overlay(Unit(p, n)) = Step(Overlay(Unit(p+1, n)))

\* One bit of a frame is one step, and the generator when the bit is set; one octet is eight bits, whatever they are and
\* whatever the register is (all three being linear, the bits alone are enough). So the parity of any two frames is the
\* exclusive or of their parities, and an error is seen or not whatever the frame is.
ASSUME Bit == \A i \in 0..23 : Divide(Pow2[i], <<0>>, 1) = Step(Pow2[i]) /\ Divide(Pow2[i], <<1>>, 1) = Step(Pow2[i]) ^^ G
ASSUME OctetLinear == \A o \in 0..255 : \A i \in 0..7 : Table[o] ^^ Table[Pow2[i]] = Table[o ^^ Pow2[i]]
ASSUME Octet == /\ \A i \in 0..23 : Crc(Pow2[i], <<0>>, 1, 1) = Divide(Pow2[i], ToBits(0, 8), 1)
                /\ \A o \in 0..255 : Crc(0, <<o>>, 1, 1) = Divide(0, ToBits(o, 8), 1)
=============================================================================
