------------------------------- MODULE MC_Parity -------------------------------
(* A channel that damages frames, and what the parity says of them. The parity is linear, hence an error is seen     *)
(* when its syndrome is not zero, whatever the frame.                                                                *)
EXTENDS Parity, FiniteSets, TLC

CONSTANTS MaxErrors,   \* number of bits damaged anywhere
          MaxBurst,    \* length of a burst
          Length       \* bits of the frame: 56 or 112

\* The syndrome of the bit p: the parity of a frame whose only bit is p
Unit(p) == [i \in 1..(Length \div 8) |-> IF (p-1) \div 8 = i-1 THEN Pow2[7 - ((p-1) % 8)] ELSE 0]
Syndromes == [p \in 1..Length |-> Overlay(Unit(p))]

VARIABLES last, count, syndrome, burst   \* burst: 0, or the first bit of the burst
vars == <<last, count, syndrome, burst>>

Init == last = 0 /\ count = 0 /\ syndrome = 0 /\ burst = 0

\* Independent errors
Flip(p) == /\ burst = 0 /\ count < MaxErrors /\ p > last
           /\ last' = p /\ count' = count + 1 /\ syndrome' = syndrome ^^ Syndromes[p]
           /\ UNCHANGED burst

\* A burst starts at p, then grows
Start(p) == /\ count = 0 /\ burst = 0
            /\ burst' = p /\ last' = p /\ count' = 1 /\ syndrome' = Syndromes[p]
Grow(flip) == /\ burst > 0 /\ last < Length /\ last - burst + 1 < MaxBurst
              /\ last' = last + 1
              /\ count' = count + flip
              /\ syndrome' = IF flip = 1 THEN syndrome ^^ Syndromes[last+1] ELSE syndrome
              /\ UNCHANGED burst
Starts == {p \in 1..Length : p % 16 \in {1, 8}}

Next == (\E p \in 1..Length : Flip(p)) \/ (\E p \in Starts : Start(p)) \/ (\E f \in {0, 1} : Grow(f))
Spec == Init /\ [][Next]_vars

\* Every error is seen
Detected == count > 0 => syndrome # 0
\* Odd numbers of errors are seen by the parity of the syndrome itself (the generator is divisible by x+1)
Weight(v) == Cardinality({i \in 0..23 : (v \div Pow2[i]) % 2 = 1})
Odd == Weight(syndrome) % 2 = count % 2

\* The parity computed octet by octet is the division of polynomials; it is linear; the overlay is found back
Samples == {<<0,0,0,0>>, <<1,2,3,4>>, <<141,64,98,29>>, <<255,255,255,255>>, <<93,72,64,214>>, <<40,0,0,1,0,0,0,128,9,7,255>>,
            <<141,72,64,214,32,44,195,113,195,44,224>>}
ASSUME Byte == \A s \in Samples : Parity(s) = ParityDef(s)
ASSUME Linear == \A s, t \in Samples : Len(s) = Len(t) => Parity(s) ^^ Parity(t) = Parity([i \in 1..Len(s) |-> s[i] ^^ t[i]])
ASSUME Found == \A s \in Samples, a \in {0, 1, 4197917, 16777215} : Overlay(Frame(s, a)) = a
\* Two real frames (8D4840D6202CC371C32CE0576098 and 5D4840D6F8E6B5)
ASSUME Real == Overlay(<<141,72,64,214,32,44,195,113,195,44,224,87,96,152>>) = 0
=============================================================================
