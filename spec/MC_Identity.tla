------------------------------ MODULE MC_Identity ------------------------------
(* A pilot turns the four knobs of the transponder: the code displayed on the ground is the one selected.            *)
EXTENDS Frame

VARIABLE knobs
Init == knobs = <<0, 0, 0, 0>>
Next == \E k \in 1..4 : knobs' = [knobs EXCEPT ![k] = (@ + 1) % 8]
Spec == Init /\ [][Next]_knobs

P(d, w) == (d \div w) % 2            \* pulse of weight w of a digit
A == knobs[1]
Bk == knobs[2]
C == knobs[3]
D == knobs[4]
\* C1 A1 C2 A2 C4 A4 X B1 D1 B2 D2 B4 D4
Code(x) == <<P(C,1), P(A,1), P(C,2), P(A,2), P(C,4), P(A,4), x, P(Bk,1), P(D,1), P(Bk,2), P(D,2), P(Bk,4), P(D,4)>>
Displayed == Digit(A) \o Digit(Bk) \o Digit(C) \o Digit(D)
Message(x) == Octets(<<0,0,1,0,1>> \o [i \in 1..14 |-> 0] \o Code(x) \o [i \in 1..24 |-> 0])
Same == \A x \in {0, 1} : Identity13(Code(x)) = Displayed /\ FrameIdentity(Message(x))[1] = Displayed
Special == LET f == FrameIdentity(Message(0)) IN
  /\ f[2] = Bool(knobs = <<7,7,0,0>>) /\ f[3] = Bool(knobs = <<7,6,0,0>>) /\ f[4] = Bool(knobs = <<7,5,0,0>>) /\ f[5] = Bool(knobs = <<2,0,0,0>>)
=============================================================================
