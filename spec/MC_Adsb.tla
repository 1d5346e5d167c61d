--------------------------------- MODULE MC_Adsb ---------------------------------
(* A receiver of extended squitters. It starts with version 0 and no supplement; the operational statuses received     *)
(* from the aircraft change what it knows of it (version, NIC supplements A and C) and every squitter received is       *)
(* read with what is known at that moment.                                                                           *)
EXTENDS Oracle

SomeBodies == {<<0,0,0,0,0,0>>, <<1,0,0,0,0,0>>, <<1,0,0,0,0,1>>, <<8,0,128,0,0,0>>, <<255,255,255,255,255,255>>, <<160,56,12,63,77,9>>}
CONSTANT Bodies

VARIABLES version, nicA, nicC, last
vars == <<version, nicA, nicC, last>>

Init == version = 0 /\ nicA = 0 /\ nicC = 0 /\ last = <<>>

\* An operational status: v, the subtype, the supplements
StatusMessage(v, st, a, c) ==
  LET w == IF v = 0 THEN 0 ELSE 32*v + 16*a
  IN <<248 + st, 0, IF v = 2 /\ st = 1 THEN 16*c ELSE 0, 0, 0, w, 0>>

Receive(m) ==
  LET c == Adsb(version, m)
  IN /\ last' = m
     /\ IF TC(m) = 31 /\ c # ERR
        THEN /\ version' = OpVersion(m)
             /\ nicA' = IF OpVersion(m) = 0 THEN 0 ELSE B(m, 44)
             /\ nicC' = IF OpVersion(m) = 2 /\ ST(m) = 1 THEN B(m, 20) ELSE nicC
        ELSE UNCHANGED <<version, nicA, nicC>>

First == 0..255
Wait == last # <<>> /\ last' = <<>> /\ UNCHANGED <<version, nicA, nicC>>
Next == \/ last = <<>> /\ \E v \in 0..7, st \in 0..7, a, c \in {0, 1} : Receive(StatusMessage(v, st, a, c))
        \/ last = <<>> /\ \E h \in First, b \in Bodies : Receive(<<h>> \o b)
        \/ Wait
Spec == Init /\ [][Next]_vars

Some1 == last # <<>>
Code == TC(last)
Content == Adsb(version, last)
Own == Integrity(version, nicA, nicC, last)

VersionKnown == version \in {0, 1, 2}

\* What a type code means does not depend on the version
Routing == Some1 =>
  LET k == General(Content)[1] IN
  CASE Code \in 1..4 -> k = "AircraftIdentificationAndCategory"
    [] Code \in 5..8 -> k = "SurfacePosition"
    [] Code \in AirborneTypes -> k \in {"AirbornePosition", "ERR"}
    [] Code = 0 -> k \in {"NoPositionInformation", "AirbornePosition", "ERR"}
    [] Code = 19 -> IF ST(last) \in 1..4 THEN k \notin {"ERR"} ELSE k = "ERR"
    [] Code \in {23, 24, 25, 26, 27, 30} -> k = "ERR"
    [] OTHER -> TRUE

\* The positions are refused for an illegal altitude only
Refusals == Some1 /\ Code \in AirborneTypes \union {0} => (Content = ERR <=> ~PosLegal(last))

\* The category of the integrity is a number from 0 to 11; the supplements can not make it lower than without them
Categories(v, a, c) == LET t == Integrity(v, a, c, last) IN t[Len(t)]
NIC == Some1 /\ Content # ERR /\ version > 0 /\ Code \in (5..18) \union {20, 21, 22} => Own[Len(Own)] \in 0..11
Supplements == Some1 /\ Content # ERR /\ version > 0 /\ Code \in (5..18) \union {20, 21, 22} =>
  \A a, c \in {0, 1} : Categories(version, 0, 0) <= Categories(version, a, c)
\* In a version, a lower type code never has a lower integrity (among the barometric positions; and on the surface)
Lower(t) == [last EXCEPT ![1] = 8*t + (@ % 8)]
Monotone == Some1 /\ Content # ERR /\ version > 0 /\ (Code \in 10..18 \/ Code \in 6..8) =>
  LET x == Integrity(version, nicA, nicC, Lower(Code-1)) IN x[Len(x)] >= Own[Len(Own)]

\* Versions: of a status, its own; of the others, the one they are read with
Versions_ == Some1 /\ Content # ERR => AdsbVersion(version, last)[2] = IF Code = 31 THEN OpVersion(last) ELSE version
=============================================================================
