------------------------------ MODULE TraceReceiver ------------------------------
(* Histories played to a receiver made of the functions of the library. Each line of the trace is what reached the      *)
(* receiver, the truth about the aircraft that transmitted, and what the receiver answers: who sent it, what it now      *)
(* knows of this aircraft, and how it found its position. The trace is accepted when each answer is the one of the      *)
(* receiver of the specification, and when it is the truth.                                                          *)
EXTENDS Receiver, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

\* table: what is known, by address; station: where the receiver is
VARIABLES i, table, station
vars == <<i, table, station>>

Of(a) == IF a \in DOMAIN table THEN table[a] ELSE Nothing

Begins(r) == "station" \in DOMAIN r

\* The velocity tells the speed and the track when its components do
SpeedToo(m, gs) ==
  IF HasAdsb(m) /\ TC(Data(m)) = 19 /\ Adsb(0, Data(m)) # ERR /\ ST(Data(m)) \in {1, 2} THEN GsOk(Data(m), gs) ELSE gs = <<>>

StepOk(r) ==
  LET m == r.frame
      a == r.answer
      s == Sender24(m, DOMAIN table)
  IN /\ a.status = s[1]
     /\ s[1] = "OK" =>
          LET e == Of(s[2])
              e2 == WithFrame(e, m, r.t)
              c == PositionOf(e, m)
          IN /\ a.address = s[2]
             /\ SpeedToo(m, a.gs)
             /\ IF c = ERR THEN a.how = "" /\ a.entry = e2
                ELSE IF a.how = "none" THEN PositionAllowed(e2, FormatOf(c), r.t, station, "none", <<>>) /\ a.entry = e2
                ELSE /\ PositionAllowed(e2, FormatOf(c), r.t, station, a.how, a.entry.position)
                     /\ a.entry = [e2 EXCEPT !.position = a.entry.position, !.fixed = r.t]

\* What is received undamaged is the truth
TrueOk(r) ==
  LET a == r.answer
      f == r.truth
  IN r.fate = "received" =>
       /\ r.kind \in SquitterKinds => a.status = "OK"
       /\ r.kind = "call" => (a.status = "OK" <=> f.interrogator \in {1, 7, 33})
       /\ r.kind \notin SquitterKinds \union {"call"} => (a.status = "OK" <=> f.address \in DOMAIN table)
       /\ a.status = "OK" =>
            /\ a.address = f.address
            /\ Truthful(f, r.kind, a.entry)
            /\ r.kind = "position" /\ a.how \in {"global", "local"} => Located(f, a.entry.position)

Init == i = 0 /\ table = <<>> /\ station = <<0, 0>>
Next ==
  /\ i < Len(Records)
  /\ i' = i + 1
  /\ LET r == Records[i']
     IN IF Begins(r) THEN table' = <<>> /\ station' = r.station
        ELSE /\ StepOk(r) /\ TrueOk(r)
             /\ UNCHANGED station
             /\ table' = IF r.answer.status = "OK"
                         THEN [a \in DOMAIN table \union {r.answer.address} |-> IF a = r.answer.address THEN r.answer.entry ELSE table[a]]
                         ELSE table
Spec == Init /\ [][Next]_vars

Depth == TLCGet("stats").diameter - 1
Accepted_ == \/ Depth = Len(Records)
             \/ /\ PrintT(<<"MISMATCH", Depth + 1, Records[Depth + 1].kind, Records[Depth + 1].fate, Records[Depth + 1].frame, Records[Depth + 1].answer>>)
                /\ FALSE
=============================================================================
