--------------------------------- MODULE Trace ---------------------------------
(* A trace recorded from the library, one call per step, is accepted when every step is one that the specification  *)
(* allows.                                                                                                          *)
EXTENDS Oracle, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Records)
        /\ i' = i + 1
        /\ Decode(Records[i'])
Spec == Init /\ [][Next]_i

Depth == TLCGet("stats").diameter - 1
Accepted_ == \/ Depth = Len(Records)
             \/ /\ PrintT(<<"MISMATCH", Depth + 1, Records[Depth + 1], "EXPECTED", Expected(Records[Depth + 1])>>)
                /\ FALSE
=============================================================================
