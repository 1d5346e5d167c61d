---------------------------------- MODULE Show ----------------------------------
(* Prints what the specification expects for each record of a trace, and whether it allows the recorded result.     *)
EXTENDS Oracle, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Records)
        /\ i' = i + 1
        /\ PrintT(<<"RECORD", i', "EXPECTED", ToString(Expected(Records[i'])), "ACTUAL", ToString(Records[i'][Len(Records[i'])])>>)
Spec == Init /\ [][Next]_i
=============================================================================
