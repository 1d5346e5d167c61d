--------------------------------- MODULE Reject ---------------------------------
(* The records of a corrupted trace that the specification allows nevertheless (there should be none): shows that    *)
(* the validation of traces is not vacuous.                                                                          *)
EXTENDS Oracle, Json, IOUtils

Records == ndJsonDeserialize(IOEnv.TRACE)

\* n counts the records accepted
VARIABLES i, n
Init == i = 0 /\ n = 0
Next == /\ i < Len(Records)
        /\ i' = i + 1
        /\ n' = n + IF Decode(Records[i']) THEN 1 ELSE 0
        /\ (i' = Len(Records) => PrintT(<<"ACCEPTED", n'>>))
        /\ (n' > n => PrintT(<<"STILL ACCEPTED", Records[i']>>))
Spec == Init /\ [][Next]_<<i, n>>
=============================================================================
