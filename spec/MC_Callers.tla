------------------------------- MODULE MC_Callers -------------------------------
(* Several callers use the library at the same time. A call takes some octets that belong to its caller, reads them in *)
(* the course of the call, and returns; the library has no memory. In every schedule the results are those of the      *)
(* calls made alone, and the octets are what they were.                                                                *)
EXTENDS Oracle

CONSTANTS Callers, Length                 \* Length: number of calls of each caller

Frames == {<<93, 60, 101, 68, 207, 229, 150>>, <<141, 75, 171, 69, 88, 171, 3, 28, 68, 104, 73, 183, 37, 53>>, <<0, 0>>}
Calls == {<<op, f>> : op \in {"class", "hdr"}, f \in Frames} \union {<<"commb", <<0,0,0,0,0,0,0>>>>, <<"adsbtype", 2, 0, 0, <<88, 171, 3, 28, 68, 104, 73>>>>}

VARIABLES call, octets, result, count
vars == <<call, octets, result, count>>

Idle == <<>>
Given(c) == c[Len(c)]
With(c, d) == [c EXCEPT ![Len(c)] = d]

Init == /\ call = [p \in Callers |-> Idle] /\ octets = [p \in Callers |-> <<>>]
        /\ result = [p \in Callers |-> <<>>] /\ count = [p \in Callers |-> 0]
Begin(p) == /\ call[p] = Idle /\ count[p] < Length
            /\ \E c \in Calls : /\ call' = [call EXCEPT ![p] = c]
                                /\ octets' = [octets EXCEPT ![p] = Given(c)]
            /\ UNCHANGED <<result, count>>
\* The library reads the octets as they are when it returns: were they changed by another call, the result would be too
Return(p) == /\ call[p] # Idle
             /\ result' = [result EXCEPT ![p] = <<call[p], Expected(Append(With(call[p], octets[p]), <<>>))>>]
             /\ call' = [call EXCEPT ![p] = Idle]
             /\ count' = [count EXCEPT ![p] = @ + 1]
             /\ UNCHANGED octets
Next == \E p \in Callers : Begin(p) \/ Return(p)
Spec == Init /\ [][Next]_vars

Alone == \A p \in Callers : result[p] # <<>> => result[p][2] = Expected(Append(result[p][1], <<>>))
Untouched == \A p \in Callers : call[p] # Idle => octets[p] = Given(call[p])
=============================================================================
