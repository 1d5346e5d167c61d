------------------------------ MODULE MC_Registers ------------------------------
(* The layout of the registers. Starting from some contents, bits are changed one at a time. A bit that is assigned   *)
(* to a field means something; the ones that are not are never looked at; a bit belongs to one field only.            *)
EXTENDS Oracle

CONSTANTS Names,       \* the readers examined
          Depth        \* number of bits changed

Octs(n) == IF n = "ra" THEN 6 ELSE 7
Bits(n) == 8 * Octs(n)

\* First octet of the contents
Head8(n) ==
  CASE n = "bds05" -> {152, 176} [] n = "bds06" -> {48, 56} [] n = "bds08" -> {8, 32} [] n = "bds09" -> {153, 154, 155, 156}
    [] n = "bds10" -> {16} [] n = "bds20" -> {32} [] n = "bds30" -> {48} [] n = "bds61n" -> {224} [] n = "bds61e" -> {225} [] n = "bds61a" -> {226}
    [] n = "bds62t0" -> {232} [] n = "bds62t1" -> {234} [] n \in {"bds65v0", "bds65a1", "bds65a2"} -> {248} [] n \in {"bds65s1", "bds65s2"} -> {249}
    [] OTHER -> {0}

\* Octets of the version of the operational status, and an altitude that is legal
Fix(n, m) ==
  CASE n \in {"bds65a1", "bds65s1"} -> [m EXCEPT ![6] = 32]
    [] n \in {"bds65a2", "bds65s2"} -> [m EXCEPT ![6] = 64]
    [] n = "bds05" -> [m EXCEPT ![2] = 1]
    [] OTHER -> m

Zeros(n) == [i \in 1..Octs(n) |-> 0]
Bases(n) ==
  {Fix(n, [Zeros(n) EXCEPT ![1] = h]) : h \in Head8(n)}
  \union (IF n = "ra" THEN {<<128,0,4,0,0,0>>, <<0,0,8,64,0,0>>, <<0,0,24,1,0,0>>, <<1,2,4,8,16,32>>}
          ELSE IF n \in {"bds30", "bds61a"} THEN {<<h, 128,0,4,0,0,0>> : h \in Head8(n)} \union {<<h, 0,0,8,64,0,0>> : h \in Head8(n)} \union {<<h, 0,0,24,1,0,0>> : h \in Head8(n)}
          ELSE {})
  \union (IF n = "bds62t1" THEN {<<235,8,4,2,2,0,2>>} ELSE IF n = "bds62t0" THEN {<<233,8,4,2,2,0,2>>} ELSE {})
  \union (IF n = "bds44" THEN {<<16,0,0,0,0,0,0>>, <<32,0,0,0,0,0,0>>} ELSE IF n = "bds45" THEN {<<0,0,0,0,0,0,8>>} ELSE {})
  \union (IF n = "bds08" THEN {<<32,4,32,130,8,32,130>>} ELSE IF n = "bds20" THEN {<<32,4,32,130,8,32,130>>} ELSE {})

\* The bits that are not assigned and never looked at
Unassigned(n) ==
  CASE n = "bds09" -> {47, 48}
    [] n = "bds62t0" -> {11}
    [] n = "bds62t1" -> {51, 55, 56}
    [] n = "bds65a1" -> (19..24) \union (30..40)
    [] n = "bds65s1" -> (16..20) \union (30..40)
    [] n = "bds17" -> 25..28
    [] n = "bds65a2" -> {13, 14, 29} \union (20..24) \union (33..40)
    [] n = "bds65s2" -> {11, 13, 14, 29, 49, 50}
    [] n = "ra" -> 8..14
    [] n = "bds30" -> 16..22
    [] n = "bds61a" -> 16..22
    [] OTHER -> {}

Flip(m, k) == LET o == ((k-1) \div 8) + 1 w == Pow2[7 - ((k-1) % 8)]
              IN [m EXCEPT ![o] = IF (@ \div w) % 2 = 1 THEN @ - w ELSE @ + w]

VARIABLES name, m, depth
vars == <<name, m, depth>>

Init == name \in Names /\ m \in Bases(name) /\ depth = 0
Change(k) == depth < Depth /\ m' = Flip(m, k) /\ depth' = depth + 1 /\ UNCHANGED name
Next == \E k \in 1..Bits(name) : Change(k)
Spec == Init /\ [][Next]_vars

C(n, x) == Read(n, x)

\* The content of a message has the shape of its kind
Shaped == LET c == C(name, m) IN c = ERR \/ (Len(c) >= 2 /\ (name = "ra" \/ c[Len(c)] \in {0, 1}))

\* The bits that are not assigned change nothing
Ignored == \A k \in Unassigned(name) : C(name, m) = C(name, Flip(m, k))

\* The fields that two contents of the same kind do not share (the last element is the coherency)
Differences(a, b) == {i \in 1..(Len(a)-1) : a[i] # b[i]}
Same(a, b) == a # ERR /\ b # ERR /\ Len(a) = Len(b) /\ a[1] = b[1]

\* Changing one bit changes at most one field: a number and its status; (or fields that are derived of it: the altitude
\* and its method, the four forms of the identity of a threat, the two statuses of the wind in the old format)
Limit(n) == IF n \in {"ra", "bds30", "bds61a"} THEN 9 ELSE IF n = "bds45" THEN 20 ELSE 2
Local == [][LET a == C(name, m) b == C(name, m')
            IN Same(a, b) => Cardinality(Differences(a, b)) <= Limit(name)]_vars

\* Every other bit means something in some content
Meaningful(n) ==
  \A k \in 1..Bits(n) : k \in Unassigned(n) \/ \E b \in Bases(n) : C(n, b) # C(n, Flip(b, k)) \/ \E j \in 1..Bits(n) : C(n, Flip(b, j)) # C(n, Flip(Flip(b, j), k))
ASSUME Assigned == \A n \in Names : IF Meaningful(n) THEN TRUE ELSE PrintT(<<"a bit means nothing", n, {k \in 1..Bits(n) : k \notin Unassigned(n) /\ \A b \in Bases(n) : C(n, b) = C(n, Flip(b, k))}>>) /\ FALSE
=============================================================================
