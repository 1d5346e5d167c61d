-------------------------------- MODULE MC_CommB --------------------------------
(* A transponder loads a register, field by field, with values that are possible in flight; after every load an        *)
(* interrogator reads it without knowing which register it is.                                                       *)
EXTENDS CommB, FiniteSets

\* The fields that are loaded: <<status bit or 0, first bit, last bit, values>>
Fields(r) ==
  CASE r = "bds07" -> << <<0, 1, 2, {0, 1, 2}>>, <<0, 3, 3, {0, 1}>> >>
    [] r = "bds10" -> << <<0, 9, 9, {0,1}>>, <<0, 17, 23, {0, 5}>>, <<0, 26, 28, {1, 6}>>, <<0, 29, 32, {0, 4}>>, <<0, 33, 33, {0, 1}>>, <<0, 16, 16, {1}>>, <<0, 36, 40, {0, 9}>>, <<0, 41, 48, {0, 255}>> >>
    [] r = "bds17" -> << <<0, 1, 8, {254, 250}>>, <<0, 9, 16, {0, 129}>>, <<0, 17, 24, {1, 128}>>, <<0, 29, 29, {0,1}>> >>
    [] r = "bds20" -> << <<0, 9, 20, {65}>>, <<0, 21, 32, {3184, 2080}>>, <<0, 33, 44, {780, 2080}>>, <<0, 45, 56, {2080, 193}>> >>
    [] r = "bds30" -> << <<0, 9, 15, {64, 127}>>, <<0, 23, 26, {0, 3}>>, <<0, 27, 28, {1, 3}>>, <<0, 29, 30, {0, 1}>>, <<0, 31, 46, {77, 40000}>> >>
    [] r = "bds40" -> << <<1, 2, 13, {1250, 2375}>>, <<14, 15, 26, {0, 2375}>>, <<27, 28, 39, {2132}>>, <<48, 49, 51, {2, 7}>>, <<54, 55, 56, {1, 3}>> >>
    [] r = "bds44" -> << <<0, 1, 4, {0, 1, 4}>>, <<5, 6, 14, {22, 250}>>, <<15, 16, 23, {100}>>, <<24, 25, 35, {8, 1500}>>, <<36, 37, 47, {300}>>, <<49, 50, 56, {40}>> >>
    [] r = "bds45" -> << <<1, 2, 3, {1}>>, <<4, 5, 6, {0, 3}>>, <<7, 8, 9, {2}>>, <<10, 11, 12, {1}>>, <<13, 14, 24, {80, 2000}>>, <<25, 26, 37, {700}>> >>
    [] r = "bds50" -> << <<1, 2, 11, {12, 1000}>>, <<12, 13, 23, {0, 700, 1800}>>, <<24, 25, 34, {220, 300}>>, <<35, 36, 45, {3, 1020}>>, <<46, 47, 56, {210, 250}>> >>
    [] r = "bds60" -> << <<1, 2, 12, {700, 1800}>>, <<13, 14, 23, {250, 500}>>, <<24, 25, 34, {200, 250}>>, <<35, 36, 45, {0, 30, 1000}>>, <<46, 47, 56, {29, 999}>> >>

Registers == {"bds07", "bds10", "bds17", "bds20", "bds30", "bds40", "bds44", "bds45", "bds50", "bds60"}
Empty(r) == [i \in 1..7 |-> IF i > 1 THEN 0 ELSE CASE r = "bds10" -> 16 [] r = "bds20" -> 32 [] r = "bds30" -> 48 [] OTHER -> 0]

\* Writes v in the bits s..e
Put(m, s, e, v) ==
  LET bits == ToBits(v, e - s + 1)
      Bit(i) == IF i < s \/ i > e THEN B(m, i) ELSE bits[i - s + 1]
  IN Octets([i \in 1..56 |-> Bit(i)])

VARIABLES reg, m, next
vars == <<reg, m, next>>

Init == reg \in Registers /\ m = Empty(reg) /\ next = 1
Load(v) == LET f == Fields(reg)[next] IN
  /\ m' = (LET x == Put(m, f[2], f[3], v) IN IF f[1] = 0 THEN x ELSE Put(x, f[1], f[1], 1))
  /\ next' = next + 1
  /\ UNCHANGED reg
Skip == next <= Len(Fields(reg)) /\ next' = next + 1 /\ UNCHANGED <<reg, m>>
Next == Skip \/ (next <= Len(Fields(reg)) /\ \E v \in Fields(reg)[next][4] : Load(v))
Spec == Init /\ [][Next]_vars

Read1(r, x) ==
  CASE r = "bds07" -> Bds07(x) [] r = "bds10" -> Bds10(x) [] r = "bds17" -> Bds17(x) [] r = "bds20" -> Bds20(x) [] r = "bds30" -> Bds30(x)
    [] r = "bds40" -> Bds40(x) [] r = "bds44" -> Bds44(x) [] r = "bds45" -> Bds45(x) [] r = "bds50" -> Bds50(x) [] r = "bds60" -> Bds60(x)

Found == Inference(m)
Kinds == {Found[i][1] : i \in 1..Len(Found)}

\* The three registers that are certain exclude the others
Certain == {"NoMessageAvailable", "Status", "AircraftIdentification"}
Exclusive == Kinds \intersect Certain # {} => Len(Found) = 1
\* A register whose content is coherent is found, unless one of the certain ones is
Complete == LET c == Read1(reg, m) IN OK(c) => (c[1] \in Kinds \/ Kinds \intersect Certain # {})
\* What is found is coherent, and each register is found once
Coherent == \A i \in 1..Len(Found) : Found[i][Len(Found[i])] = 1
Once == Cardinality({Register(Found[i][1]) : i \in 1..Len(Found)}) = Len(Found)
\* They are in the order of the registers
Order(r) == CASE r = "BDS 0,0" -> 0 [] r = "BDS 0,7" -> 7 [] r = "BDS 1,0" -> 16 [] r = "BDS 1,7" -> 23 [] r = "BDS 2,0" -> 32 [] r = "BDS 3,0" -> 48
              [] r = "BDS 4,0" -> 64 [] r = "BDS 4,4" -> 68 [] r = "BDS 4,5" -> 69 [] r = "BDS 5,0" -> 80 [] r = "BDS 6,0" -> 96
Ordered == \A i \in 1..(Len(Found)-1) : Order(Register(Found[i][1])) < Order(Register(Found[i+1][1]))
\* No information is never found in a register with a value in it
Empties == Kinds = {"NoMessageAvailable"} => Zero(m, 1, 56)
=============================================================================
