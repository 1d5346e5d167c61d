------------------------------- MODULE MC_Labels -------------------------------
(* The texts of the registers. The contents are explored as in MC_Registers, by changing bits one at a time: two contents *)
(* that differ have texts that differ, so that the text tells the content; the names of the lines of a text differ.    *)
EXTENDS MC_Registers

Text(n, x) == IF C(n, x) = ERR THEN ERR ELSE TextOf(C(n, x))

\* What the texts do not tell: if the content is coherent; the fields that the format only derives or keeps aside
Untold(n) == CASE n = "bds61e" -> {5} [] OTHER -> {}
Told(n, c) == IF c = ERR THEN ERR
              ELSE LET k == IF n = "ra" THEN Len(c) ELSE Len(c) - 1
                   IN [i \in 1..k |-> IF i \in Untold(n) THEN 0 ELSE c[i]]

Exact == [][(Told(name, C(name, m)) = Told(name, C(name, m'))) = (Text(name, m) = Text(name, m'))]_vars

Named == LET t == Text(name, m)
         IN t = ERR \/ \A i, j \in 1..Len(t) : /\ t[i][1] # ""
                                               /\ (i # j => t[i][1] # t[j][1])
                                               /\ (t[i][3] # 0 => t[i][2] = "#")
=============================================================================
