-------------------------------- MODULE MC_Frame --------------------------------
(* Octets arrive one by one. The first one says which format and which length are being received; nothing is a       *)
(* frame before its last octet, and the same octets never are two frames.                                            *)
EXTENDS Frame, FiniteSets

CONSTANTS Third, Fourth          \* octets tried in the positions of the altitude and identity codes

VARIABLE m

Alphabet(n) == CASE n = 0 -> 0..255 [] n = 2 -> Third [] n = 3 -> Fourth [] OTHER -> {0}
Init == m = <<>>
Next == /\ Len(m) < 16
        /\ \E o \in Alphabet(Len(m)) : m' = Append(m, o)
Spec == Init /\ [][Next]_m

Kinds == {"MessageDF0", "MessageDF4", "MessageDF5", "MessageDF11", "MessageDF16", "MessageDF17", "MessageDF18", "MessageDF19",
          "MessageDF20", "MessageDF21", "MessageDF24"}

\* Exactly 7 or 14 octets, according to the first bit
Length == Len(m) > 0 /\ Accepted(m) => Len(m) = IF B(m, 1) = 1 THEN 14 ELSE 7
Prefix == Len(m) = 14 /\ Accepted(m) => ~Accepted(SubSeq(m, 1, 7))
Classes == LET c == Class(m) IN Len(m) > 0 => (c = ERR \/ (c[1] \in Kinds /\ c[2] \in {0, 4, 5, 11, 16, 17, 18, 19, 20, 21, 24}))
\* The length of the header depends on the format only
Shape == Len(m) > 0 /\ Accepted(m) =>
  Len(Header(m)) = CASE DF(m) \in {0, 4, 5, 16} -> 5 [] DF(m) \in {17, 18} -> 4 [] DF(m) = 11 -> 3 [] DF(m) = 19 -> 2
                     [] DF(m) \in {20, 21} -> 6 [] OTHER -> 4
\* Altitudes are given by the formats that have one, and are legal
Legal == Len(m) > 0 /\ Accepted(m) /\ DF(m) \in WithAltitude => AltitudeOf(m)[2] \in -1200..126700
\* The format alone decides, unless there is an altitude
Decided == Len(m) \in {7, 14} /\ DF(m) \notin WithAltitude => (Accepted(m) <=> (DF(m) \in ShortFormats /\ Len(m) = 7) \/ (DF(m) \in LongFormats /\ Len(m) = 14))
=============================================================================
