-------------------------------- MODULE Frame --------------------------------
(* The Mode S frames: which octets are a frame, of which format, and what their fields say.                      *)
(* (ICAO Annex 10 vol. IV, 3.1.2.3.2, figures 3-7 and 3-8; bits are numbered as in the Annex.)                   *)
EXTENDS Altitude

ERR == <<"ERR">>

\* ---------------------------------------------------------------------------------------------------------------
\* Classification

DF(m) == U(m, 1, 5)

\* The formats made of 56 bits (short) and of 112 bits (long)
ShortFormats == {0, 4, 5, 11}
LongFormats == {16, 17, 18, 19, 20, 21} \union (24..31)      \* DF24: only the two first bits are the format

IsLong(df) == df >= 16

\* Formats that hold an altitude code, and an identity code, in the bits 20 to 32
WithAltitude == {0, 4, 16, 20}
WithIdentity == {5, 21}

Canonical(df) == IF df >= 24 THEN 24 ELSE df

Known(m) ==
  /\ Len(m) \in {7, 14}
  /\ \/ Len(m) = 7 /\ DF(m) \in ShortFormats
     \/ Len(m) = 14 /\ DF(m) \in LongFormats

AltitudeOf(m) == Altitude13(AC13(m, 20))

\* A frame is accepted when it is known and, if it has an altitude, when the altitude is a legal code
Accepted(m) == Known(m) /\ (DF(m) \in WithAltitude => AltitudeOf(m)[2] # Bad)

Kind(m) ==
  CASE DF(m) = 0 -> "MessageDF0"
    [] DF(m) = 4 -> "MessageDF4"
    [] DF(m) = 5 -> "MessageDF5"
    [] DF(m) = 11 -> "MessageDF11"
    [] DF(m) = 16 -> "MessageDF16"
    [] DF(m) = 17 -> "MessageDF17"
    [] DF(m) = 18 -> "MessageDF18"
    [] DF(m) = 19 -> "MessageDF19"
    [] DF(m) = 20 -> "MessageDF20"
    [] DF(m) = 21 -> "MessageDF21"
    [] OTHER -> "MessageDF24"

Name(df) ==
  CASE df = 0 -> "Short air-air surveillance (ACAS)"
    [] df = 4 -> "Surveillance, altitude reply"
    [] df = 5 -> "Surveillance, identify reply"
    [] df = 11 -> "All-call reply"
    [] df = 16 -> "Long air-air surveillance (ACAS)"
    [] df = 17 -> "Extended squitter"
    [] df = 18 -> "Extended squitter/non transponder"
    [] df = 19 -> "Military extended squitter"
    [] df = 20 -> "Comm-B altitude reply"
    [] df = 21 -> "Comm-B identify reply"
    [] OTHER -> "Comm-D (ELM)"

Class(m) == IF Accepted(m) THEN <<Kind(m), Canonical(DF(m)), Name(DF(m))>> ELSE ERR

\* ---------------------------------------------------------------------------------------------------------------
\* Fields

Data(m) == SubSeq(m, 5, 11)          \* MV, ME and MB: bits 33 to 88
LongData(m) == SubSeq(m, 2, 11)      \* MD: bits 9 to 88

FS(m) == U(m, 6, 8)                  \* flight status
DR(m) == U(m, 9, 13)                 \* downlink request
IIS(m) == U(m, 14, 17)               \* utility message: interrogator identifier
IDS(m) == U(m, 18, 19)               \* utility message: identifier designator
SL(m) == U(m, 9, 11)                 \* sensitivity level
RI(m) == U(m, 14, 17)                \* reply information
AA(m) == U(m, 9, 32)                 \* address announced

Header(m) ==
  IF ~Accepted(m) THEN ERR
  ELSE <<Kind(m)>> \o
    CASE DF(m) = 0 -> <<B(m, 6), B(m, 7), SL(m), RI(m)>>
      [] DF(m) = 16 -> <<B(m, 6), SL(m), RI(m), Data(m)>>
      [] DF(m) \in {4, 5} -> <<FS(m), DR(m), IIS(m), IDS(m)>>
      [] DF(m) \in {20, 21} -> <<FS(m), DR(m), IIS(m), IDS(m), Data(m)>>
      [] DF(m) = 11 -> <<U(m, 6, 8), AA(m)>>
      [] DF(m) \in {17, 18} -> <<U(m, 6, 8), AA(m), Data(m)>>
      [] DF(m) = 19 -> <<U(m, 6, 8)>>
      [] OTHER -> <<B(m, 4), U(m, 5, 8), LongData(m)>>

\* The octets that a frame keeps: between the first and the parity, the parity, and, but for Comm-D, the two parts of the first
AsReceived(m) ==
  IF ~Accepted(m) THEN ERR
  ELSE <<Kind(m), SubSeq(m, 2, Len(m)-3), SubSeq(m, Len(m)-2, Len(m))>> \o (IF DF(m) >= 24 THEN <<>> ELSE <<DF(m), U(m, 6, 8)>>)

FrameAltitude(m) == IF Accepted(m) THEN <<"ALT">> \o AltitudeOf(m) ELSE ERR

IdentityOf(m) == Identity13(AC13(m, 20))

FrameIdentity(m) ==
  IF ~Accepted(m) THEN ERR
  ELSE LET id == IdentityOf(m)
       IN <<id, Bool(id = "7700"), Bool(id = "7600"), Bool(id = "7500"), Bool(id = "2000")>>
=============================================================================
