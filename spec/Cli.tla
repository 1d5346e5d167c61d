---------------------------------- MODULE Cli ----------------------------------
(* The command line program: what is printed for one line of text, given the level of the ADS-B reader. The result  *)
(* is a sequence of lines <<name, text of the value, number>>, after the echo of the line itself. A reason of       *)
(* refusal is one line whose words are free (Refused).                                                              *)
EXTENDS Labels, Parity

Refused == <<"?", "", 0>>

\* ---------------------------------------------------------------------------------------------------------------
\* The text of a line, as character codes, is hexadecimal

HexValue(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsHex(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexValue(s[i]) >= 0
OctetsOf(s) == [i \in 1..(Len(s) \div 2) |-> 16*HexValue(s[2*i-1]) + HexValue(s[2*i])]

\* ---------------------------------------------------------------------------------------------------------------
\* A frame is read when it is accepted and, for the extended squitters, when its parity is right

Genuine(m) == Accepted(m) /\ (DF(m) \in {17, 18} => Overlay(m) = 0)

Sender(m) ==
  IF DF(m) = 11 THEN L("In reply to interrogator", Address(Overlay(m)))
  ELSE L("From", Address(IF DF(m) \in {17, 18} THEN AA(m) ELSE Overlay(m)))

\* The register 3,0 of ACAS is the only known content of an air to air message
AcasText(mv) ==
  <<L("-- ACAS Information --", "")>> \o
  (IF mv[1] # 48 THEN <<L("Unknown message type", "[" \o HexDigit(mv[1] \div 16) \o ":" \o HexDigit(mv[1] % 16) \o "]")>>
   ELSE LET d == SubSeq(mv, 2, 7) IN IF RaLegal(d) THEN RaLines(Ra(d)) ELSE <<Refused>>)

SquitterText(level, me) ==
  <<L("-- ADSB Information --", "")>> \o (IF Adsb(level, me) = ERR THEN <<Refused>> ELSE AdsbText(level, 0, 0, me))

RECURSIVE Separated(_)
Separated(contents) ==
  IF Len(contents) = 0 THEN <<L("Unknown message format", "")>>
  ELSE IF Len(contents) = 1 THEN TextOf(contents[1])
  ELSE TextOf(Head(contents)) \o <<L("-------------------------------", "")>> \o Separated(Tail(contents))
CommBText(mb) == <<L("-- Comm-B Information --", "")>> \o Separated(Inference(mb))

ContentText(level, m) ==
  CASE DF(m) = 16 -> AcasText(Data(m))
    [] DF(m) = 17 -> SquitterText(level, Data(m))
    [] DF(m) = 18 /\ U(m, 6, 8) \in {0, 1} -> SquitterText(level, Data(m))
    [] DF(m) = 18 /\ U(m, 6, 8) \in {2, 3, 4, 5} -> <<L("-- TISB Information --", ""), L("Not implemented", "")>>
    [] DF(m) \in {20, 21} -> CommBText(Data(m))
    [] OTHER -> <<>>

MessageText(level, m) ==
  IF ~Genuine(m) THEN <<Refused>>
  ELSE <<L("-- Mode-S Information --", ""), Sender(m)>> \o FrameText(m) \o ContentText(level, m)

LineText(level, s) == IF IsHex(s) THEN MessageText(level, OctetsOf(s)) ELSE <<Refused>>

\* ---------------------------------------------------------------------------------------------------------------
\* The runs that decode nothing

RunText(kind) ==
  CASE kind = "nothing given" -> <<"exit 0", L("No data provided", "")>>
    [] kind \in {"unknown level", "no such file", "unknown option"} -> <<"failed">>
    [] kind = "empty file" -> <<"exit 0">>
=============================================================================
