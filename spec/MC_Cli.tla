--------------------------------- MODULE MC_Cli ---------------------------------
(* The program as a state machine: it takes the lines one after another, and each one goes through the stages text,   *)
(* octets, frame, sender, content. Whatever the lines are, all of them are answered, each one as if it was alone;     *)
(* and what is printed tells in what stage it was stopped.                                                            *)
EXTENDS Cli

CONSTANTS Length, Levels

\* ASCII
Codes(t) == [i \in 1..Len(t) |->
  LET c == SubSeq(t, i, i)
      hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
  IN IF \E k \in 1..16 : hex[k] = c THEN (LET k == CHOOSE k \in 1..16 : hex[k] = c IN IF k <= 10 THEN 47+k ELSE 54+k) ELSE 120]

HexText(m) == Codes(Join([i \in 1..Len(m) |-> HexOctet(m[i])], ""))
Air == <<8*17+5, 75, 171, 69>> \o <<88, 171, 3, 28, 68, 104, 73>>
Samples == <<
  HexText(Frame(Air, 0)),                                                      \* genuine squitter
  HexText(Frame(Air, 1)),                                                      \* wrong parity
  HexText(Frame([Air EXCEPT ![5] = 200], 0)),                                  \* genuine, unknown type code
  HexText(Frame(<<8*20, 0, 24, 48, 48, 0, 0, 0, 0, 0, 0>>, 1234567)),            \* Comm-B
  HexText(Frame(<<8*16, 0, 0, 0, 48, 128, 0, 0, 0, 0, 0>>, 1234567)),           \* ACAS
  HexText(Frame(<<8*16, 0, 0, 0, 49, 128, 0, 0, 0, 0, 0>>, 1234567)),           \* ACAS of another type
  HexText(Frame(<<8*11+5, 75, 171, 69>>, 7)),                                  \* all-call reply
  HexText(Frame(<<8*18+2, 75, 171, 69, 0, 0, 0, 0, 0, 0, 0>>, 0)),              \* TIS-B
  HexText(<<93, 1>>),                                                          \* not a frame
  <<120, 48>>,                                                                 \* not hexadecimal
  <<48>>,                                                                      \* odd
  <<>> >>

\* input: the lines to come; stage and data: of the current line; printed: one sequence of lines per line of the input
VARIABLES history, level, stage, data, printed
vars == <<history, level, stage, data, printed>>

Tell(x) == printed' = [printed EXCEPT ![Len(printed)] = @ \o x]

Init == history = <<>> /\ level \in Levels /\ stage = "idle" /\ data = <<>> /\ printed = <<>>
Take == /\ stage = "idle" /\ Len(history) < Length
        /\ \E i \in 1..Len(Samples) : history' = Append(history, i) /\ data' = Samples[i]
        /\ printed' = Append(printed, <<>>)
        /\ stage' = "text" /\ UNCHANGED level
Text == /\ stage = "text"
        /\ IF IsHex(data) THEN stage' = "octets" /\ data' = OctetsOf(data) /\ UNCHANGED printed
           ELSE Tell(<<Refused>>) /\ stage' = "idle" /\ UNCHANGED data
        /\ UNCHANGED <<history, level>>
ReadFrame == /\ stage = "octets"
             /\ IF Accepted(data) THEN stage' = "frame" /\ UNCHANGED printed
                ELSE Tell(<<Refused>>) /\ stage' = "idle"
             /\ UNCHANGED <<history, level, data>>
Check == /\ stage = "frame"
         /\ IF Genuine(data) THEN Tell(<<L("-- Mode-S Information --", ""), Sender(data)>> \o FrameText(data)) /\ stage' = "content"
            ELSE Tell(<<Refused>>) /\ stage' = "idle"
         /\ UNCHANGED <<history, level, data>>
Content == /\ stage = "content"
           /\ Tell(ContentText(level, data))
           /\ stage' = "idle"
           /\ UNCHANGED <<history, level, data>>
Next == Take \/ Text \/ ReadFrame \/ Check \/ Content
Spec == Init /\ [][Next]_vars /\ WF_vars(Text \/ ReadFrame \/ Check \/ Content)

\* Each line is answered as if it was alone
Alone == stage = "idle" => /\ Len(printed) = Len(history)
                           /\ \A k \in 1..Len(history) : printed[k] = LineText(level, Samples[history[k]])
\* A line answered is never changed afterwards
Kept == [][\A k \in 1..Len(printed)-1 : printed'[k] = printed[k]]_vars
\* A line in progress always comes to its answer
Answered == []<>(stage = "idle")
\* A refusal is the only answer, or that of a content
Refusals == stage = "idle" => \A k \in 1..Len(printed) : \A i \in 1..Len(printed[k]) :
              printed[k][i] = Refused => i = Len(printed[k]) /\ (i = 1 \/ printed[k][i-1][1] \in {"-- ADSB Information --", "-- ACAS Information --"})
=============================================================================
