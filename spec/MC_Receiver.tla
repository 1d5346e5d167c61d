------------------------------- MODULE MC_Receiver -------------------------------
(* Two aircraft transmit, in any order, any of their messages; the channel loses and damages some of them. What the     *)
(* receiver knows of an aircraft is what it told, and the transmissions of the other and the damages change nothing.    *)
EXTENDS Receiver

CONSTANTS Length, Kinds, Damages, Bases

Fleets == <<
  <<[address |-> 4959045, lat |-> 48000000, lon |-> 2000000, dlat |-> 900, dlon |-> -1100, feet |-> 35000, by25 |-> 1],
    [address |-> 4959044, lat |-> -33000000, lon |-> 179999000, dlat |-> -700, dlon |-> 1500, feet |-> 12300, by25 |-> 0]>>,
  <<[address |-> 1, lat |-> -1000, lon |-> -179999500, dlat |-> 600, dlon |-> -900, feet |-> -1000, by25 |-> 1],
    [address |-> 16777215, lat |-> 10470000, lon |-> 1000, dlat |-> 250, dlon |-> -900, feet |-> -1200, by25 |-> 0]>> >>
Common == [set |-> 4, category |-> 3, name |-> <<1, 6, 18, 28, 29, 30, 0, 0>>, quality |-> 2, ss |-> 0, single |-> 0, nacp |-> 9, sil |-> 2, magnetic |-> 1, bearing |-> 1000, airspeed |-> 400,
           ra |-> [ara |-> <<1, 1, 0, 0, 1, 0, 1>>, rac |-> <<1, 0, 0, 1>>, ended |-> 0, multiple |-> 0, tti |-> 2, threat |-> 0, feet |-> 12300, range |-> 20, bearing |-> 59],
           capabilities |-> <<1, 0, 1, 1, 0, 0, 1, 0, 0, 1, 1, 1, 0, 1, 0, 0, 0, 1, 1, 1, 1, 0, 0, 1>>, weather |-> <<1, 90, 200, -450, 250, 40>>, hazards |-> <<1, 0, 3, 2>>, movement |-> 40, track |-> 77,
           supersonic |-> 0, ew |-> -300, ns |-> 250, source |-> 0, rate |-> -10, version |-> 2, emergency |-> 1, digits |-> <<7, 6, 0, 0>>,
           selected |-> 1000, fms |-> 1, feet1 |-> 12000, heading1 |-> 271, pressure |-> 266, headed |-> 1, nicb |-> 1, diff |-> -20,
           equipment |-> [k \in 1..32 |-> IF k % 3 = 0 \/ k % 7 = 1 THEN 1 ELSE 0], size |-> 11, antenna |-> <<5, 19>>, link |-> <<3, 2, 5, 40961>>, register |-> 50, mcp |-> 2000, baro |-> 2130, roll |-> -10, direction |-> 300, gs |-> 200, tas |-> 210,
           heading |-> -200, ias |-> 300, mach |-> 200, inertial |-> -20, fs |-> 0, interrogator |-> 7, df |-> 17, ground |-> 0, odd |-> 0]
Whole(f, n) == [x \in DOMAIN f \union DOMAIN Common |->
                IF x \in DOMAIN f THEN f[x] ELSE IF n = 2 /\ x \in {"ground", "supersonic"} THEN (IF x = "ground" THEN 1 ELSE 0) ELSE Common[x]]

VARIABLES fleet, clock, table, last
vars == <<fleet, clock, table, last>>

Station == <<fleet[2].lat + 200000, Wrap(fleet[2].lon - 300000)>>

Init == /\ \E b \in Bases, ground \in {1, 2} : fleet = <<Whole(Fleets[b][1], 1), Whole(Fleets[b][2], ground)>>
        /\ clock = 0
        /\ table = [i \in 1..2 |-> Nothing]
        /\ last = <<>>


\* The position that the receiver computes
GlobalValue(e, odd) ==
  LET g == e.even[4] = 1
      le == IF g THEN CHOOSE x \in SurfaceLats(LatEven(e.even[2], e.odd[2], TRUE), Station[1]) : TRUE ELSE South(LatEven(e.even[2], e.odd[2], FALSE))
      lo == IF g THEN CHOOSE x \in SurfaceLats(LatOdd(e.even[2], e.odd[2], TRUE), Station[1]) : TRUE ELSE South(LatOdd(e.even[2], e.odd[2], FALSE))
      lat == IF odd = 1 THEN lo ELSE le
      l == Lon(e.even[3], e.odd[3], NL(lat), odd = 0, g)
      all == IF g THEN {l, l + 90*Deg, l + 180*Deg, l + 270*Deg} ELSE {l}
  IN IF NL(le) # NL(lo) THEN <<>>
     ELSE <<lat, Wrap(CHOOSE x \in all : \A y \in all : LonDistance(x, Station[2]) <= LonDistance(y, Station[2]))>>
LocalValue(e, odd, ref) ==
  LET r == IF odd = 1 THEN e.odd ELSE e.even
      lat == CHOOSE x \in Around(ref[1], r[2], r[4] = 1, IF odd = 1 THEN 59 ELSE 60) : TRUE
  IN <<lat, Wrap(CHOOSE x \in Around(ref[2], r[3], r[4] = 1, Zones(NL(lat), odd = 0)) : TRUE)>>
Way(e, odd, t) ==
  IF Paired(e, t) /\ GlobalValue(e, odd) # <<>> THEN "global"
  ELSE IF e.position # <<>> /\ t - e.fixed <= Lasting THEN "local" ELSE "none"
Value(e, odd, t) ==
  CASE Way(e, odd, t) = "global" -> GlobalValue(e, odd)
    [] Way(e, odd, t) = "local" -> LocalValue(e, odd, e.position)
    [] OTHER -> <<>>

Received(e, m, t) ==
  LET c == PositionOf(e, m)
      e2 == WithFrame(e, m, t)
  IN IF c = ERR THEN e2
     ELSE LET p == Value(e2, FormatOf(c), t) IN IF p = <<>> THEN e2 ELSE [e2 EXCEPT !.position = p, !.fixed = t]

Moved(f) == [f EXCEPT !.lat = @ + f.dlat, !.lon = Wrap(@ + f.dlon)]

\* last: the aircraft known so far, then the transmission
Seen == IF last = <<>> THEN {} ELSE last[1]
Transmit(i, kind, damage) ==
  LET m == Damaged(FrameOf(fleet[i], kind), damage)
      s == Sender24(m, {fleet[j].address : j \in Seen})
      from == IF s[1] = "OK" THEN {j \in 1..2 : fleet[j].address = s[2]} ELSE {}
  IN /\ clock' = clock + 1
     /\ fleet' = [j \in 1..2 |-> LET f == IF j = i /\ kind = "position" THEN [fleet[j] EXCEPT !.odd = 1 - @] ELSE fleet[j] IN Moved(f)]
     /\ table' = [j \in 1..2 |-> IF j \in from THEN Received(table[j], m, clock) ELSE table[j]]
     /\ last' = <<Seen \union from, i, kind, IF damage = {} THEN "received" ELSE "damaged", s>>
Lose(i, kind) ==
  /\ clock' = clock + 1
  /\ fleet' = [j \in 1..2 |-> LET f == IF j = i /\ kind = "position" THEN [fleet[j] EXCEPT !.odd = 1 - @] ELSE fleet[j] IN Moved(f)]
  /\ last' = <<Seen, i, kind, "lost">>
  /\ UNCHANGED table
Next == /\ clock < Length
        /\ \E i \in 1..2, kind \in Kinds : Lose(i, kind) \/ \E d \in Damages \union {{}} : Transmit(i, kind, d)
Spec == Init /\ [][Next]_vars

\* The squitters and the all-call replies are accepted when they are not damaged; the others when the aircraft is known
Heard == [][ last'[4] = "received" => ((last'[5][1] = "OK") <=> (last'[3] \in SquitterKinds \union {"call"} \/ last'[2] \in Seen)) ]_vars
\* What is accepted comes from who sent it
FromSender == [][ (last'[4] # "lost" /\ last'[5][1] = "OK") => last'[5][2] = fleet[last'[2]].address ]_vars
\* What is damaged, lost, or of the other aircraft changes nothing
Untouched == [][ \A j \in 1..2 : (last'[4] # "received" \/ last'[2] # j) => table'[j] = table[j] ]_vars
\* What is received is the truth
Truth == [][ (last'[4] = "received" /\ last'[5][1] = "OK") => Truthful(fleet[last'[2]], last'[3], table'[last'[2]]) ]_vars
Place == [][ (last'[4] = "received" /\ last'[3] = "position" /\ table'[last'[2]].fixed = clock) => Located(fleet[last'[2]], table'[last'[2]].position) ]_vars
\* The position is known as soon as there is a pair of reports in the same zones, and then it is not lost
Soon == [][ LET i == last'[2] e == table'[i]
            IN (last'[4] = "received" /\ last'[3] = "position" /\ Paired(e, clock) /\ NL(fleet[i].lat + 3000) = NL(fleet[i].lat - 3000)) => e.fixed = clock ]_vars
\* The computed position is one that the relation allows, and a point a bit further is not
Allowed_ == [][ (last'[4] = "received" /\ last'[3] = "position") =>
  LET i == last'[2]
      f == fleet[i]
      e == [table'[i] EXCEPT !.position = table[i].position, !.fixed = table[i].fixed]
      way == Way(e, f.odd, clock)
      p == Value(e, f.odd, clock)
  IN /\ PositionAllowed(e, f.odd, clock, Station, way, p)
     /\ \A w \in {"global", "local", "none"} \ {way} : ~PositionAllowed(e, f.odd, clock, Station, w, p)
     /\ p # <<>> => ~PositionAllowed(e, f.odd, clock, Station, way, <<p[1] + 50, p[2]>>) /\ ~PositionAllowed(e, f.odd, clock, Station, way, <<p[1], p[2] - 50>>) ]_vars
=============================================================================
