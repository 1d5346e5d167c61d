--------------------------------- MODULE Flights ---------------------------------
(* Generation of histories, by simulation: aircraft of all kinds around a place fly, climb, turn, land and take off,     *)
(* and transmit; the channel loses, damages and cuts transmissions. A history is written as a file: what reaches the   *)
(* receiver, and the truth about the aircraft at that moment.                                                        *)
EXTENDS Receiver, Json, IOUtils

\* In the ten seconds of a pair of reports, an aircraft moves by less than the 0.0127 degrees that make a pair ambiguous

CONSTANTS Steps                        \* transmissions of a history

VARIABLES fleet, clock, log, station, name
vars == <<fleet, clock, log, station, name>>

R(x) == RandomElement(x)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

\* Places: anywhere, at the transitions of the zones, at the equator, near the poles; anywhere, at 0 or 180 degrees of longitude
PlaceLatitude(c) ==
  CASE c \in {1, 2} -> R(-88..88)*Deg + R(0..999999)
    [] c = 3 -> Transitions[R(1..58)] + R(-4000..4000)
    [] c = 4 -> -(Transitions[R(1..58)] + R(-4000..4000))
    [] c = 5 -> R(-4000..4000)
    [] OTHER -> (2*R(0..1) - 1) * (87*Deg + R(-200000..2300000))
PlaceLongitude(c) ==
  CASE c = 1 -> Wrap(180*Deg + R(-4000..4000))
    [] c = 2 -> R(-4000..4000)
    [] OTHER -> R(-180..179)*Deg + R(0..999999)

Limit(lat) == Clamp(lat, -89400000, 89400000)

Advisory ==
  [ara |-> TLCEval([k \in 1..7 |-> R(0..1)]), rac |-> TLCEval([k \in 1..4 |-> R(0..1)]), ended |-> R(0..1), multiple |-> R(0..1), tti |-> R(0..3), threat |-> R(0..16777215),
   feet |-> 100*R(0..1278) - 1100, range |-> R(0..127), bearing |-> R(0..63)]

Bits(n) == TLCEval([k \in 1..n |-> R(0..1)])

\* Each choice is made once: they are the values of the bound variables
\* The addresses of the flights of a history differ: j is their remainder by 3
Flight(lat, lon, j) ==
  \* the result is a set of one flight
  UNION {
    {[address |-> a, lat |-> Limit(lat + dla), lon |-> Wrap(lon + dlo), dlat |-> R(-1100..1100), dlon |-> R(-1100..1100),
      by25 |-> by25, feet |-> IF by25 = 1 THEN 25*R(0..2047) - 1000 ELSE 100*R(0..1278) - 1100, climb |-> R(-1..1),
      supersonic |-> super, ew |-> (IF super = 1 THEN 4 ELSE 1)*R(-1021..1021), ns |-> (IF super = 1 THEN 4 ELSE 1)*R(-1021..1021),
      source |-> R(0..1), rate |-> R(-509..509),
      set |-> R(1..4), category |-> R(0..7), name |-> <<R(0..36), R(0..36), R(0..36), R(0..36), R(0..36), R(0..36), R(0..36), R(0..36)>>,
      quality |-> R(0..300), ss |-> R(0..3), single |-> R(0..1), nacp |-> R(0..11), sil |-> R(0..3), magnetic |-> R(0..1), bearing |-> R(0..1023),
      airspeed |-> (IF super = 1 THEN 4 ELSE 1)*R(0..1021), ra |-> Advisory, capabilities |-> TLCEval([k \in 1..24 |-> R(0..1)]),
      weather |-> <<R(1..4), R(0..250), R(0..255), R(-640..480), R(0..2047), R(0..100)>>, hazards |-> <<R(0..3), R(0..3), R(0..3), R(0..3)>>, movement |-> R(0..127), track |-> R(0..127),
      version |-> R(0..2), emergency |-> R(0..7), digits |-> <<R(0..7), R(0..7), R(0..7), R(0..7)>>, selected |-> R(0..2046), fms |-> R(0..1), feet1 |-> 100*R(0..1010) - 1000, heading1 |-> R(0..359), pressure |-> R(0..511),
      headed |-> R(0..1), nicb |-> R(0..1), diff |-> R(-125..125), equipment |-> Bits(32), size |-> R(0..15), antenna |-> <<R(0..7), R(0..31)>>,
      link |-> <<R(0..5), R(0..6), R(0..6), R(0..65535)>>,
      register |-> R({10, 17, 20, 30, 40, 44, 45, 50, 60}), mcp |-> R(0..4095), baro |-> R(0..4095), roll |-> R(-284..284), direction |-> R(-1024..1023),
      gs |-> gs, tas |-> R(Max2(0, gs-100)..Min2(250, gs+100)), heading |-> R(-1024..1023), ias |-> R(0..500), mach |-> R(0..250),
      inertial |-> R(-187..187), fs |-> R(0..7), interrogator |-> R({1, 7, 33, 33, 2, 60}), df |-> R({17, 17, 18}), ground |-> R({0, 0, 1}), odd |-> R(0..1)]}
    : a \in {j + 3*R({R(0..5592404), R(1653113..1653116)})}, dla \in {R(-900000..900000)}, dlo \in {R(-900000..900000)}, by25 \in {R(0..1)}, gs \in {R(0..300)},
      super \in {IF R(1..4) = 1 THEN 1 ELSE 0} }

Init == fleet = <<>> /\ clock = 0 /\ log = <<>> /\ station = <<>> /\ name = 0

\* A history begins: the place, the aircraft
Begin ==
  /\ fleet = <<>>
  /\ \E lat \in {PlaceLatitude(R(1..6))} : \E lon \in {PlaceLongitude(R(1..4))} :
       \E f1 \in Flight(lat, lon, 0) : \E f2 \in Flight(lat, lon, 1) : \E f3 \in Flight(lat, lon, 2) : \E n \in {R({1, 2, 3, 4})} :
         /\ fleet' = SubSeq(<<f1, f2, f3>>, 1, Min2(n, 3))
         /\ station' = <<Limit(lat), lon>>
  /\ name' \in {R(1..999999999)}
  /\ UNCHANGED <<clock, log>>

Turned(f, dice) ==
  CASE dice = 1 -> [f EXCEPT !.dlat = R(-1100..1100), !.dlon = R(-1100..1100)]
    [] dice = 2 -> [f EXCEPT !.climb = R(-1..1), !.rate = R(-509..509)]
    [] dice = 3 -> [f EXCEPT !.ew = (IF f.supersonic = 1 THEN 4 ELSE 1)*R(-1021..1021), !.ns = (IF f.supersonic = 1 THEN 4 ELSE 1)*R(-1021..1021)]
    [] dice = 4 -> [f EXCEPT !.digits = <<R(0..7), R(0..7), R(0..7), R(0..7)>>, !.emergency = R(0..7)]
    [] dice = 5 -> [f EXCEPT !.register = R({10, 17, 20, 30, 40, 44, 45, 50, 60}), !.mcp = R(0..4095), !.heading = R(-1024..1023)]
    [] dice = 6 -> [f EXCEPT !.ground = 1 - @, !.movement = R(0..127), !.track = R(0..127)]
    [] dice = 7 -> [f EXCEPT !.quality = R(0..300), !.nacp = R(0..11), !.ss = R(0..3)]
    [] dice = 8 -> [f EXCEPT !.name = <<R(0..36), R(0..36), R(0..36), R(0..36), R(0..36), R(0..36), R(0..36), R(0..36)>>]
    [] dice = 9 -> [f EXCEPT !.ra = Advisory]
    [] dice = 10 -> [f EXCEPT !.magnetic = R(0..1), !.bearing = R(0..1023), !.weather = <<R(1..4), R(0..250), R(0..255), R(-640..480), R(0..2047), R(0..100)>>]
    [] dice = 11 -> [f EXCEPT !.equipment = Bits(32), !.size = R(0..15), !.antenna = <<R(0..7), R(0..31)>>, !.link = <<R(0..5), R(0..6), R(0..6), R(0..65535)>>]
    [] dice = 12 -> [f EXCEPT !.selected = R(0..2046), !.feet1 = 100*R(0..1010) - 1000, !.heading1 = R(0..359), !.pressure = R(0..511), !.headed = R(0..1), !.diff = R(-125..125)]
    [] OTHER -> f

Flown(f) ==
  LET u == IF f.ground = 1 THEN 16 ELSE 1
      feet == f.feet + f.climb * (IF f.by25 = 1 THEN 25 ELSE 100)
  IN [f EXCEPT !.lat = Limit(@ + (f.dlat \div u)), !.lon = Wrap(@ + (f.dlon \div u)),
               !.feet = IF f.ground = 1 THEN @ ELSE IF f.by25 = 1 THEN Clamp(feet, -1000, 50175) ELSE Clamp(feet, -1100, 126700)]

\* One kind in a list is chosen, positions being the most frequent
AllKinds == <<"position", "position", "position", "position", "position", "position", "position", "position", "name", "velocity", "airspeed", "status", "status", "advisory",
              "emergency", "target", "call", "reply4", "reply5", "reply20", "reply21", "air0", "air16">>

Entry(i, kind, fate, frame) == [t |-> clock, i |-> i, kind |-> kind, fate |-> fate, frame |-> frame, truth |-> fleet[i]]

Transmit ==
  /\ fleet # <<>>
  /\ Len(log) < Steps
  /\ \E i \in {R(1..Len(fleet))}, k \in {R(1..Len(AllKinds))}, fate \in {R(1..20)}, dice \in {R(1..30)} :
       \E frame \in {FrameOf(fleet[i], AllKinds[k])} :
         /\ \/ fate \in {1, 2} /\ UNCHANGED log                                                                  \* lost
            \/ fate \in {3, 4} /\ \E bits \in {{R(6..8*Len(frame)) : b \in 1..5}} :                              \* damaged
                 log' = Append(log, Entry(i, AllKinds[k], "damaged", Damaged(frame, bits)))
            \/ fate = 5 /\ \E n \in {R(0..Len(frame)-1)} : log' = Append(log, Entry(i, AllKinds[k], "damaged", SubSeq(frame, 1, n)))
            \/ fate > 5 /\ log' = Append(log, Entry(i, AllKinds[k], "received", frame))
         /\ fleet' = TLCEval([j \in 1..Len(fleet) |->
              Flown(IF j = i THEN (IF AllKinds[k] = "position" THEN [Turned(fleet[j], dice) EXCEPT !.odd = 1 - @] ELSE Turned(fleet[j], dice)) ELSE fleet[j])])
  /\ clock' = clock + 1
  /\ UNCHANGED <<station, name>>

Write ==
  /\ Len(log) = Steps
  /\ ndJsonSerialize(IOEnv.HISTORIES \o "/" \o ToString(name) \o ".ndjson", <<[station |-> station]>> \o log)
  /\ log' = Append(log, <<>>)
  /\ UNCHANGED <<fleet, clock, station, name>>

Next == Begin \/ Transmit \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
