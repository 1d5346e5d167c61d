-------------------------------- MODULE Receiver --------------------------------
(* Aircraft, a channel that loses and damages transmissions, and a receiver that knows only what it has received.     *)
(* The receiver reads a frame, checks its parity, reads the message it holds, and decodes the positions: it is the      *)
(* composition of the functions of the library.                                                                      *)
EXTENDS Oracle, Encode

\* ---------------------------------------------------------------------------------------------------------------
\* What the receiver knows of an aircraft. Sequences are empty, and numbers -1, when nothing is known.

Unknown == -99999
Nothing == [name |-> "", category |-> <<>>, altitude |-> Unknown, velocity |-> <<>>, rate |-> Unknown, identity |-> "", emergency |-> -1,
            version |-> 0, nica |-> 0, nicc |-> 0, nacp |-> -1, containment |-> <<>>, advisory |-> <<>>, air |-> <<>>,
            target |-> <<>>, operation |-> <<>>, difference |-> Unknown, ground |-> -1, even |-> <<>>, odd |-> <<>>, position |-> <<>>, fixed |-> -1, registers |-> <<>>]

Recent == 10          \* even and odd reports that go together
Lasting == 30         \* a position that is good as a reference

\* The interrogators whose replies are listened to
Interrogators == <<1, 7, 33>>

\* Who sends a frame, as far as the receiver can tell: <<"OK", address>>, or why it is refused. known: the addresses known
Sender24(m, known) ==
  IF ~Accepted(m) THEN <<"ERR">>
  ELSE CASE DF(m) \in {17, 18} -> IF Overlay(m) = 0 THEN <<"OK", AA(m)>> ELSE <<"REJ">>
         [] DF(m) = 11 -> IF \E i \in 1..Len(Interrogators) : Interrogators[i] = Overlay(m) THEN <<"OK", AA(m)>> ELSE <<"REJ">>
         [] OTHER -> IF Overlay(m) \in known THEN <<"OK", Overlay(m)>> ELSE <<"REJ">>

\* The report in a position message: <<time, latitude code, longitude code, on the ground>>, and its format
IsPosition(c) == c[1] \in {"AirbornePosition", "SurfacePosition"}
ReportOf(c, t) ==
  IF c[1] = "AirbornePosition" THEN <<t, c[10], c[11], 0>> ELSE <<t, c[9], c[10], 1>>
FormatOf(c) == IF c[1] = "AirbornePosition" THEN c[9] ELSE c[8]

\* The reports of an aircraft after one more
WithReport(e, c, t) == IF FormatOf(c) = 1 THEN [e EXCEPT !.odd = ReportOf(c, t)] ELSE [e EXCEPT !.even = ReportOf(c, t)]
Paired(e, t) == e.even # <<>> /\ e.odd # <<>> /\ e.even[4] = e.odd[4] /\ t - e.even[1] <= Recent /\ t - e.odd[1] <= Recent

\* The position p (<<>> when there is none) decoded from the reports of e, the last one being of the given format. A pair
\* of reports is used when there is one, otherwise the last position is the reference. station: where the receiver is.
GlobalAllowed(e, odd, station, p) ==
  LET out == IF p = <<>> THEN <<"ERR">> ELSE <<"OK", p[1], p[2]>>
  IN IF e.even[4] = 1 THEN SurfaceGlobalOk(e.even[2], e.even[3], e.odd[2], e.odd[3], odd = 0, station[1], station[2], out)
     ELSE AirborneGlobalOk(e.even[2], e.even[3], e.odd[2], e.odd[3], odd = 0, out)
LocalAllowed(e, odd, ref, p) ==
  LET r == IF odd = 1 THEN e.odd ELSE e.even
  IN p # <<>> /\ LocalOk(r[2], r[3], odd = 1, ref[1], ref[2], r[4] = 1, <<"OK", p[1], p[2]>>)

\* e: before, with the new report. p is the new position, how: by which way it was found ("global", "local", "none")
PositionAllowed(e, odd, t, station, how, p) ==
  LET reference == e.position # <<>> /\ t - e.fixed <= Lasting
  IN CASE how = "global" -> Paired(e, t) /\ p # <<>> /\ GlobalAllowed(e, odd, station, p)
       [] how = "local" -> reference /\ (Paired(e, t) => GlobalAllowed(e, odd, station, <<>>)) /\ LocalAllowed(e, odd, e.position, p)
       [] how = "none" -> p = <<>> /\ ~reference /\ (Paired(e, t) => GlobalAllowed(e, odd, station, <<>>))
       [] OTHER -> FALSE

\* What a message changes, but for the position
Velocity2(m) == LET g == Gs(m) IN IF g[1] = "GS" /\ g[2] = 1 THEN <<g[3], g[4]>> ELSE <<>>
Contained(e, me) == Tail(Integrity(e.version, e.nica, e.nicc, me))
WithAdsb(e, me, t) ==
  LET c == IF Adsb(e.version, me) = ERR THEN ERR ELSE General(Adsb(e.version, me))
  IN CASE c = ERR -> e
       [] c[1] = "AirbornePosition" -> WithReport([e EXCEPT !.altitude = c[7], !.ground = 0, !.containment = Contained(e, me)], c, t)
       [] c[1] = "SurfacePosition" -> WithReport([e EXCEPT !.ground = 1, !.velocity = <<c[4], c[6]>>, !.containment = Contained(e, me)], c, t)
       [] c[1] = "AircraftIdentificationAndCategory" -> [e EXCEPT !.name = c[5], !.category = <<c[3], c[4]>>]
       [] c[1] \in {"AirborneVelocityGroundSpeedNormal", "AirborneVelocityGroundSpeedSupersonic"} ->
            [e EXCEPT !.velocity = Velocity2(me), !.rate = c[15], !.difference = c[17]]
       [] c[1] \in {"AirborneVelocityAirSpeedNormal", "AirborneVelocityAirSpeedSupersonic"} ->
            [e EXCEPT !.air = <<c[7], c[8], c[10]>>, !.rate = c[13], !.difference = c[15]]
       [] c[1] = "AircraftStatusACAS" -> [e EXCEPT !.advisory = SubSeq(c, 4, Len(c)-1)]
       [] c[1] = "AircraftStatusEmergency" -> [e EXCEPT !.emergency = c[4], !.identity = Identity13(ToBits(c[5], 13))]
       [] c[1] \in {"TargetStateAndStatus0", "TargetStateAndStatus1"} -> [e EXCEPT !.target = SubSeq(c, 3, Len(c)-1)]
       \* The supplements are those of the last status
       [] TC(me) = 31 -> [e EXCEPT !.version = OpVersion(me), !.nica = IF OpVersion(me) = 0 THEN 0 ELSE B(me, 44),
                                   !.nicc = IF c[1] = "AircraftOperationalStatusSurfaceADSB2" THEN c[8] ELSE 0,
                                   !.nacp = IF OpVersion(me) = 0 THEN -1 ELSE U(me, 45, 48),
                                   !.operation = SubSeq(c, 3, Len(c)-1)]
       [] OTHER -> e

WithFrame(e, m, t) ==
  LET a == FrameAltitude(m)
      e2 == IF DF(m) \in WithAltitude THEN (IF a[2] \in {3, 4} THEN [e EXCEPT !.altitude = a[3]] ELSE e)
            ELSE IF DF(m) \in WithIdentity THEN [e EXCEPT !.identity = FrameIdentity(m)[1]] ELSE e
  IN CASE HasAdsb(m) -> WithAdsb(e2, Data(m), t)
       [] DF(m) \in {20, 21} -> [e2 EXCEPT !.registers = Inference(Data(m))]
       \* The coordination of ACAS holds the advisory when it is the register 3,0
       [] DF(m) = 16 /\ Data(m)[1] = 48 /\ RaLegal(Tail(Data(m))) -> [e2 EXCEPT !.advisory = Ra(Tail(Data(m)))]
       [] OTHER -> e2

\* The message is a position
PositionOf(e, m) ==
  IF ~HasAdsb(m) THEN ERR
  ELSE LET c == Adsb(e.version, Data(m)) IN IF c = ERR THEN ERR ELSE IF IsPosition(General(c)) THEN General(c) ELSE ERR

\* ---------------------------------------------------------------------------------------------------------------
\* Aircraft

\* Coordinates reported
Codes(f) == EncodePosition(f.lat, f.lon, f.odd = 1, f.ground = 1)

Quality(f) == QualityOf(f.version, f.ground, f.quality)
RaBits(f) ==
  LET r == f.ra IN AdvisoryBits(r.ara, r.rac, r.ended, r.multiple, r.tti, ThreatBits(r.tti, r.threat, r.feet, r.range, r.bearing))

Message(f, kind) ==
  CASE kind = "position" ->
         IF f.ground = 1 THEN SurfaceME(Quality(f)[1], f.movement, f.track, 0, f.odd, Codes(f)[1], Codes(f)[2])
         ELSE AirborneME(Quality(f)[1], f.ss, IF f.version = 2 THEN Quality(f)[3] ELSE f.single, f.feet, f.by25 = 1, 0, f.odd, Codes(f)[1], Codes(f)[2])
    [] kind = "name" -> IdentME(f.set, f.category, f.name)
    [] kind = "velocity" -> VelocityME(f.supersonic = 1, f.ew, f.ns, f.source, f.rate, f.diff)
    [] kind = "airspeed" -> AirspeedME(f.supersonic = 1, f.magnetic, f.bearing, f.source, f.airspeed, IF f.supersonic = 1 THEN 4 ELSE 1, f.source, f.rate, f.diff)
    [] kind = "status" -> StatusME(f.version, f.ground = 1, Quality(f)[2], Quality(f)[4], f.nacp, f.sil, f.size, f.antenna, f.equipment)
    [] kind = "advisory" -> AdvisoryME(RaBits(f))
    [] kind = "emergency" -> EmergencyME(f.emergency, f.digits)
    [] kind = "target" -> 
         IF f.version < 2 THEN Target1ME(f.feet1, f.fms, f.heading1, f.nacp, f.nicb, f.sil, f.equipment, f.emergency)
         ELSE TargetME(f.selected, f.fms, f.pressure, f.headed, (f.direction % 512) - 256, f.nacp, f.nicb, f.sil, f.equipment)

RegisterMessage(f) ==
  CASE f.register = 20 -> Register20(f.name)
    [] f.register = 10 -> Register10(f.equipment, f.link[1], f.link[2], f.link[3], f.headed, f.link[4])
    [] f.register = 17 -> Register17(f.capabilities)
    [] f.register = 30 -> Register30(RaBits(f))
    [] f.register = 44 -> Register44(f.weather[1], f.weather[2], f.weather[3], f.weather[4], f.weather[5], f.weather[6])
    [] f.register = 45 -> Register45(f.hazards[1], f.hazards[2], f.hazards[3], f.hazards[4], f.weather[4])
    [] f.register = 40 -> Register40(f.mcp, f.baro)
    [] f.register = 50 -> Register50(f.roll, f.direction, f.gs, f.tas)
    [] f.register = 60 -> Register60(f.heading, f.ias, f.mach, f.inertial)

SquitterKinds == {"position", "name", "velocity", "airspeed", "status", "emergency", "target", "advisory"}

FrameOf(f, kind) ==
  LET altitude == AltitudeBits13(f.feet, f.by25 = 1)
  IN CASE kind \in SquitterKinds -> Squitter(f.df, IF f.df = 17 THEN 5 ELSE 0, f.address, Message(f, kind))
       [] kind = "call" -> AllCall(5, f.address, f.interrogator)
       [] kind = "reply4" -> ShortReply(4, f.fs, 0, 0, altitude, f.address)
       [] kind = "reply5" -> ShortReply(5, f.fs, 0, 0, IdentityBits(f.digits), f.address)
       [] kind = "reply20" -> LongReply(20, f.fs, 0, 0, altitude, RegisterMessage(f), f.address)
       [] kind = "reply21" -> LongReply(21, f.fs, 0, 0, IdentityBits(f.digits), RegisterMessage(f), f.address)
       [] kind = "air0" -> AirAir(f.ground, 3, 2, altitude, f.address)
       [] kind = "air16" -> LongAirAir(f.ground, 3, 2, altitude, Register30(RaBits(f)), f.address)

\* The damages: the bits of the set are changed
RECURSIVE Damaged(_, _)
Damaged(m, bits) ==
  IF bits = {} THEN m
  ELSE LET b == CHOOSE b \in bits : TRUE
           o == ((b-1) \div 8) + 1
           w == Pow2[7 - ((b-1) % 8)]
       IN Damaged([m EXCEPT ![o] = IF (@ \div w) % 2 = 1 THEN @ - w ELSE @ + w], bits \ {b})

\* ---------------------------------------------------------------------------------------------------------------
\* What the receiver knows is what the aircraft told: f as it was when it transmitted a message of this kind that was
\* received undamaged, e what is known afterwards

LatResolution(ground) == IF ground = 1 THEN 9 ELSE 27
LonResolution(f) ==
  LET nl == NLat(Min2(90*Deg, Abs(f.lat) + 30))
  IN ((IF f.ground = 1 THEN 90 ELSE 360) * 1000000) \div (262144 * Zones(nl, f.odd = 0)) + 7

\* The advisory, as it is told
AdvisoryTold(r) ==
  (CASE r.ara[1] = 1 -> <<"ActiveRAOneThreatOrSameSeparation", 0>> \o Tail(r.ara)
     [] r.ara[1] = 0 /\ r.multiple = 1 -> <<"ActiveRAMultipleThreatsDifferentSeparation", 1>> \o Tail(r.ara)
     [] OTHER -> <<"ActiveRANoVerticalRAGenerated", 2>>)
  \o r.rac \o <<r.ended, r.multiple, r.tti>>
  \o (CASE r.tti = 1 -> <<r.threat, NONE, NONE, NONE, NONE, NONE, NONE>>
        [] r.tti = 2 -> <<NONE, 1, r.feet, r.range, CASE r.range = 0 -> 0 [] r.range = 127 -> 12600 [] OTHER -> 100*(r.range-1),
                          r.bearing, CASE r.bearing = 0 -> 0 [] r.bearing > 60 -> 363 [] OTHER -> 6*r.bearing - 3>>
        [] OTHER -> <<NONE, NONE, NONE, NONE, NONE, NONE, NONE>>)

\* The target and the operational status, as they are told
TargetTold(f) ==
  LET q == f.equipment
  IN IF f.version < 2
     THEN <<0, 2*q[1] + q[2], f.fms, 2*q[3] + q[4], 2*q[5] + q[6], 1, f.feet1, 2*q[7] + q[8], 1, f.heading1, q[9], 2*q[10] + q[11],
            f.nacp, f.nicb, f.sil, 2*q[12] + q[13], f.emergency>>
     ELSE <<1, q[1], f.fms, 1, 32*f.selected, IF f.pressure = 0 THEN 0 ELSE 1, IF f.pressure = 0 THEN 0 ELSE 799200 + 800*f.pressure,
            f.headed, Rnd(((f.direction % 512) - 256)*45000, 64), f.nacp, f.nicb, f.sil>> \o SubSeq(q, 2, 8)
OperationTold(f) ==
  LET q == f.equipment
      a == Quality(f)[2]
  IN CASE f.version = 0 -> <<0>> \o [k \in 1..8 |-> 8*q[4*k-3] + 4*q[4*k-2] + 2*q[4*k-1] + q[4*k]]
       [] f.version = 1 /\ f.ground = 0 -> <<0, q[1], q[2], q[3], q[4], 2*q[5] + q[6], q[7], q[8], q[9], 1, a, f.nacp, f.sil, q[10], q[11]>>
       [] f.version = 1 /\ f.ground = 1 -> <<1, q[1], q[2], q[3], f.size, q[7], q[8], q[9], 1, a, f.nacp, f.sil, q[10], q[11]>>
       [] f.version = 2 /\ f.ground = 0 -> <<0, q[1], q[2], q[3], q[4], 2*q[5] + q[6], q[7], q[8], q[9], q[10], 2*q[12] + q[13], 2, a, f.nacp,
                                             2*q[14] + q[15], f.sil, q[11], q[16], q[17]>>
       [] f.version = 2 /\ f.ground = 1 -> <<1, q[2], q[3], q[4], 4*q[5] + 2*q[6] + q[7], Quality(f)[4], f.size, q[8], q[9], q[10], 2*q[12] + q[13],
                                             f.antenna[1], f.antenna[2], 2, a, f.nacp, f.sil, q[11], q[16], q[17]>>

\* The receiver reads the positions with the version and the supplements of the aircraft
UpToDate(f, e) == e.version = f.version /\ e.nica = Quality(f)[2] /\ (f.ground = 1 => e.nicc = Quality(f)[4])

Truthful(f, kind, e) ==
  /\ CASE kind = "position" ->
            /\ e.ground = f.ground
            /\ f.version > 0 /\ UpToDate(f, e) => e.containment[Len(e.containment)] = Quality(f)[5]
            /\ IF f.ground = 0 THEN e.altitude = f.feet
               ELSE e.velocity = <<Movement(f.movement), Rnd(f.track*45000, 16)>>
       [] kind = "name" -> e.name = NameText(f.name) /\ e.category = <<CategorySet(f.set), f.category>>
       [] kind = "velocity" -> e.velocity = <<f.ew, f.ns>> /\ e.rate = 64*f.rate /\ e.difference = 25*f.diff
       [] kind = "airspeed" -> e.air = <<f.magnetic, Rnd(f.bearing*45000, 128), f.airspeed>> /\ e.rate = 64*f.rate /\ e.difference = 25*f.diff
       [] kind = "status" -> UpToDate(f, e) /\ (f.version > 0 => e.nacp = f.nacp) /\ e.operation = OperationTold(f)
       [] kind = "advisory" -> e.advisory = AdvisoryTold(f.ra)
       [] kind = "emergency" -> e.emergency = f.emergency /\ e.identity = Digits(f.digits)
       [] kind = "target" -> e.target = TargetTold(f)
       [] kind = "air16" -> e.altitude = f.feet /\ e.advisory = AdvisoryTold(f.ra)
       [] kind \in {"reply4", "reply20", "air0"} -> e.altitude = f.feet
       [] kind \in {"reply5", "reply21"} -> e.identity = Digits(f.digits)
       [] OTHER -> TRUE
  /\ kind \in {"reply20", "reply21"} =>
       \E i \in 1..Len(e.registers) :
         LET r == e.registers[i]
         IN CASE f.register = 20 -> r[1] = "AircraftIdentification" /\ r[2] = NameText(f.name)
              [] f.register = 10 -> LET q == f.equipment
                                    IN r[1] = "DataLinkCapabilityReport" /\ SubSeq(r, 2, 16) =
                                         <<q[1], q[2], f.headed, f.link[1], q[3], q[4], f.link[2], f.link[3], q[5], q[6], q[7], q[8]>>
                                         \o (IF f.headed = 1 THEN <<q[9], q[10], 2*q[11]>> ELSE <<0, 0, 0>>)
                                       /\ r[17] = f.link[4]
              [] f.register = 17 -> r[1] = "CommonUsageGICBCapabilityReport" /\ SubSeq(r, 2, 25) = f.capabilities
              [] f.register = 30 -> r[1] = "ACASResolutionAdvisory" /\ SubSeq(r, 2, Len(r)-1) = AdvisoryTold(f.ra)
              [] f.register = 44 -> r[1] = "MeteorologicalRoutineAirReportV2" /\ r[2] = f.weather[1] /\ r[4] = f.weather[2]
                                    /\ r[6] = Rnd(f.weather[3]*45000, 32) /\ r[8] = 125*f.weather[4] /\ r[10] = f.weather[5] /\ r[13] = 1000*f.weather[6]
              [] f.register = 45 -> r[1] = "MeteorologicalHazardReportV1" /\ <<r[3], r[5], r[7], r[9], r[11]>> = f.hazards \o <<125*f.weather[4]>>
              [] f.register = 40 -> r[1] = "SelectedVerticalIntention" /\ r[3] = 16*f.mcp /\ r[7] = 800000 + 100*f.baro
              [] f.register = 50 -> r[1] = "TrackAndTurnReport" /\ r[3] = Rnd(f.roll*5625, 32) /\ r[5] = Rnd(f.direction*5625, 32)
                                    /\ r[7] = 2*f.gs /\ r[11] = 2*f.tas
              [] f.register = 60 -> r[1] = "HeadingAndTrackReport" /\ r[3] = Rnd(f.heading*5625, 32) /\ r[5] = f.ias /\ r[7] = 4*f.mach
                                    /\ r[9] = 32*f.inertial

\* A position that has just been decoded is the one of the aircraft
Located(f, p) == Abs(p[1] - f.lat) <= LatResolution(f.ground) /\ LonDistance(p[2], f.lon) <= LonResolution(f)
=============================================================================
