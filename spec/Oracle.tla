-------------------------------- MODULE Oracle --------------------------------
(* What the specification says of one call of the library. A record is <<operation, arguments..., result>>.        *)
(* Decode(r) is true when the result is one that the specification allows; Expected(r) is (one of) the result(s)   *)
(* expected.                                                                                                       *)
EXTENDS Adsb, CommB, Geo, Frame, Parity, Labels, Codes, Cli, TLC

\* A register read by its own reader
Read(n, m) ==
  CASE n = "bds00" -> Bds00(m) [] n = "bds05" -> Bds05(m) [] n = "bds06" -> Bds06(m) [] n = "bds07" -> Bds07(m)
    [] n = "bds08" -> Bds08(m) [] n = "bds09" -> Bds09(m) [] n = "bds09gn" -> Bds09Sub(m, 1) [] n = "bds09gs" -> Bds09Sub(m, 2)
    [] n = "bds09an" -> Bds09Sub(m, 3) [] n = "bds09as" -> Bds09Sub(m, 4) [] n = "bds10" -> Bds10(m) [] n = "bds17" -> Bds17(m)
    [] n = "bds20" -> Bds20(m) [] n = "bds30" -> Bds30(m) [] n = "bds40" -> Bds40(m) [] n = "bds44" -> Bds44(m)
    [] n = "bds44v0" -> Bds44v0(m) [] n = "bds44v1" -> Bds44v1(m) [] n = "bds44v2" -> Bds44v2(m) [] n = "bds45" -> Bds45(m)
    [] n = "bds45v0" -> Bds45v0(m) [] n = "bds45v1" -> Bds45v1(m) [] n = "bds50" -> Bds50(m) [] n = "bds60" -> Bds60(m)
    [] n = "bds61" -> Bds61(m) [] n = "bds61n" -> Bds61n(m) [] n = "bds61e" -> Bds61e(m) [] n = "bds61a" -> Bds61a(m)
    [] n = "bds62" -> Bds62(m) [] n = "bds62t0" -> Bds62t0(m) [] n = "bds62t1" -> Bds62t1(m) [] n = "bds65" -> Bds65(m)
    [] n = "bds65v0" -> Bds65v0(m) [] n = "bds65a1" -> Bds65a1(m) [] n = "bds65a2" -> Bds65a2(m) [] n = "bds65s1" -> Bds65s1(m)
    [] n = "bds65s2" -> Bds65s2(m)
    [] n = "ra" -> IF RaLegal(m) THEN <<"ResolutionAdvisory">> \o Ra(m) ELSE ERR

\* The registers have 7 octets, the advisory alone 6. Anything else is refused.
ReadAny(n, m) == IF Len(m) # (IF n = "ra" THEN 6 ELSE 7) THEN ERR ELSE Read(n, m)

Accept(c) == IF c = ERR THEN ERR ELSE <<"OK">>

\* What the parity says of a frame. The extended squitters are right or wrong and hold their address; the parity of
\* the others is overlaid with an address (or, DF11, with an interrogator identifier), that is accepted when it is in
\* the set of the known ones. An empty set accepts all of them.
Allowed(a, s) == s = <<>> \/ \E i \in 1..Len(s) : s[i] = a
Crc24(m, addresses, interrogators) ==
  IF ~Accepted(m) THEN ERR
  ELSE LET o == Overlay(m)
       IN CASE DF(m) \in {17, 18} -> IF o = 0 THEN <<"OK", AA(m)>> ELSE <<"REJ">>
            [] DF(m) = 11 -> IF Allowed(o, interrogators) THEN <<"OK", o>> ELSE <<"REJ">>
            [] OTHER -> IF Allowed(o, addresses) THEN <<"OK", o>> ELSE <<"REJ">>

\* The parity of octets that are not the ones of the frame (which begins with f, and is all zeros after it): too short for
\* the frame, they are refused; octets of the wrong length may be refused or not
CrcOther(f, m) ==
  LET size == IF f \div 8 < 16 THEN 7 ELSE 14
      frame == [i \in 1..size |-> IF i = 1 THEN f ELSE 0]
  IN IF ~Accepted(frame) THEN {ERR}
     ELSE IF Len(m) < (IF DF(frame) \in {17, 18} THEN 14 ELSE 7) THEN {<<"REJ">>}
     ELSE IF Len(m) # size THEN {<<"OK">>, <<"REJ">>}
     ELSE IF DF(frame) \in {17, 18} /\ Overlay(m) # 0 THEN {<<"REJ">>}
     ELSE {<<"OK">>}

\* The messages of 56 bits that hold ADS-B
HasAdsb(m) == DF(m) = 17 \/ (DF(m) = 18 /\ U(m, 6, 8) \in {0, 1})

\* What a receiver makes of one transmission: who it comes from, and, when it is accepted, what it tells. A sequence of
\* results. v, a, c: the version and the supplements with which the positions are read.
Telling(m, v, a, c, addresses, interrogators) ==
  LET s == Crc24(m, addresses, interrogators)
      d == Data(m)
  IN IF s[1] # "OK" THEN <<s>>
     ELSE <<s>> \o
       CASE HasAdsb(m) -> <<General(Adsb(v, d))>> \o (IF HasPosition(d) /\ Adsb(v, d) # ERR THEN <<Integrity(v, a, c, d)>> ELSE <<>>)
         [] DF(m) = 20 -> <<FrameAltitude(m), InferredContents(d)>>
         [] DF(m) = 21 -> <<FrameIdentity(m), InferredContents(d)>>
         [] DF(m) = 16 -> <<FrameAltitude(m)>> \o (IF d[1] = 48 THEN <<ReadAny("ra", Tail(d))>> ELSE <<>>)
         [] DF(m) \in {0, 4} -> <<FrameAltitude(m)>>
         [] DF(m) = 5 -> <<FrameIdentity(m)>>
         [] DF(m) = 11 -> <<<<"AA", AA(m)>>>>
         [] OTHER -> <<>>

Gs(m) ==
  LET c == Bds09(m)
  IN IF c = ERR THEN ERR
     ELSE IF ST(m) \in {3, 4} THEN <<"AIRSPEED">>
     ELSE <<"GS", Bool(c[8] = 1 /\ c[11] = 1), IF c[7] = 1 THEN -c[9] ELSE c[9], IF c[10] = 1 THEN -c[12] ELSE c[12]>>

GsOk(m, out) ==
  LET e == Gs(m)
  IN IF e[1] # "GS" THEN out = e
     ELSE /\ Len(out) = 3 /\ out[1] = "GS"
          /\ IF e[2] = 0 THEN out[2] = -1 /\ out[3] = -1
             ELSE SpeedOk(e[3], e[4], out[2]) /\ TrackOk(e[3], e[4], out[3])

\* The text of what is read: a frame, an ADS-B message, a register
TextExpected(r) ==
  LET Lines(c, t) == IF c = ERR THEN ERR ELSE <<"T">> \o t
  IN CASE r[2] = "frame" -> Lines(Class(r[3]), FrameText(r[3]))
       [] r[2] = "adsb" -> IF Len(r[6]) # 7 THEN ERR ELSE Lines(Adsb(r[3], r[6]), AdsbText(r[3], r[4], r[5], r[6]))
       [] OTHER -> Lines(ReadAny(r[2], r[3]), TextOf(ReadAny(r[2], r[3])))

\* One line of a text. The words of a refusal are free; the speed and the track of a velocity are numbers that are
\* compared with a tolerance. data: the message the velocity is read from.
LineOk(e, o, data) ==
  CASE e = Refused -> Len(o) = 3 /\ o[1] # "-- Mode-S Information --"
    [] e[1] = "Computed Speed" /\ e[2] = "(knots)" ->
         o[1] = e[1] /\ o[2] = e[2] /\ o[3] % 1000 = 0 /\ (LET g == Gs(data) IN SpeedOk(g[3], g[4], o[3] \div 1000))
    [] e[1] = "Computed Track" /\ e[2] = "(degrees)" ->
         o[1] = e[1] /\ o[2] = e[2] /\ (LET g == Gs(data) IN TrackOk(g[3], g[4], o[3]))
    [] OTHER -> o = e

LinesOk(e, out, data) == Len(out) = Len(e) /\ out[1] = e[1] /\ \A i \in 2..Len(e) : LineOk(e[i], out[i], data)

TextOk(r, out) == LinesOk(TextExpected(r), out, r[Len(r)])

\* What the program prints for a line
CliOk(level, s, out) ==
  LET m == OctetsOf(s)
      data == IF IsHex(s) /\ Accepted(m) /\ DF(m) \in {17, 18} THEN Data(m) ELSE <<>>
  IN LinesOk(<<"T">> \o LineText(level, s), out, data)

\* An advisory read, then deprived of some parts
ByHand(m, mask) ==
  LET missing == {<<"address", "altitude", "range", "bearing">>[i] : i \in {j \in 1..4 : (mask \div 2^(j-1)) % 2 = 1}}
      c == ReadAny("ra", m)
  IN IF c = ERR THEN ERR ELSE <<"T">> \o AdvisoryLines(Tail(c), missing)

Expected(r) ==
  LET op == r[1] IN
  CASE op = "class" -> Class(r[2])
    [] op = "hdr" -> Header(r[2])
    [] op = "raw" -> AsReceived(r[2])
    [] op = "alt" -> FrameAltitude(r[2])
    [] op = "idn" -> FrameIdentity(r[2])
    [] op = "crc" -> Crc24(r[2], r[3], r[4])
    [] op = "rcv" -> Telling(r[2], r[3], r[4], r[5], r[6], r[7])
    [] op = "reg" -> ReadAny(r[2], r[3])
    [] op = "get" -> (LET c == ReadAny(r[2], r[3]) IN IF c = ERR THEN ERR ELSE Accessors(c))
    [] op = "rlen" -> Accept(ReadAny(r[2], r[3]))
    [] op = "adsb" -> IF Len(r[5]) # 7 THEN ERR ELSE General(Adsb(r[2], r[5]))
    [] op = "adsbtype" -> IF Len(r[5]) # 7 THEN ERR ELSE AdsbVersion(r[2], r[5])
    [] op = "integ" -> Integrity(r[2], r[3], r[4], r[5])
    [] op = "adsblen" -> IF Len(r[3]) # 7 THEN ERR ELSE Accept(Adsb(r[2], r[3]))
    [] op = "commb" -> InferredRegisters(r[2])
    [] op = "commbv" -> InferredContents(r[2])
    [] op = "commblen" -> IF Len(r[2]) # 7 THEN ERR ELSE <<"OK">>
    [] op = "gs" -> Gs(r[2])
    [] op = "text" -> TextExpected(SubSeq(r, 1, Len(r)-1))
    [] op = "cli" -> <<"T">> \o LineText(r[2], r[3])
    [] op = "clirun" -> RunText(r[2])
    [] op = "code" -> <<CodeText(<<r[2], r[3]>>, r[4]), 0>>
    [] op = "bounds" -> Bounds(r[2], r[3])
    [] op = "register" -> RegisterText(r[2])
    [] op = "version" -> <<VersionText(r[2])>>
    [] op = "address" -> <<Address(r[2])>>
    [] op = "pack" -> Packed(r[2], r[3])
    [] op = "gillham" -> GillhamFeet(r[2])
    [] op = "crclen" -> CHOOSE a \in CrcOther(r[2], r[3]) : TRUE
    [] op = "wild" -> <<"RETURNS">>
    [] op = "byhand" -> ByHand(r[2], r[3])
    [] op = "parse" -> ParseFrame(r[2], r[3])
    [] op = "direct" -> ReadOne(r[2], r[3], r[4], r[5], r[6])
    [] OTHER -> <<op>>

Decode(r) ==
  LET op == r[1]
      out == r[Len(r)]
  IN CASE op = "gs" -> GsOk(r[2], out)
       [] op = "text" -> TextOk(SubSeq(r, 1, Len(r)-1), out)
       [] op = "crclen" -> out \in CrcOther(r[2], r[3])
       [] op = "cli" -> CliOk(r[2], r[3], out)
       [] op = "air" -> AirborneGlobalOk(r[2], r[3], r[4], r[5], r[6] = 1, out)
       [] op = "surf" -> SurfaceGlobalOk(r[2], r[3], r[4], r[5], r[6] = 1, r[7], r[8], out)
       [] op = "airl" -> LocalOk(r[2], r[3], r[4] = 1, r[5], r[6], FALSE, out)
       [] op = "surfl" -> LocalOk(r[2], r[3], r[4] = 1, r[5], r[6], TRUE, out)
       [] op = "dist" -> out[1] = "D" /\ Len(out) = 2 /\ DistanceOk(r[2], r[3], r[4], r[5], out[2])
       [] OTHER -> LET e == Expected(r) IN Len(out) = Len(e) /\ out = e
=============================================================================
