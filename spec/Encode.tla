--------------------------------- MODULE Encode ---------------------------------
(* What a transponder transmits: the inverse of the reading. The encodings are written from the tables of the         *)
(* standards field after field, as sequences of bits, independently of the definitions that decode them.               *)
EXTENDS Altitude, Cpr, Parity, TLC

\* ---------------------------------------------------------------------------------------------------------------
\* Codes

\* C1 A1 C2 A2 C4 A4 . B1 Q B2 D2 B4 D4, without the bit M
AltitudeBits(feet, by25) ==
  IF by25
  THEN LET b == ToBits((feet + 1000) \div 25, 11)
       IN SubSeq(b, 1, 7) \o <<1>> \o SubSeq(b, 8, 11)
  ELSE LET p == GillhamOf(feet)           \* D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4
       IN <<p[9], p[3], p[10], p[4], p[11], p[5], p[6], 0, p[7], p[1], p[8], p[2]>>
AltitudeBits13(feet, by25) == LET b == AltitudeBits(feet, by25) IN SubSeq(b, 1, 6) \o <<0>> \o SubSeq(b, 7, 12)

\* The four digits ABCD of the identity: C1 A1 C2 A2 C4 A4 0 B1 D1 B2 D2 B4 D4
IdentityBits(d) ==
  LET W(x, w) == (x \div w) % 2
  IN <<W(d[3],1), W(d[1],1), W(d[3],2), W(d[1],2), W(d[3],4), W(d[1],4), 0,
       W(d[2],1), W(d[4],1), W(d[2],2), W(d[4],2), W(d[2],4), W(d[4],4)>>
Digits(d) == ToString(d[1]) \o ToString(d[2]) \o ToString(d[3]) \o ToString(d[4])

\* Characters: 0 is the space, 1..26 the letters, 27..36 the digits
Letters == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Char(c) == IF c = 0 THEN " " ELSE IF c <= 26 THEN Letters[c] ELSE ToString(c - 27)
CharBits(c) == ToBits(IF c = 0 THEN 32 ELSE IF c <= 26 THEN c ELSE c - 27 + 48, 6)
NameText(n) == Char(n[1]) \o Char(n[2]) \o Char(n[3]) \o Char(n[4]) \o Char(n[5]) \o Char(n[6]) \o Char(n[7]) \o Char(n[8])
NameBits(n) == CharBits(n[1]) \o CharBits(n[2]) \o CharBits(n[3]) \o CharBits(n[4]) \o CharBits(n[5]) \o CharBits(n[6]) \o CharBits(n[7]) \o CharBits(n[8])

Zeros(n) == [i \in 1..n |-> 0]
Signed2(v, n) == ToBits(IF v < 0 THEN v + Pow2[n] ELSE v, n)
\* A sign, then a magnitude
SignBit(v) == IF v < 0 THEN <<1>> ELSE <<0>>

\* ---------------------------------------------------------------------------------------------------------------
\* Messages of 56 bits

AirborneME(tc, ss, nicb, feet, by25, t, odd, y, x) ==
  Octets(ToBits(tc, 5) \o ToBits(ss, 2) \o <<nicb>> \o AltitudeBits(feet, by25) \o <<t, odd>> \o ToBits(y, 17) \o ToBits(x, 17))
SurfaceME(tc, movement, track, t, odd, y, x) ==
  Octets(ToBits(tc, 5) \o ToBits(movement, 7) \o <<1>> \o ToBits(track, 7) \o <<t, odd>> \o ToBits(y, 17) \o ToBits(x, 17))
IdentME(tc, category, name) == Octets(ToBits(tc, 5) \o ToBits(category, 3) \o NameBits(name))
\* Ground velocity, knots; the supersonic one counts by 4. Vertical rate: units of 64 ft/min
Component(v, unit) == SignBit(v) \o ToBits(Abs(v) \div unit + 1, 10)
\* The difference with the height: units of 25 ft
VelocityME(supersonic, ew, ns, source, vr, diff) ==
  Octets(ToBits(19, 5) \o ToBits(IF supersonic THEN 2 ELSE 1, 3) \o <<0, 0, 0, 0, 1>>
         \o Component(ew, IF supersonic THEN 4 ELSE 1) \o Component(ns, IF supersonic THEN 4 ELSE 1)
         \o <<source>> \o SignBit(vr) \o ToBits(Abs(vr) + 1, 9) \o <<0, 0>> \o SignBit(diff) \o ToBits(Abs(diff) + 1, 7))
\* Magnetic heading by 360/1024 degrees, airspeed by 1 or 4 knots
AirspeedME(supersonic, known, heading, true, speed, unit, source, vr, diff) ==
  Octets(ToBits(19, 5) \o ToBits(IF supersonic THEN 4 ELSE 3, 3) \o <<0, 0, 0, 0, 1>> \o <<known>> \o ToBits(heading, 10)
         \o <<true>> \o ToBits(speed \div unit + 1, 10) \o <<source>> \o SignBit(vr) \o ToBits(Abs(vr) + 1, 9) \o <<0, 0>> \o SignBit(diff) \o ToBits(Abs(diff) + 1, 7))
\* Operational status. a, c: the NIC supplements (C is only given on the ground, by the version 2), size: the length and
\* the width of the aircraft, antenna: <<its lateral, its longitudinal offset>>, q: the 32 bits of what it is equipped with and does
StatusME(version, ground, a, c, nacp, sil, size, antenna, q) ==
  LET Begun(st) == ToBits(31, 5) \o ToBits(st, 3) \o <<0, 0>>
      Ended(x) == ToBits(version, 3) \o <<a>> \o ToBits(nacp, 4) \o x \o ToBits(sil, 2)
  IN CASE version = 0 -> Octets(ToBits(31, 5) \o Zeros(3) \o q \o Zeros(16))
       [] version = 1 /\ ~ground ->
            Octets(Begun(0) \o <<q[1], q[2], 0, 0, q[3], q[4], q[5], q[6]>> \o Zeros(8) \o <<q[7], q[8], q[9]>> \o Zeros(11)
                   \o Ended(<<0, 0>>) \o <<q[10], q[11], 0, 0>>)
       [] version = 1 /\ ground ->
            Octets(Begun(1) \o <<q[1], q[2], 0, 0, q[3], 0, 0, 0, 0, 0>> \o ToBits(size, 4) \o <<0, 0>> \o <<q[7], q[8], q[9]>> \o Zeros(11)
                   \o Ended(<<0, 0>>) \o <<q[10], q[11], 0, 0>>)
       [] version = 2 /\ ~ground ->
            Octets(Begun(0) \o <<q[1], q[2], 0, 0, q[3], q[4], q[5], q[6], q[7]>> \o Zeros(7) \o <<q[8], q[9], 0, q[10], q[12], q[13]>> \o Zeros(8)
                   \o Ended(<<q[14], q[15]>>) \o <<q[11], q[16], q[17], 0>>)
       [] version = 2 /\ ground ->
            Octets(Begun(1) \o <<0, q[2], 0, 0, q[3], q[4], q[5], q[6], q[7], c>> \o ToBits(size, 4) \o <<0, 0>> \o <<q[8], q[9], 0, q[10], q[12], q[13]>>
                   \o ToBits(antenna[1], 3) \o ToBits(antenna[2], 5) \o Ended(<<0, 0>>) \o <<q[11], q[16], q[17], 0>>)

\* How the integrity of a position is announced, for each containment radius: <<type code, supplement A, B, C, category>>
\* (from 1 to the number of radii)
AirborneQuality(version) ==
  CASE version = 0 -> [n \in 1..13 |-> IF n <= 10 THEN <<8+n, 0, 0, 0, -1>> ELSE <<9+n, 0, 0, 0, -1>>]
    [] version = 1 ->
         <<<<9, 0, 0, 0, 11>>, <<10, 0, 0, 0, 10>>, <<11, 1, 0, 0, 9>>, <<11, 0, 0, 0, 8>>, <<12, 0, 0, 0, 7>>, <<13, 0, 0, 0, 6>>, <<13, 1, 0, 0, 6>>,
           <<14, 0, 0, 0, 5>>, <<15, 0, 0, 0, 4>>, <<16, 1, 0, 0, 3>>, <<16, 0, 0, 0, 2>>, <<17, 0, 0, 0, 1>>, <<18, 0, 0, 0, 0>>,
           <<20, 0, 0, 0, 11>>, <<21, 0, 0, 0, 10>>, <<22, 0, 0, 0, 0>>>>
    [] version = 2 ->
         <<<<9, 0, 0, 0, 11>>, <<10, 0, 0, 0, 10>>, <<11, 1, 1, 0, 9>>, <<11, 0, 0, 0, 8>>, <<12, 0, 0, 0, 7>>, <<13, 0, 1, 0, 6>>, <<13, 0, 0, 0, 6>>,
           <<13, 1, 1, 0, 6>>, <<14, 0, 0, 0, 5>>, <<15, 0, 0, 0, 4>>, <<16, 1, 1, 0, 3>>, <<16, 0, 0, 0, 2>>, <<17, 0, 0, 0, 1>>, <<18, 0, 0, 0, 0>>,
           <<20, 0, 0, 0, 11>>, <<21, 0, 0, 0, 10>>, <<22, 0, 0, 0, 0>>>>
SurfaceQuality(version) ==
  CASE version = 0 -> [n \in 1..4 |-> <<4+n, 0, 0, 0, -1>>]
    [] version = 1 -> <<<<5, 0, 0, 0, 11>>, <<6, 0, 0, 0, 10>>, <<7, 1, 0, 0, 9>>, <<7, 0, 0, 0, 8>>, <<8, 0, 0, 0, 0>>>>
    [] version = 2 -> <<<<5, 0, 0, 0, 11>>, <<6, 0, 0, 0, 10>>, <<7, 1, 0, 0, 9>>, <<7, 0, 0, 0, 8>>, <<8, 1, 0, 1, 7>>, <<8, 1, 0, 0, 6>>, <<8, 0, 0, 1, 6>>,
                        <<8, 0, 0, 0, 0>>>>
\* The n-th one, counting again from the first after the last
QualityOf(version, ground, n) ==
  LET q == IF ground = 1 THEN SurfaceQuality(version) ELSE AirborneQuality(version) IN q[(n % Len(q)) + 1]

\* A resolution advisory, 48 bits: the seven bits of the advisory, the four complements, its end, multiple threats, the
\* kind of identity and the identity of the threat
AdvisoryBits(ara, rac, ended, multiple, tti, tid) == ara \o Zeros(7) \o rac \o <<ended, multiple>> \o ToBits(tti, 2) \o tid
\* 26 bits: nothing, an address, or an altitude, a range and a bearing
ThreatBits(tti, address, feet, range, bearing) ==
  CASE tti = 1 -> ToBits(address \div 4096, 12) \o ToBits(address % 4096, 12) \o <<0, 0>>
    [] tti = 2 -> LET b == AltitudeBits(feet, FALSE) IN SubSeq(b, 1, 6) \o <<0, b[7], 0>> \o SubSeq(b, 9, 12) \o ToBits(range, 7) \o ToBits(bearing, 6)
    [] OTHER -> Zeros(26)
AdvisoryME(ra) == Octets(ToBits(28, 5) \o ToBits(2, 3) \o ra)
Register30(ra) == Octets(ToBits(48, 8) \o ra)
EmergencyME(state, digits) == Octets(ToBits(28, 5) \o ToBits(1, 3) \o ToBits(state, 3) \o IdentityBits(digits) \o Zeros(32))
\* The target: altitude by 32 ft, pressure by 0.8 hPa from 800 (0: not told), heading by 180/256 degrees, from -180; the modes
TargetME(selected, fms, pressure, headed, heading, nacp, nicb, sil, q) ==
  Octets(ToBits(29, 5) \o ToBits(1, 2) \o <<q[1], fms>> \o ToBits(selected + 1, 11) \o ToBits(pressure, 9) \o <<headed>> \o Signed2(heading, 9)
         \o ToBits(nacp, 4) \o <<nicb>> \o ToBits(sil, 2) \o <<q[2], q[3], q[4], q[5], 0, q[6], q[7], q[8], 0, 0>>)
\* As it was before: altitude by 100 ft from -1000, heading by degrees
Target1ME(feet, fms, heading, nacp, nicb, sil, q, emergency) ==
  Octets(ToBits(29, 5) \o ToBits(0, 2) \o <<q[1], q[2], fms, 0, q[3], q[4], q[5], q[6]>> \o ToBits((feet + 1000) \div 100, 10) \o <<q[7], q[8]>> \o ToBits(heading, 9)
         \o <<q[9], q[10], q[11]>> \o ToBits(nacp, 4) \o <<nicb>> \o ToBits(sil, 2) \o Zeros(5) \o <<q[12], q[13]>> \o ToBits(emergency, 3))

\* Registers: selected altitude by 16 ft; roll by 45/256 degrees, track by 90/512 degrees; ...
Register20(name) == Octets(ToBits(32, 8) \o NameBits(name))
Register40(selected, baro) == Octets(<<1>> \o ToBits(selected, 12) \o Zeros(13) \o <<1>> \o ToBits(baro, 12) \o Zeros(17))
Register50(roll, track, gs, tas) ==
  Octets(<<1>> \o Signed2(roll, 10) \o <<1>> \o Signed2(track, 11) \o <<1>> \o ToBits(gs, 10) \o Zeros(11) \o <<1>> \o ToBits(tas, 10))
Register60(heading, ias, mach, rate) ==
  Octets(<<1>> \o Signed2(heading, 11) \o <<1>> \o ToBits(ias, 10) \o <<1>> \o ToBits(mach, 10) \o <<1>> \o Signed2(rate, 10) \o Zeros(11))
\* Capabilities: 24 registers, then 5 bits more
\* Data link capabilities: version of the subnetwork, uplink and downlink rates, version of the ACAS, what terminals are served
Register10(q, subnetwork, up, down, acas, served) ==
  Octets(ToBits(16, 8) \o <<q[1], 0, 0, 0, 0, 0, q[2], acas>> \o ToBits(subnetwork, 7) \o <<q[3], q[4]>> \o ToBits(up, 3) \o ToBits(down, 4)
         \o <<q[5], q[6], q[7], q[8]>> \o (IF acas = 1 THEN <<q[9], q[10], q[11], 0>> ELSE Zeros(4)) \o ToBits(served, 16))
Register17(registers) == Octets(registers \o Zeros(32))
\* Wind by knots and 180/256 degrees, temperature by eighths of degrees, pressure by hPa, humidity
Register44(source, wind, direction, temperature, pressure, humidity) ==
  Octets(ToBits(source, 4) \o <<1>> \o ToBits(wind, 9) \o <<1>> \o ToBits(direction, 8) \o <<1>> \o Signed2(temperature, 11) \o <<1>> \o ToBits(pressure, 11)
         \o <<0, 1>> \o ToBits(humidity, 7))
\* Hazards from 0 (nil) to 3 (severe)
Register45(shear, burst, ice, wake, temperature) ==
  Octets(<<1>> \o ToBits(shear, 2) \o <<1>> \o ToBits(burst, 2) \o <<1>> \o ToBits(ice, 2) \o <<1>> \o ToBits(wake, 2) \o <<1>> \o Signed2(temperature, 11) \o Zeros(32))

\* ---------------------------------------------------------------------------------------------------------------
\* Frames

AddressBits(a) == ToBits(a \div 4096, 12) \o ToBits(a % 4096, 12)
Squitter(df, first, a, me) == Frame(Octets(ToBits(df, 5) \o ToBits(first, 3) \o AddressBits(a)) \o me, 0)
AllCall(ca, a, interrogator) == Frame(Octets(ToBits(11, 5) \o ToBits(ca, 3) \o AddressBits(a)), interrogator)
\* Replies: fs, dr, um
ShortReply(df, fs, dr, um, code, a) == Frame(Octets(ToBits(df, 5) \o ToBits(fs, 3) \o ToBits(dr, 5) \o ToBits(um, 6) \o code), a)
LongReply(df, fs, dr, um, code, mb, a) == Frame(Octets(ToBits(df, 5) \o ToBits(fs, 3) \o ToBits(dr, 5) \o ToBits(um, 6) \o code) \o mb, a)
\* Air to air
AirAir(vs, sl, ri, code, a) == Frame(Octets(ToBits(0, 5) \o <<vs, 0, 0>> \o ToBits(sl, 3) \o <<0, 0>> \o ToBits(ri, 4) \o <<0, 0>> \o code), a)
LongAirAir(vs, sl, ri, code, mv, a) == Frame(Octets(ToBits(16, 5) \o <<vs, 0, 0>> \o ToBits(sl, 3) \o <<0, 0>> \o ToBits(ri, 4) \o <<0, 0>> \o code) \o mv, a)
=============================================================================
