---------------------------------- MODULE Cpr ----------------------------------
(* Compact position reporting (ICAO Doc 9871, C.2.6; DO-260B appendix A.1.7), in exact integer arithmetic.          *)
(* Positions are in micro degrees (1e-6 degree), rounded down; encoded coordinates are 17 bits numbers.            *)
EXTENDS Bits, FiniteSets, CprIndex

\* floor of 360 (or 90 if surface) degrees * x / (2^17 * zones): the coordinate x/2^17 in a circle cut in zones
Coordinate(x, surface, zones) ==
  LET d == (IF surface THEN 1024 ELSE 256) * zones
  IN IF x >= 0 THEN MulDiv(x, 703125, d)
     ELSE \* floor for negative numbers: add whole circles
          MulDiv(x + 2*zones*Quantum, 703125, d) - 2*(IF surface THEN 90*Deg ELSE 360*Deg)

\* ---------------------------------------------------------------------------------------------------------------
\* Number of longitude zones: 59 at the equator, one less at each transition latitude, 1 above 87 degrees

Transitions == <<10470471, 14828174, 18186264, 21029395, 23545045, 25829247, 27938987, 29911357, 31772097, 33539934, 35228996, 36850251, 38412419, 39922567, 41386518, 42809140, 44194550, 45546267, 46867333, 48160391, 49427764, 50671502, 51893425, 53095162, 54278175, 55443784, 56593188, 57727474, 58847638, 59954593, 61049178, 62132167, 63204275, 64266165, 65318453, 66361710, 67396468, 68423220, 69442426, 70454511, 71459865, 72458845, 73451774, 74438934, 75420563, 76396844, 77367895, 78333741, 79294282, 80249232, 81198013, 82139570, 83071994, 83991736, 84891662, 85755416, 86535370, 87000000>>

RECURSIVE CountBelow(_, _, _)
CountBelow(a, lo, hi) ==        \* the number of transitions < a, known to be in lo..hi
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF Transitions[mid] < a THEN CountBelow(a, mid, hi) ELSE CountBelow(a, lo, mid-1)

NLat(a) == 59 - CountBelow(a, 0, 58)       \* a: absolute latitude
NL(lat) == NLat(Abs(lat))

\* The transitions are irrational, except the last: within 2e-6 degree the two numbers are accepted
NLs(lat) ==
  LET a == Abs(lat)
      n == NLat(a)
  IN IF a > 86999900 THEN {n}
     ELSE {n} \union (IF NLat(a+3) # n THEN {n-1} ELSE {}) \union (IF a >= 3 /\ NLat(a-3) # n THEN {n+1} ELSE {})

\* ---------------------------------------------------------------------------------------------------------------
\* Comparison of positions

Near(a, b) == Abs(a - b) <= 2
Turn == 360*Deg
SameLongitude(a, b) == Near(a, b) \/ Near(a, b + Turn) \/ Near(a + Turn, b)
\* Difference of longitudes, in -180..180
RECURSIVE Wrap(_)
Wrap(x) == IF x > 180*Deg THEN Wrap(x - Turn) ELSE IF x < -180*Deg THEN Wrap(x + Turn) ELSE x
LonDistance(a, b) == Abs(Wrap(Wrap(a) - Wrap(b)))

\* ---------------------------------------------------------------------------------------------------------------
\* Global decoding: two reports, one even, one odd.

\* Latitude index
J(ye, yo) == ZoneIndex(ye, yo, 60)
\* Longitude index
LonIndex(xe, xo, nl) == ZoneIndex(xe, xo, nl)

LatEven(ye, yo, surface) == Coordinate((J(ye, yo) % 60)*Quantum + ye, surface, 60)
LatOdd(ye, yo, surface) == Coordinate((J(ye, yo) % 59)*Quantum + yo, surface, 59)

\* The longitude of the last report, in 0..360 degrees (0..90 on the surface)
Zones(nl, even) == Max2(IF even THEN nl ELSE nl - 1, 1)
Lon(xe, xo, nl, even, surface) ==
  LET ni == Zones(nl, even)
  IN Coordinate((LonIndex(xe, xo, nl) % ni)*Quantum + (IF even THEN xe ELSE xo), surface, ni)

\* Airborne: the southern hemisphere is coded as latitudes of 270 to 360 degrees; the others are in no hemisphere
South(lat) == IF lat >= 270*Deg THEN lat - Turn ELSE lat

AirborneGlobalOk(ye, xe, yo, xo, even, out) ==
  LET le == South(LatEven(ye, yo, FALSE))
      lo == South(LatOdd(ye, yo, FALSE))
      lat == IF even THEN le ELSE lo
      pole == Abs(Abs(lat) - 90*Deg) <= 2 \/ Abs(lat - 270*Deg) <= 2
      common == NLs(le) \intersect NLs(lo)
      different == Cardinality(NLs(le) \union NLs(lo)) > 1
  IN IF Len(out) = 3
     THEN /\ out[1] = "OK"
          /\ -90*Deg <= out[2] /\ out[2] <= 90*Deg
          /\ -180*Deg <= out[3] /\ out[3] <= 180*Deg
          /\ Near(out[2], lat) \/ (pole /\ Near(out[2], South(270*Deg)))
          /\ \E nl \in common : SameLongitude(out[3], Wrap(Lon(xe, xo, nl, even, FALSE)))
     ELSE out = <<"ERR">> /\ (different \/ lat > 90*Deg \/ lat < -90*Deg \/ pole)

\* Surface: the position is one of eight, the nearest to the reference. Per report the latitude is the nearest one;
\* then the longitude.
SurfaceLats(lat, ref) ==
  LET dn == Abs(ref - lat)
      ds == Abs(ref - (lat - 90*Deg))
  IN IF Abs(dn - ds) <= 3 THEN {lat, lat - 90*Deg} ELSE IF ds < dn THEN {lat - 90*Deg} ELSE {lat}

SurfaceGlobalOk(ye, xe, yo, xo, even, rlat, rlon, out) ==
  LET les == SurfaceLats(LatEven(ye, yo, TRUE), rlat)
      los == SurfaceLats(LatOdd(ye, yo, TRUE), rlat)
      \* a choice: the latitudes and the number of zones
      Agree(le, lo) == NLs(le) \intersect NLs(lo)
      LonOk(nl) ==
        LET q == Lon(xe, xo, nl, even, TRUE)
            cand == {q, q + 90*Deg, q + 180*Deg, q + 270*Deg}
            best == CHOOSE d \in {LonDistance(c, rlon) : c \in cand} : \A c \in cand : d <= LonDistance(c, rlon)
        IN \E c \in cand : LonDistance(c, rlon) <= best + 3 /\ SameLongitude(Wrap(out[3]), Wrap(c))
  IN IF Len(out) = 3
     THEN /\ out[1] = "OK"
          /\ -90*Deg <= out[2] /\ out[2] <= 90*Deg
          /\ -180*Deg <= out[3] /\ out[3] <= 180*Deg
          /\ \E le \in les, lo \in los :
               /\ Near(out[2], IF even THEN le ELSE lo)
               /\ \E nl \in Agree(le, lo) : LonOk(nl)
     ELSE out = <<"ERR">> /\ \E le \in les, lo \in los : Cardinality(NLs(le) \union NLs(lo)) > 1

\* ---------------------------------------------------------------------------------------------------------------
\* Local decoding: one report and a reference. The coordinate is the one nearest to the reference among those that
\* have the same code.

\* The coordinates around ref of the code y, in a circle cut in zones
Around(ref, y, surface, zones) ==
  LET width == Coordinate(Quantum, surface, zones)
      k == (ref - Coordinate(y, surface, zones)) \div width
      all == {Coordinate((k+i)*Quantum + y, surface, zones) : i \in -2..2}
      best == CHOOSE d \in {Abs(c - ref) : c \in all} : \A c \in all : d <= Abs(c - ref)
  IN {c \in all : Abs(c - ref) <= best + 3}

LocalOk(y, x, odd, rlat, rlon, surface, out) ==
  /\ Len(out) = 3
  /\ out[1] = "OK"
  /\ \E lat \in Around(rlat, y, surface, IF odd THEN 59 ELSE 60) :
       /\ Near(out[2], lat)
       /\ \E nl \in NLs(lat) :
            \E lon \in Around(rlon, x, surface, Zones(nl, ~odd)) : SameLongitude(Wrap(out[3]), Wrap(lon))

\* ---------------------------------------------------------------------------------------------------------------
\* Encoding (used to state that decoding finds the position back). lat in -90..90 degrees, lon in -180..180 degrees.
\* floor(2^17 * frac(c / D) + 1/2), D = 360 (or 90) degrees / zones


RECURSIVE MulMod(_, _, _)
MulMod(a, b, m) == IF b = 0 THEN 0 ELSE (2*MulMod(a, b \div 2, m) + (b % 2)*a) % m

Encode(c, surface, zones) ==
  LET full == IF surface THEN 90*Deg ELSE Turn
      w == MulMod(c % full, zones, full)
  IN ((MulDiv(w, IF surface THEN 2048 ELSE 512, 703125) + 1) \div 2) % Quantum

\* <<latitude, longitude>> codes of a position
EncodePosition(lat, lon, odd, surface) ==
  LET z == IF odd THEN 59 ELSE 60
      y == Encode(lat, surface, z)
      rlat == CHOOSE r \in Around(lat, y, surface, z) : TRUE
  IN <<y, Encode(lon, surface, Zones(NL(rlat), ~odd))>>
=============================================================================
