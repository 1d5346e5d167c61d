--------------------------------- MODULE MC_Cpr ---------------------------------
(* An aircraft moves along its track and reports its position, in the even and in the odd encodings alternately. A     *)
(* receiver that has both decodes the position without any other information; a receiver that knows a position not      *)
(* far away decodes it from one report.                                                                              *)
EXTENDS Geo

QuickLatitudes == {5*k : k \in -17..17}
QuickLongitudes == {12*k : k \in -15..15}
AllLatitudes == -89..88
AllLongitudes == {5*k + 1 : k \in -36..35}
SomeHeadings == {<<0, 0>>, <<1500, 0>>, <<-1200, 900>>, <<700, -1900>>}

CONSTANTS Latitudes, Longitudes,     \* where the flights start, in degrees
          Headings,                  \* movements between two reports, in micro degrees: <<latitude, longitude>>
          Steps, Surface

VARIABLES lat, lon, move, n, even, odd      \* even and odd: the last reports
vars == <<lat, lon, move, n, even, odd>>

None == <<-1, -1>>
Init == /\ lat \in {x * Deg + 12345 : x \in Latitudes}
        /\ lon \in {Wrap(x * Deg - 54321) : x \in Longitudes}
        /\ move \in Headings
        /\ n = 0 /\ even = None /\ odd = None

Clamp(x) == IF x > 90*Deg THEN 90*Deg ELSE IF x < -90*Deg THEN -90*Deg ELSE x
IsOdd == n % 2 = 1
Report ==
  /\ n < Steps
  /\ lat' = Clamp(lat + move[1])
  /\ lon' = Wrap(lon + move[2])
  /\ n' = n + 1
  /\ IF n' % 2 = 1 THEN odd' = EncodePosition(lat', lon', TRUE, Surface) /\ UNCHANGED even
                   ELSE even' = EncodePosition(lat', lon', FALSE, Surface) /\ UNCHANGED odd
  /\ UNCHANGED move
Next == Report
Spec == Init /\ [][Next]_vars

\* Resolutions: half a unit of the encoding (360 degrees / 59 / 2^18: 23.3 micro degrees), more along the parallels
LatTol == IF Surface THEN 9 ELSE 27
LonTol(nl, isodd) == ((IF Surface THEN 90 ELSE 360) * 1000000) \div (262144 * Zones(nl, ~isodd)) + 5

Codes == n > 0 => LET c == IF IsOdd THEN odd ELSE even IN c[1] \in 0..(Quantum-1) /\ c[2] \in 0..(Quantum-1)

Range == -90*Deg <= lat /\ lat <= 90*Deg /\ Abs(lon) <= 180*Deg

\* Local decoding, the reference being any of the places around
Offsets == {<<0, 0>>, <<400000, 300000>>, <<-500000, -200000>>}
Decoded == IF IsOdd THEN odd ELSE even
LocalLat(r) == Around(r, Decoded[1], Surface, IF IsOdd THEN 59 ELSE 60)
LocalBack == n > 0 /\ Abs(lat) <= 89*Deg =>
  \A o \in Offsets :
    \A y \in LocalLat(lat + o[1]) :
      /\ Abs(y - lat) <= LatTol
      /\ \A nl \in {NL(y)} : \A x \in Around(lon + o[2], Decoded[2], Surface, Zones(nl, ~IsOdd)) : LonDistance(x, lon) <= LonTol(nl, IsOdd)

\* Global decoding
Both == even # None /\ odd # None
LatE == IF Surface THEN CHOOSE x \in SurfaceLats(LatEven(even[1], odd[1], TRUE), lat) : TRUE ELSE South(LatEven(even[1], odd[1], FALSE))
LatO == IF Surface THEN CHOOSE x \in SurfaceLats(LatOdd(even[1], odd[1], TRUE), lat) : TRUE ELSE South(LatOdd(even[1], odd[1], FALSE))
Last == IF IsOdd THEN LatO ELSE LatE
\* Surface: the zones of longitude cover 90 degrees
GLon == LET l == Lon(even[2], odd[2], NL(Last), ~IsOdd, Surface)
        IN IF ~Surface THEN {l} ELSE {l, l + 90*Deg, l + 180*Deg, l + 270*Deg}
GlobalBack == Both /\ Abs(lat) <= 89*Deg =>
  /\ Abs(Last - lat) <= LatTol
  /\ NL(LatE) = NL(LatO) => \E l \in GLon : LonDistance(l, lon) <= LonTol(NL(Last), IsOdd)

\* And what is decoded is what the oracle of the decoding functions accepts, and nothing else
Expected == <<"OK", Last, Wrap(IF Surface THEN CHOOSE l \in GLon : \A m \in GLon : LonDistance(l, lon) <= LonDistance(m, lon)
                                         ELSE CHOOSE l \in GLon : TRUE)>>
GlobalOk(out) == IF Surface THEN SurfaceGlobalOk(even[1], even[2], odd[1], odd[2], ~IsOdd, lat + 200000, lon - 300000, out)
                            ELSE AirborneGlobalOk(even[1], even[2], odd[1], odd[2], ~IsOdd, out)
Accepts == Both /\ Abs(lat) <= 89*Deg /\ NL(LatE) = NL(LatO) =>
  /\ GlobalOk(Expected)
  /\ ~GlobalOk(<<"OK", Expected[2] + 40, Expected[3]>>)
  /\ ~GlobalOk(<<"OK", Expected[2], Wrap(Expected[3] + 40)>>)
  /\ ~GlobalOk(<<"OK", Expected[2], Wrap(Expected[3] + 90*Deg)>>)
LocalAccepts == n > 0 /\ Abs(lat) <= 89*Deg =>
  LET y == CHOOSE y \in LocalLat(lat) : TRUE
      x == CHOOSE x \in Around(lon, Decoded[2], Surface, Zones(NL(y), ~IsOdd)) : TRUE
      Ok(a, b) == LocalOk(Decoded[1], Decoded[2], IsOdd, lat, lon, Surface, <<"OK", a, b>>)
  IN Ok(y, x) /\ ~Ok(y + 40, x) /\ ~Ok(y, x - 40)
=============================================================================
