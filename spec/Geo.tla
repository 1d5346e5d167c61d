---------------------------------- MODULE Geo ----------------------------------
(* Angles, speeds and distances. Angles are integers (micro degrees), sines are in units of 2^-28.               *)
EXTENDS Cpr

One == 268435456      \* 2^28

\* floor of a*b/2^28 (about), 0 <= a, b <= 2^28
MulP(a, b) ==
  LET a1 == a \div 16384
      a0 == a % 16384
      b1 == b \div 16384
      b0 == b % 16384
  IN a1*b1 + ((a1*b0 + a0*b1 + ((a0*b0) \div 16384)) \div 16384)
Mul(a, b) == IF (a < 0) # (b < 0) THEN -MulP(Abs(a), Abs(b)) ELSE MulP(Abs(a), Abs(b))

\* Radians (2^-28) of an angle of at most 45 degrees: x * pi/180e6 * 2^28 = x * 4.685082536...
Radians(x) == 4*x + MulDiv(x, 685082, Deg) + MulDiv(x, 536, Deg) \div 1000     \* 45 degrees: 210828714

\* Taylor series, for angles up to 45 degrees
SinR(r) == LET r2 == Mul(r, r) IN Mul(r, One - Mul(r2 \div 6, One - Mul(r2 \div 20, One - Mul(r2 \div 42, One - r2 \div 72))))
CosR(r) == LET r2 == Mul(r, r) IN One - Mul(r2 \div 2, One - Mul(r2 \div 12, One - Mul(r2 \div 30, One - Mul(r2 \div 56, One - r2 \div 90))))

Q1Sin(x) == IF x <= 45*Deg THEN SinR(Radians(x)) ELSE CosR(Radians(90*Deg - x))     \* 0..90 degrees
HSin(x) == IF x <= 90*Deg THEN Q1Sin(x) ELSE Q1Sin(180*Deg - x)                     \* 0..180 degrees
Sin(x) == LET y == x % Turn IN IF y <= 180*Deg THEN HSin(y) ELSE -HSin(y - 180*Deg)
Cos(x) == Sin(x + 90*Deg)

\* ---------------------------------------------------------------------------------------------------------------
\* Speed and track from the two components of the velocity (knots): the speed is rounded down, the track is clockwise
\* from the north (thousandths of degrees)

SpeedOk(ew, ns, s) == LET n == ew*ew + ns*ns IN s >= 0 /\ s*s <= n /\ n < (s+1)*(s+1)

TrackOk(ew, ns, t) ==
  LET sn == Sin(t*1000) \div 4096      \* units of 2^-16
      cs == Cos(t*1000) \div 4096
      cross == ew*cs - ns*sn
      dot == ew*sn + ns*cs
  IN /\ t >= 0 /\ t <= 360000
     /\ \/ ew = 0 /\ ns = 0
        \/ dot > 0 /\ Abs(cross) <= 4*(Abs(ew) + Abs(ns))

\* ---------------------------------------------------------------------------------------------------------------
\* Distance along a great circle of a sphere of 6371 km, in decimetres: d = 2 R asin(sqrt(h))

\* The haversine of the angle between two points
Haversine(lat1, lon1, lat2, lon2) ==
  LET sp == Sin((lat2 - lat1) \div 2)
      sl == Sin((lon2 - lon1) \div 2)
  IN Mul(sp, sp) + Mul(Mul(Cos(lat1), Cos(lat2)), Mul(sl, sl))

\* The angle, in micro degrees, of an arc of d decimetres: d / 63710000 rad = d * 0.8993216...e-6*1e6... (180e6/pi/63710000 = 0.899321606)
Arc(d) == d - MulDiv(d, 100678, Deg) - MulDiv(d, 394, Deg) \div 1000

\* Decimetres of an angle: 63710000 * pi / 180e6 = 1.111949266
ArcLength(x) == x + MulDiv(x, 111949, Deg) + MulDiv(x, 266, Deg) \div 1000

\* tolerance: 2^-24 on the haversine everywhere; and for the points closer than 1 degree 0.2 % + 2 m
DistanceOk(lat1, lon1, lat2, lon2, d) ==
  LET h == Haversine(lat1, lon1, lat2, lon2)
      s == Sin(Arc(d) \div 2)
      dlat == Abs(lat2 - lat1)
      dlon == LonDistance(lon1, lon2)
  IN /\ d >= 0 /\ d <= 200150900
     /\ Abs(Mul(s, s) - h) <= 64
     \* along a meridian or the equator: to 1 m in 20000 km
     /\ (dlon = 0 => Abs(d - ArcLength(dlat)) <= 3 + d \div 2000000)
     /\ (lat1 = 0 /\ lat2 = 0 => Abs(d - ArcLength(dlon)) <= 3 + d \div 2000000)
     \* close to each other: flat earth
     /\ (dlat <= Deg \div 4 /\ dlon <= Deg \div 4 /\ Abs(lat1) <= 70*Deg =>
           LET y == ArcLength(dlat) \div 16                               \* at most 17500
               x == Mul(ArcLength(dlon), Cos((lat1 + lat2) \div 2)) \div 16
               n == x*x + y*y
               e == d \div 16
               tol == 4 + e \div 500
           IN (IF e > tol THEN (e-tol)*(e-tol) <= n ELSE TRUE) /\ n <= (e+tol+1)*(e+tol+1))
=============================================================================
