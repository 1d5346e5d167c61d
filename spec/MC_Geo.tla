--------------------------------- MODULE MC_Geo ---------------------------------
(* A walk around the globe: the functions of the distance keep the laws of trigonometry, the distance is symmetric,   *)
(* does not depend on the origin of the longitudes, and a way through a third point is not shorter.                  *)
EXTENDS Geo, TLC

CONSTANTS Grid, Fine             \* steps of the points, of the angles (degrees)

VARIABLES lat1, lon1, lat2, lon2, phase
vars == <<lat1, lon1, lat2, lon2, phase>>

Lats == {Deg*x : x \in {-90 + Grid*k : k \in 0..(180 \div Grid)}} \union {1, -123456, 89999999}
Lons == {Deg*x : x \in {-180 + Grid*k : k \in 0..(360 \div Grid)}} \union {7, -179999999}

Init == /\ lat1 \in Lats /\ lon1 = 0 /\ lat2 = 0 /\ lon2 = 0 /\ phase = 0
First == phase = 0 /\ phase' = 1 /\ lat2' \in Lats /\ lon2' \in Lons /\ UNCHANGED <<lat1, lon1>>
Turned == phase = 1 /\ phase' = 2 /\ lon1' \in {Deg*10, -Deg*170} /\ lon2' = Wrap(lon2 + lon1') /\ UNCHANGED <<lat1, lat2>>
Next == First \/ Turned
Spec == Init /\ [][Next]_vars

\* The distance, decimetres: the one that the tolerance accepts. By bisection on the haversine
RECURSIVE Bisect(_, _, _)
Bisect(h, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET mid == (lo + hi) \div 2
           s == Sin(Arc(mid) \div 2)
       IN IF Mul(s, s) <= h THEN Bisect(h, mid, hi) ELSE Bisect(h, lo, mid)
Dist(h) == Bisect(h, 0, 200150900)

H == Haversine(lat1, lon1, lat2, lon2)
D == Dist(H)

Symmetric == Abs(H - Haversine(lat2, lon2, lat1, lon1)) <= 8
Origin == Abs(H - Haversine(lat1, 0, lat2, lon2 - lon1)) <= 8
Bounds == H >= -8 /\ H <= One + 8
\* The precision at 1/2 is the best one; the error grows with the square root at both ends
Slack(h) == IF h < 4096 \/ h > One - 4096 THEN 300000 ELSE 30000
Triangle == LET P == {<<0, 0>>, <<60*Deg, 30*Deg>>, <<-89*Deg, 100*Deg>>}
            IN \A p \in P : LET a == Haversine(lat1, lon1, p[1], p[2])
                                b == Haversine(p[1], p[2], lat2, lon2)
                            IN D <= Dist(a) + Dist(b) + 3*Max2(Slack(H), Max2(Slack(a), Slack(b)))
Meridian == lon1 = lon2 => Abs(D - ArcLength(Abs(lat1 - lat2))) <= Slack(H)
Accepted == (H > 2000000 /\ H < One - 2000000) =>
            /\ DistanceOk(lat1, lon1, lat2, lon2, D) \/ lon1 = lon2 \/ (lat1 = 0 /\ lat2 = 0)
            /\ ~DistanceOk(lat1, lon1, lat2, lon2, D + 20000)
            /\ ~DistanceOk(lat1, lon1, lat2, lon2, D - 20000)

\* Trigonometry
Angles == {Fine*Deg*k + 777*k : k \in 0..(360 \div Fine)}
Pythagoras == phase = 0 => \A x \in Angles : Abs(Mul(Sin(x), Sin(x)) + Mul(Cos(x), Cos(x)) - One) <= 16
Addition == phase = 0 => \A x \in Angles : Abs(Sin(x + lat1) - Mul(Sin(x), Cos(lat1)) - Mul(Cos(x), Sin(lat1))) <= 32
ASSUME /\ Sin(0) = 0 /\ Abs(Sin(30*Deg) - One \div 2) <= 8 /\ Abs(Sin(90*Deg) - One) <= 8 /\ Abs(Cos(60*Deg) - One \div 2) <= 8
         /\ Abs(Mul(Sin(45*Deg), Sin(45*Deg)) - One \div 2) <= 8
=============================================================================
