------------------------------ MODULE MC_Velocity ------------------------------
(* An aircraft changes its velocity. The two components are transmitted and found back; the speed is the length of    *)
(* the velocity and the track its direction.                                                                         *)
EXTENDS Oracle

CONSTANTS Values, Vertical          \* values of the components (knots), and of the vertical rate (ft/min, multiples of 64)

VARIABLES ew, ns, vr
vars == <<ew, ns, vr>>

Init == ew \in {0} /\ ns \in {0} /\ vr = 0
Next == \/ \E v \in Values : (ew' = v \/ ew' = -v) /\ UNCHANGED <<ns, vr>>
        \/ \E v \in Values : (ns' = v \/ ns' = -v) /\ UNCHANGED <<ew, vr>>
        \/ \E v \in Vertical : (vr' = v \/ vr' = -v) /\ UNCHANGED <<ew, ns>>
Spec == Init /\ [][Next]_vars

Sign(v) == IF v < 0 THEN 1 ELSE 0
Squitter(factor) ==
  Octets(ToBits(19, 5) \o ToBits(IF factor = 1 THEN 1 ELSE 2, 3) \o <<0,0,0,0,0>>
         \o <<Sign(ew)>> \o ToBits(Abs(ew) \div factor + 1, 10) \o <<Sign(ns)>> \o ToBits(Abs(ns) \div factor + 1, 10)
         \o <<0, Sign(vr)>> \o ToBits(Abs(vr) \div 64 + 1, 9) \o <<0,0>> \o ToBits(0, 8))

RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF lo = hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid*mid <= n THEN Isqrt(n, mid, hi) ELSE Isqrt(n, lo, mid-1)
Speed == Isqrt(ew*ew + ns*ns, 0, 8000)

Back == LET g == Gs(Squitter(1)) IN
  /\ Abs(ew) < 1021 /\ Abs(ns) < 1021 => g = <<"GS", 1, ew, ns>>
  /\ LET c == Bds09(Squitter(1)) IN c[15] = vr /\ c[14] = 1
Fast == LET g == Gs(Squitter(4)) IN g[2] = 1 /\ Abs(g[3] - ew) < 4 /\ Abs(g[4] - ns) < 4
\* One speed only is right
Length == SpeedOk(ew, ns, Speed) /\ ~SpeedOk(ew, ns, Speed+1) /\ (Speed > 0 => ~SpeedOk(ew, ns, Speed-1))
\* The eight main directions; a track that is right is wrong when reversed
Track ==
  /\ ew = 0 /\ ns > 0 => TrackOk(ew, ns, 0) /\ ~TrackOk(ew, ns, 90000) /\ ~TrackOk(ew, ns, 1000)
  /\ ew = ns /\ ew > 0 => TrackOk(ew, ns, 45000) /\ ~TrackOk(ew, ns, 225000)
  /\ ns = 0 /\ ew > 0 => TrackOk(ew, ns, 90000)
  /\ ew = -ns /\ ew > 0 => TrackOk(ew, ns, 135000)
  /\ ew = 0 /\ ns < 0 => TrackOk(ew, ns, 180000)
  /\ ew = ns /\ ew < 0 => TrackOk(ew, ns, 225000)
  /\ ns = 0 /\ ew < 0 => TrackOk(ew, ns, 270000)
  /\ ew = -ns /\ ew < 0 => TrackOk(ew, ns, 315000)
=============================================================================
