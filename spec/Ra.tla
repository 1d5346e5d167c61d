---------------------------------- MODULE Ra ----------------------------------
(* The resolution advisory of ACAS: register 3,0 and the second to seventh octets of the extended squitter 6,1.   *)
(* (ICAO Annex 10 vol. IV, 4.3.8.4.2.2.1; the bits are numbered from the first bit of the advisory, which is the *)
(* bit 41 of the frames DF16 and DF20.)                                                                          *)
EXTENDS Altitude

NONE == -1

\* The threat altitude: C1 A1 C2 A2 C4 A4 0 B1 D1 B2 D2 B4 D4; all at zero when it is not available
RaAltitudeGiven(d) == ~(Zero(d, 23, 28) /\ Zero(d, 30, 35))
RaAltitude(d) ==
  IF ~RaAltitudeGiven(d) THEN 0
  ELSE Gillham(B(d,31), B(d,33), B(d,35), B(d,24), B(d,26), B(d,28), B(d,30), B(d,32), B(d,34), B(d,23), B(d,25), B(d,27))

\* ARA: <<kind, type, fields...>>
ActiveRA(d) ==
  IF B(d, 1) = 1
  THEN <<"ActiveRAOneThreatOrSameSeparation", 0, B(d,2), B(d,3), B(d,4), B(d,5), B(d,6), B(d,7)>>
  ELSE IF B(d, 20) = 1
  THEN <<"ActiveRAMultipleThreatsDifferentSeparation", 1, B(d,2), B(d,3), B(d,4), B(d,5), B(d,6), B(d,7)>>
  ELSE <<"ActiveRANoVerticalRAGenerated", 2>>

TTI(d) == U(d, 21, 22)

\* Tenths of nautical miles: 1 is less than 0.05, 127 more than 12.55
RaRange(n) == IF n \in {0, 1} THEN 0 ELSE IF n >= 127 THEN 12600 ELSE 100 * (n - 1)
\* Degrees: sectors of 6 degrees
RaBearing(n) == IF n = 0 THEN 0 ELSE IF n > 60 THEN 363 ELSE 6*n - 3

Ra(d) ==
  LET id == CASE TTI(d) = 1 -> <<65536*U(d,23,30) + U(d,31,46), NONE, NONE, NONE, NONE, NONE, NONE>>
              [] TTI(d) = 2 -> LET a == RaAltitude(d)
                                   r == U(d, 36, 42)
                                   b == U(d, 43, 48)
                               IN <<NONE, Bool(RaAltitudeGiven(d)), a, r, RaRange(r), b, RaBearing(b)>>
              [] OTHER -> <<NONE, NONE, NONE, NONE, NONE, NONE, NONE>>
  IN ActiveRA(d) \o <<B(d,15), B(d,16), B(d,17), B(d,18), B(d,19), B(d,20), TTI(d)>> \o id

\* The advisory is rejected when the threat altitude is an illegal code
RaLegal(d) == TTI(d) = 2 => RaAltitude(d) # Bad
=============================================================================
