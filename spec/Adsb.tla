--------------------------------- MODULE Adsb ---------------------------------
(* The ADS-B messages: which register an extended squitter holds, given its type code and the version of ADS-B   *)
(* in use, and how sure its position is (ICAO Doc 9871, tables A-2-5 to C-2-6, DO-260, DO-260A and DO-260B).        *)
EXTENDS ExtendedSquitter

Versions == {0, 1, 2}

\* No position: type code 0 and nothing after the altitude
NoPosition(m) == TC(m) = 0 /\ Zero(m, 21, 56)

Suffix(v) == CASE v = 0 -> "V0" [] v = 1 -> "V1" [] OTHER -> "V2"

\* The content of the message
Adsb(v, m) ==
  LET tc == TC(m) IN
  CASE NoPosition(m) -> IF ~PosLegal(m) THEN ESERR ELSE <<"NoPositionInformation", 0, PosAltitude(m)[2], 0, 1>>
    [] tc = 0 /\ ~NoPosition(m) -> AirbornePosition(m, "AirbornePositionType0", 0, 0)
    [] tc \in 1..4 -> Bds08(m)
    [] tc \in 5..8 -> IF v \in Versions THEN SurfacePosition(m, "SurfacePosition" \o Suffix(v)) ELSE ESERR
    [] tc \in AirborneTypes -> IF v \in Versions THEN AirbornePosition(m, "AirbornePosition" \o Suffix(v), tc, tc) ELSE ESERR
    [] tc = 19 -> Bds09(m)
    [] tc = 28 -> Bds61(m)
    [] tc = 29 -> Bds62(m)
    [] tc = 31 -> Bds65(m)
    [] OTHER -> ESERR

\* The ADS-B version of the message: positions and operational statuses know theirs, the others are of the
\* version they are read with.
AdsbVersion(v, m) ==
  LET c == Adsb(v, m) IN
  IF c = ESERR THEN ESERR
  ELSE <<c[1], IF TC(m) = 31 THEN OpVersion(m) ELSE v>>

\* ---------------------------------------------------------------------------------------------------------------
\* Integrity of the positions. a, b, c are the NIC supplements A, B and C.
\* <<containment radius class, navigation integrity category>>

AirborneV1(tc, a) ==
  CASE tc = 9 -> <<9, 11>> [] tc = 10 -> <<10, 10>>
    [] tc = 11 -> IF a = 1 THEN <<111, 9>> ELSE <<11, 8>>
    [] tc = 12 -> <<12, 7>>
    [] tc = 13 -> IF a = 1 THEN <<113, 6>> ELSE <<13, 6>>
    [] tc = 14 -> <<14, 5>> [] tc = 15 -> <<15, 4>>
    [] tc = 16 -> IF a = 1 THEN <<116, 3>> ELSE <<16, 2>>
    [] tc = 17 -> <<17, 1>> [] tc = 18 -> <<18, 0>>
    [] tc = 20 -> <<0, 11>> [] tc = 21 -> <<1, 10>> [] tc = 22 -> <<2, 0>>

AirborneV2(tc, a, b) ==
  CASE tc = 13 -> IF a = 1 THEN <<113, 6>> ELSE IF b = 1 THEN <<213, 6>> ELSE <<13, 6>>
    [] tc = 20 -> <<20, 11>> [] tc = 21 -> <<21, 10>> [] tc = 22 -> <<22, 0>>
    [] OTHER -> AirborneV1(tc, a)

SurfaceV1(tc, a) ==
  CASE tc = 5 -> <<0, 11>> [] tc = 6 -> <<1, 10>>
    [] tc = 7 -> IF a = 1 THEN <<2, 9>> ELSE <<3, 8>>
    [] tc = 8 -> <<4, 0>>

SurfaceV2(tc, a, c) ==
  CASE tc = 8 -> (CASE a = 1 /\ c = 1 -> <<4, 7>> [] a = 1 /\ c = 0 -> <<5, 6>> [] a = 0 /\ c = 1 -> <<6, 6>> [] OTHER -> <<7, 0>>)
    [] OTHER -> SurfaceV1(tc, a)

Integrity(v, a, c, m) ==
  LET k == Adsb(v, m)
      tc == TC(m)
  IN IF k = ESERR THEN ESERR
     ELSE <<k[1]>> \o
       CASE tc = 0 /\ k[1] = "AirbornePositionType0" -> <<0>>
         [] tc = 0 /\ k[1] # "AirbornePositionType0" -> <<0, k[3], 0>>
         [] tc \in AirborneTypes /\ v = 0 -> <<tc, tc>>
         [] tc \in AirborneTypes /\ v = 1 -> <<a>> \o AirborneV1(tc, a)
         [] tc \in AirborneTypes /\ v = 2 -> <<a, B(m,8)>> \o AirborneV2(tc, a, B(m,8))
         [] tc \in 5..8 /\ v = 0 -> <<tc, tc>>
         [] tc \in 5..8 /\ v = 1 -> SurfaceV1(tc, a)
         [] tc \in 5..8 /\ v = 2 -> SurfaceV2(tc, a, c)
         [] OTHER -> <<>>

\* Messages whose integrity is examined
HasPosition(m) == TC(m) \in AirborneTypes \union (5..8) \union {0}
=============================================================================
