--------------------------- MODULE ExtendedSquitter ---------------------------
(* The content of the extended squitters (registers 0,5 0,6 0,8 0,9 6,1 6,2 and 6,5; ICAO Doc 9871, appendices A,  *)
(* B and C). m is the ME field: 7 octets, its bits are numbered 1 to 56.                                         *)
(* The content of a message is a tuple: name, fields, and a last element saying if the content is coherent.      *)
(* Fractional values are in thousandths.                                                                         *)
EXTENDS Ra

ESERR == <<"ERR">>

TC(m) == U(m, 1, 5)
ST(m) == U(m, 6, 8)

\* ---------------------------------------------------------------------------------------------------------------
\* 0,5 airborne position (table A-2-5). tc is the type code the message is read with.

AirborneTypes == (9..18) \union {20, 21, 22}

CprFields(m) == <<B(m,21), B(m,22), 16*U(m,23,35) + U(m,36,39), U(m,40,56)>>   \* T, F, latitude, longitude

PosAltitude(m) == Altitude12(m, 9)
PosLegal(m) == PosAltitude(m)[2] # Bad

AirbornePosition(m, kind, tc, alias) ==
  IF ~PosLegal(m) THEN ESERR
  ELSE <<kind, tc, U(m,6,7), B(m,8), IF alias \in {20, 21, 22} THEN 1 ELSE 0>> \o PosAltitude(m) \o CprFields(m) \o <<1>>

Bds05(m) == IF TC(m) \in AirborneTypes THEN AirbornePosition(m, "AirbornePosition", TC(m), TC(m)) ELSE ESERR

\* ---------------------------------------------------------------------------------------------------------------
\* 0,6 surface position (table A-2-6)

Movement(n) ==    \* thousandths of knots
  CASE n \in {0, 1} -> 0
    [] n \in 2..8 -> 125 * (n-1)
    [] n \in 9..12 -> 1000 + 250*(n-9)
    [] n \in 13..38 -> 2000 + 500*(n-13)
    [] n \in 39..93 -> 15000 + 1000*(n-39)
    [] n \in 94..108 -> 70000 + 2000*(n-94)
    [] n \in 109..123 -> 100000 + 5000*(n-109)
    [] n = 124 -> 175000
    [] OTHER -> 0

SurfacePosition(m, kind) ==
  <<kind, TC(m), U(m,6,12), Movement(U(m,6,12)), B(m,13), Rnd(U(m,14,20)*45000, 16)>> \o CprFields(m) \o <<1>>

Bds06(m) == IF TC(m) \in 5..8 THEN SurfacePosition(m, "SurfacePosition") ELSE ESERR

\* ---------------------------------------------------------------------------------------------------------------
\* 0,8 identification and category (table A-2-8), and the characters (table 3-9 of the Annex)

CharTable == <<
  "#", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
  "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "#", "#", "#", "#", "#",
  " ", "#", "#", "#", "#", "#", "#", "#", "#", "#", "#", "#", "#", "#", "#", "#",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "#", "#", "#", "#", "#", "#">>
LegalChar(c) == c \in (1..26) \union {32} \union (48..57)

CharCode(m, k) == U(m, 3 + 6*k, 8 + 6*k)          \* k in 1..8
Ident(m) == CharTable[CharCode(m,1)+1] \o CharTable[CharCode(m,2)+1] \o CharTable[CharCode(m,3)+1] \o CharTable[CharCode(m,4)+1]
            \o CharTable[CharCode(m,5)+1] \o CharTable[CharCode(m,6)+1] \o CharTable[CharCode(m,7)+1] \o CharTable[CharCode(m,8)+1]
IdentLegal(m) == \A k \in 1..8 : LegalChar(CharCode(m, k))

CategorySet(tc) == CASE tc = 1 -> "Set D (Reserved)" [] tc = 2 -> "Set C" [] tc = 3 -> "Set B" [] OTHER -> "Set A"
CategoryCoherent(tc, c) == CASE tc = 1 -> FALSE [] tc = 2 -> c <= 3 [] OTHER -> TRUE

Bds08(m) ==
  IF TC(m) \in 1..4
  THEN <<"AircraftIdentificationAndCategory", TC(m), CategorySet(TC(m)), ST(m), Ident(m),
         Bool(IdentLegal(m) /\ CategoryCoherent(TC(m), ST(m)))>>
  ELSE ESERR

\* ---------------------------------------------------------------------------------------------------------------
\* 0,9 velocity (tables A-2-9a and A-2-9b)
\* Status of the numbers: 0 no information, 1 regular, 2 maximum

Status(v, max) == IF v = 0 THEN 0 ELSE IF v = max THEN 2 ELSE 1
Velocity(v, factor) == IF v = 0 THEN 0 ELSE IF v = 1023 THEN (IF factor = 1 THEN 1023 ELSE 4088) ELSE factor*(v-1)
Signed(s, n) == IF s = 1 THEN -n ELSE n
VerticalRate(s, v) == IF v = 0 THEN 0 ELSE Signed(s, IF v = 511 THEN 32640 ELSE 64*(v-1))
HeightDifference(s, v) == IF v = 0 THEN 0 ELSE Signed(s, IF v = 127 THEN 3150 ELSE 25*(v-1))

VelocityHead(m) == <<TC(m), ST(m), B(m,9), B(m,10), U(m,11,13)>>
VelocityTail(m) == <<B(m,36), Status(U(m,38,46), 511), VerticalRate(B(m,37), U(m,38,46)),
                     Status(U(m,50,56), 127), HeightDifference(B(m,49), U(m,50,56)), 1>>

GroundVelocity(m, factor) ==
  <<B(m,14), Status(U(m,15,24), 1023), Velocity(U(m,15,24), factor),
    B(m,25), Status(U(m,26,35), 1023), Velocity(U(m,26,35), factor)>>

AirVelocity(m, factor) ==
  <<B(m,14), Rnd(U(m,15,24)*45000, 128), Status(U(m,26,35), 1023), Velocity(U(m,26,35), factor)>>

VelocityRead(m, kind, part) == <<kind>> \o VelocityHead(m) \o part \o VelocityTail(m)

Bds09Sub(m, s) ==
  IF TC(m) # 19 \/ ST(m) # s THEN ESERR
  ELSE CASE s = 1 -> VelocityRead(m, "AirborneVelocityGroundSpeedNormal", GroundVelocity(m, 1))
         [] s = 2 -> VelocityRead(m, "AirborneVelocityGroundSpeedSupersonic", GroundVelocity(m, 4))
         [] s = 3 -> VelocityRead(m, "AirborneVelocityAirSpeedNormal", AirVelocity(m, 1))
         [] s = 4 -> VelocityRead(m, "AirborneVelocityAirSpeedSupersonic", AirVelocity(m, 4))

Bds09(m) == IF ST(m) \in 1..4 THEN Bds09Sub(m, ST(m)) ELSE ESERR

\* ---------------------------------------------------------------------------------------------------------------
\* 6,1 aircraft status (tables B-2-97a and B-2-97b)

Bds61n(m) ==
  IF TC(m) # 28 \/ ST(m) # 0 \/ ~Zero(m, 12, 56) THEN ESERR
  ELSE <<"AircraftStatusNoInformation", 28, 0, U(m,9,11), Bool(U(m,9,11) = 0)>>
Bds61e(m) ==
  IF TC(m) # 28 \/ ST(m) # 1 \/ ~Zero(m, 25, 56) THEN ESERR
  ELSE <<"AircraftStatusEmergency", 28, 1, U(m,9,11), U(m,12,24), Bool(U(m,9,11) <= 5)>>
Bds61a(m) ==
  LET d == Tail(m)
  IN IF TC(m) # 28 \/ ST(m) # 2 \/ ~RaLegal(d) THEN ESERR
     ELSE <<"AircraftStatusACAS", 28, 2>> \o Ra(d) \o <<1>>
Bds61(m) == CASE ST(m) = 0 -> Bds61n(m) [] ST(m) = 1 -> Bds61e(m) [] ST(m) = 2 -> Bds61a(m) [] OTHER -> ESERR

\* ---------------------------------------------------------------------------------------------------------------
\* 6,2 target state and status (tables B-2-98 and C-2-98)

TssSubtype(m) == U(m, 6, 7)

Bds62t0(m) ==
  IF TC(m) # 29 \/ TssSubtype(m) # 0 \/ ~Zero(m, 47, 51) THEN ESERR
  ELSE LET a == U(m,16,25)
           h == U(m,28,36)
       IN <<"TargetStateAndStatus0", 29, 0, U(m,8,9), B(m,10), U(m,12,13), U(m,14,15),
            IF a > 1010 THEN 2 ELSE 1, IF a > 1010 THEN 0 ELSE 100*a - 1000,
            U(m,26,27), IF h > 359 THEN 2 ELSE 1, IF h > 359 THEN 0 ELSE h,
            B(m,37), U(m,38,39), U(m,40,43), B(m,44), U(m,45,46), U(m,52,53), U(m,54,56), 1>>

Bds62t1(m) ==
  IF TC(m) # 29 \/ TssSubtype(m) # 1 THEN ESERR
  ELSE LET a == U(m,10,20)
           b == U(m,21,29)
           h == U(m,32,39)
       IN <<"TargetStateAndStatus1", 29, 1, B(m,8), B(m,9), IF a = 0 THEN 0 ELSE 1, IF a = 0 THEN 0 ELSE 32*(a-1),
            IF b = 0 THEN 0 ELSE 1, IF b = 0 THEN 0 ELSE 800000 + 800*(b-1),
            B(m,30), Rnd((IF B(m,31) = 1 THEN h - 256 ELSE h)*45000, 64),
            U(m,40,43), B(m,44), U(m,45,46), B(m,47), B(m,48), B(m,49), B(m,50), B(m,52), B(m,53), B(m,54), 1>>

Bds62(m) == CASE TssSubtype(m) = 0 -> Bds62t0(m) [] TssSubtype(m) = 1 -> Bds62t1(m) [] OTHER -> ESERR

\* ---------------------------------------------------------------------------------------------------------------
\* 6,5 operational status (tables A-2-101, B-2-101 and C-2-101)

OpVersion(m) == U(m, 41, 43)

Bds65v0(m) ==
  IF TC(m) # 31 \/ ST(m) # 0 \/ ~Zero(m, 41, 56) THEN ESERR
  ELSE <<"AircraftOperationalStatusADSB0", 31, 0, U(m,9,12), U(m,13,16), U(m,17,20), U(m,21,24),
         U(m,25,28), U(m,29,32), U(m,33,36), U(m,37,40), 1>>

Bds65a1(m) ==
  IF TC(m) # 31 \/ ST(m) # 0 \/ OpVersion(m) # 1 \/ ~Zero(m,9,10) \/ ~Zero(m,13,14) \/ ~Zero(m,25,26) \/ ~Zero(m,49,50) \/ ~Zero(m,55,56) THEN ESERR
  ELSE <<"AircraftOperationalStatusAirborneADSB1", 31, 0, B(m,11), B(m,12), B(m,15), B(m,16), U(m,17,18),
         B(m,27), B(m,28), B(m,29), 1, B(m,44), U(m,45,48), U(m,51,52), B(m,53), B(m,54), 1>>

Bds65s1(m) ==
  IF TC(m) # 31 \/ ST(m) # 1 \/ OpVersion(m) # 1 \/ ~Zero(m,9,10) \/ ~Zero(m,13,14) \/ ~Zero(m,25,26) \/ ~Zero(m,49,50) \/ ~Zero(m,55,56) THEN ESERR
  ELSE <<"AircraftOperationalStatusSurfaceADSB1", 31, 1, B(m,11), B(m,12), B(m,15), U(m,21,24),
         B(m,27), B(m,28), B(m,29), 1, B(m,44), U(m,45,48), U(m,51,52), B(m,53), B(m,54), 1>>

Bds65a2(m) ==
  IF TC(m) # 31 \/ ST(m) # 0 \/ OpVersion(m) # 2 \/ ~Zero(m,9,10) \/ ~Zero(m,25,26) \/ B(m,56) = 1 THEN ESERR
  ELSE <<"AircraftOperationalStatusAirborneADSB2", 31, 0, B(m,11), B(m,12), B(m,15), B(m,16), U(m,17,18), B(m,19),
         B(m,27), B(m,28), B(m,30), U(m,31,32), 2, B(m,44), U(m,45,48), U(m,49,50), U(m,51,52), B(m,53), B(m,54), B(m,55), 1>>

Bds65s2(m) ==
  IF TC(m) # 31 \/ ST(m) # 1 \/ OpVersion(m) # 2 \/ ~Zero(m,9,10) \/ ~Zero(m,25,26) \/ B(m,56) = 1 THEN ESERR
  ELSE <<"AircraftOperationalStatusSurfaceADSB2", 31, 1, B(m,12), B(m,15), B(m,16), U(m,17,19), B(m,20), U(m,21,24),
         B(m,27), B(m,28), B(m,30), U(m,31,32), U(m,33,35), U(m,36,40), 2, B(m,44), U(m,45,48), U(m,51,52), B(m,53), B(m,54), B(m,55), 1>>

Bds65(m) ==
  CASE OpVersion(m) = 0 -> Bds65v0(m)
    [] OpVersion(m) = 1 /\ ST(m) = 0 -> Bds65a1(m)
    [] OpVersion(m) = 1 /\ ST(m) = 1 -> Bds65s1(m)
    [] OpVersion(m) = 2 /\ ST(m) = 0 -> Bds65a2(m)
    [] OpVersion(m) = 2 /\ ST(m) = 1 -> Bds65s2(m)
    [] OTHER -> ESERR
=============================================================================
