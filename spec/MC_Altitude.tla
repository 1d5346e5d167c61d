------------------------------ MODULE MC_Altitude ------------------------------
(* An aircraft climbs from the lowest to the highest altitude, 100 ft at a time. Its altitude is found back from     *)
(* the code it transmits, and only one pulse changes at each step. Then all the codes are tried, one after the       *)
(* other.                                                                                                            *)
EXTENDS Altitude, TLC

VARIABLES feet, code         \* code: -1 during the climb, then the 13 bits code
vars == <<feet, code>>

Init == feet = -1200 /\ code = -1
Climb == code = -1 /\ feet < 126700 /\ feet' = feet + 100 /\ UNCHANGED code
Codes == code = -1 /\ feet = 126700 /\ code' = 0 /\ UNCHANGED feet
Count == code >= 0 /\ code < 8191 /\ code' = code + 1 /\ UNCHANGED feet
Next == Climb \/ Codes \/ Count
Spec == Init /\ [][Next]_vars

\* C1 A1 C2 A2 C4 A4 M B1 Q B2 D2 B4 D4 of the pulses D2 D4 A1 A2 A4 B1 B2 B4 C1 C2 C4
Layout(p) == <<p[9], p[3], p[10], p[4], p[11], p[5], 0, p[6], 0, p[7], p[1], p[8], p[2]>>
Pulses(c) == ToBits(c, 13)
Value(b) == 4096*b[1] + 2048*b[2] + 1024*b[3] + 512*b[4] + 256*b[5] + 128*b[6] + 64*b[7] + 32*b[8] + 16*b[9] + 8*b[10] + 4*b[11] + 2*b[12] + b[13]

\* The altitude is found back
Back == code = -1 /\ feet > -1200 => Altitude13(Layout(GillhamOf(feet))) = <<3, feet>>
\* Only one pulse changes
OnePulse == [][code' = -1 => LET a == GillhamOf(feet) b == GillhamOf(feet') IN \E i \in 1..11 : a[i] # b[i] /\ \A j \in 1..11 : j # i => a[j] = b[j]]_vars

\* Every code is of one method; when it is legal the altitude is in range and, for the two numeric methods, has this code only
Decoded == Altitude13(Pulses(code))
Methods == code >= 0 => Decoded[1] = CASE code = 0 -> 1 [] code % 128 >= 64 -> 2 [] code % 32 >= 16 -> 4 [] OTHER -> 3
Range == code >= 0 => Decoded[2] \in {Bad} \union (-1200..126700)
Inverse == code >= 0 =>
  /\ Decoded[1] = 3 /\ Decoded[2] # Bad /\ Decoded[2] >= -1100 => Layout(GillhamOf(Decoded[2])) = Pulses(code)
  /\ Decoded[1] = 4 => (Decoded[2] + 1000) % 25 = 0 /\ (Decoded[2] + 1000) \div 25 \in 0..2047
\* The illegal codes are those of the C pulses 000, 101 and 111
Illegal == code >= 0 /\ Decoded[1] = 3 => LET b == Pulses(code) IN (Decoded[2] = Bad <=> <<b[1], b[3], b[5]>> \in {<<0,0,0>>, <<1,0,1>>, <<1,1,1>>})

\* The 12 bits code is the 13 bits code without the bit M
ASSUME Twelve == \A c \in {1, 16, 17, 40, 170, 1000, 2047, 3000, 4095} :
  LET b == ToBits(c, 12)
      m == <<0>> \o Octets(b \o <<0, 0, 0, 0>>) \o <<0, 0, 0, 0>>
      w == Altitude13(<<b[1], b[2], b[3], b[4], b[5], b[6], 0, b[7], b[8], b[9], b[10], b[11], b[12]>>)
  IN Altitude12(m, 9)[2] = w[2]
=============================================================================
