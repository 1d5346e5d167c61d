------------------------------- MODULE CprForAll -------------------------------
(* What holds for all the positions, whatever the aircraft: decided by Apalache (with Z3), one number of zones at a       *)
(* time (the runner writes the value of Z). The circle of Z zones (60 zones of latitude, 59 to 2 of longitude) is     *)
(* measured in units such that both encodings count whole numbers of them: a step of the even code is 2(Z-1) units, of  *)
(* the odd one 2Z. The codes of a position only depend on its whole number of units: nothing is lost of the real ones. *)
EXTENDS CprIndex

VARIABLES
  \* @type: Int;
  first,                      \* the position at the even report
  \* @type: Int;
  second,                      \* the position at the odd report
  \* @type: Int;
  ref                     \* a reference, anywhere

Z == 60

Circle == 2*Z*(Z-1)*Quantum
\* An aircraft that moves less than half the difference of the zones between two reports (but for the rounding)
Moved == 65536*2 - 2*Z

Init == /\ \E x \in Int : 0 <= x /\ x < Circle /\ first = x
        /\ \E d \in Int : -Moved <= d /\ d <= Moved /\ second = first + d
        /\ \E x \in Int : -2*Circle <= x /\ x <= 2*Circle /\ ref = x
Next == UNCHANGED <<first, second, ref>>

\* The steps of the codes, counted from the origin, and the codes
Ne == (first + (Z-1)) \div (2*(Z-1))
No == (second + Z) \div (2*Z)
E == Ne % Quantum
O == No % Quantum

\* Two reports give both positions
Both ==
  LET j == ZoneIndex(E, O, Z)
  IN /\ (j % Z)*Quantum + E = Ne % (Z*Quantum)
     /\ (j % (Z-1))*Quantum + O = No % ((Z-1)*Quantum)

\* The formula of the standard gives, from one report and a reference, the coordinate with this code that is the nearest
\* to the reference (D: a zone; in units of half a step)
D == 2*Quantum
Nearest ==
  LET m == (ref \div D) + ((ref % D) - 2*E + Quantum) \div D
      c == m*D + 2*E
  IN -Quantum < c - ref /\ c - ref <= Quantum

\* A position less than half a zone away is the one found
Near == (ref - 2*Ne < Quantum /\ 2*Ne - ref < Quantum) =>
          LET m == (ref \div D) + ((ref % D) - 2*E + Quantum) \div D
          IN m*D + 2*E = 2*Ne

\* The scalings are exact
Scaled == first < 2*Z*Quantum => /\ MulDiv(first, 703125, 256*Z) = (first*703125) \div (256*Z)
                             /\ MulDiv(first, 703125, 1024*Z) = (first*703125) \div (1024*Z)
Encoded == first < 360*Deg => /\ MulDiv(first, 512, 703125) = (first*512) \div 703125
                          /\ MulDiv(first, 2048, 703125) = (first*2048) \div 703125
Always == Both /\ Nearest /\ Near /\ Scaled /\ Encoded
=============================================================================
