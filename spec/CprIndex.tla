-------------------------------- MODULE CprIndex --------------------------------
(* The arithmetic of compact position reporting that Apalache decides for all the positions (CprForAll) and that Cpr    *)
(* uses: the index of a zone found from two reports, and the scaling of coordinates.                                  *)
EXTENDS Integers

Quantum == 131072                \* 2^17
Deg == 1000000

\* The index of the zone, from the codes of the even and of the odd report; n: the number of zones of the even encoding
\* @type: (Int, Int, Int) => Int;
ZoneIndex(e, o, n) == (e*(n-1) - o*n + 65536) \div Quantum

\* floor(a*n/d), for 0 <= a, 0 <= n < 2^30, 0 < d < 2^20, when the result is less than 2^31: the intermediate values hold
\* in 31 bits
\* @type: (Int, Int, Int) => Int;
MulDiv(a, n, d) ==
  LET q == a \div d
      r == a % d
      n2 == n \div 1048576
      n1 == (n \div 1024) % 1024
      n0 == n % 1024
      t2 == r*n2
      t1 == (t2 % d)*1024 + r*n1
      t0 == (t1 % d)*1024 + r*n0
  IN q*n + (t2 \div d)*1048576 + (t1 \div d)*1024 + (t0 \div d)
=============================================================================
