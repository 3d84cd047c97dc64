-------------------------------- MODULE Rat ---------------------------------
(* Exact rational arithmetic on normalised pairs <<num, den>>, den > 0.      *)
(* <<0,0>> stands for "undefined" (NaN), <<1,0>>/<<-1,0>> for infinities.    *)
EXTENDS Integers, Sequences
RNaN == <<0, 0>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RAbsI(a) == IF a < 0 THEN -a ELSE a
R(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == Gcd(RAbsI(n), RAbsI(d))
           IN <<(s * n) \div g, (s * d) \div g>>
RInt(n) == <<n, 1>>
(* addition through the least common denominator keeps numbers small *)
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN
                R(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g1 == Gcd(RAbsI(a[1]), b[2])
                  g2 == Gcd(RAbsI(b[1]), a[2])
                  h1 == IF g1 = 0 THEN 1 ELSE g1
                  h2 == IF g2 = 0 THEN 1 ELSE g2
              IN R((a[1] \div h1) * (b[1] \div h2), (a[2] \div h2) * (b[2] \div h1))
RInv(a) == R(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RAbs(a) == <<RAbsI(a[1]), a[2]>>
RSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RSum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<0, 1>> ELSE RAdd(F[i-1], s[i]) IN F[Len(s)]
RIsNum(a) == a[2] > 0
=============================================================================
