-------------------------------- MODULE Frac --------------------------------
(* Comparing nonnegative fractions <<n, d>> (d = 0: infinity) by Euclid's    *)
(* algorithm, so that no product overflows.                                  *)
EXTENDS Integers, Sequences
RECURSIVE FracLt(_, _, _, _)
FracLt(a, b, c, d) ==
    IF b = 0 THEN FALSE ELSE IF d = 0 THEN TRUE
    ELSE LET qa == a \div b qc == c \div d ra == a % b rc == c % d IN
         IF qa # qc THEN qa < qc ELSE IF rc = 0 THEN FALSE ELSE IF ra = 0 THEN TRUE
         ELSE FracLt(d, rc, b, ra)
Lt(p, q) == FracLt(p[1], p[2], q[1], q[2])
(* signed: sgn * sqrt(frac) *)
SLt(s, p, t, q) == IF s # t THEN s < t ELSE IF s = 0 THEN FALSE ELSE IF s = 1 THEN Lt(p, q) ELSE Lt(q, p)
=============================================================================
