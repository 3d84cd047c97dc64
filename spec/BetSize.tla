------------------------------- MODULE BetSize ------------------------------
(* Bet sizes from probabilities. A row's size is c * (2*Phi(sqrt(z2)) - 1):  *)
(* c is 0 or 1 and z2 the squared test statistic, an exact rational; only    *)
(* Phi is left to the evaluator. Sizes, once there, are put on a grid.       *)
(* s is the sign of the signed size, which only averaging looks at.          *)
EXTENDS Util, Rat
VARIABLES cfg,   \* [K |-> classes, meta |-> BOOLEAN]
          rows,  \* [n, d : probability n/d, pred, side]
          out    \* [c, z2] per row; z2 = <<1,0>> is infinite
bzvars == <<cfg, rows, out>>
RInf == <<1, 0>>
Z2(K, n, d) == IF n = 0 \/ n = d THEN RInf
               ELSE R((n * K - d) * (n * K - d), K * K * n * (d - n))
Size(r) == [c |-> IF r.pred = 0 \/ (cfg.meta /\ r.side = 0) THEN 0 ELSE 1, z2 |-> Z2(cfg.K, r.n, r.d),
            s |-> Sgn(r.n * cfg.K - r.d) * Sgn(r.pred) * (IF cfg.meta THEN Sgn(r.side) ELSE 1)]
AppendRow(r) == rows' = Append(rows, r) /\ out' = Append(out, Size(r)) /\ UNCHANGED cfg
---------------------------------------------------------------------------
P(i) == <<rows[i].n, rows[i].d>>
Base == <<1, cfg.K>>
Less(a, b) == a # RInf /\ (b = RInf \/ RLt(a, b))
ZeroAtChance == \A i \in 1..Len(rows) : out[i].z2 = <<0, 1>> <=> P(i)[1] * cfg.K = P(i)[2]
Monotone == \A i, j \in 1..Len(rows) :
    /\ RLe(Base, P(i)) /\ RLt(P(i), P(j)) => Less(out[i].z2, out[j].z2)
    /\ RLe(P(j), Base) /\ RLt(P(i), P(j)) => Less(out[j].z2, out[i].z2)
SignBlind == \A i, j \in 1..Len(rows) :
    rows[i].n = rows[j].n /\ rows[i].d = rows[j].d /\ Abs(rows[i].pred) = Abs(rows[j].pred)
       /\ (cfg.meta => Abs(rows[i].side) = Abs(rows[j].side)) => out[i].c = out[j].c /\ out[i].z2 = out[j].z2
RowLocal == \A i \in 1..Len(rows) : out[i] = Size(rows[i])
---------------------------------------------------------------------------
(* Discretisation, in integers: x and step in 10^-6, the result in 10^-3.    *)
(* x may be off by eps; ties may go either way.                              *)
OnGrid(x, step, got, eps) ==
    LET a == Abs(x)
        g == Abs(got)
        lo == Max2(0, a \div step - 1)
    IN /\ got # 0 => Sgn(got) = Sgn(x)
       /\ \E k \in lo..(lo + 3) :
            /\ 2 * Abs(a - k * step) <= step + eps
            /\ IF k * step >= 1000000 THEN g = 1000
               ELSE g <= 1000 /\ 2 * Abs(g * 1000 - k * step) <= 1000
=============================================================================
