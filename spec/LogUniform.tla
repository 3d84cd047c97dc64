----------------------------- MODULE LogUniform -----------------------------
(* Distributions over a range [a, b] that are even over the logarithm. Every *)
(* number is written as unit * base^(k / Grain) and stands here as its       *)
(* exponent k: neither the unit nor the base matters to any answer.          *)
EXTENDS Rat
CONSTANT Grain
VARIABLES objs,     \* the distributions made so far, [lo, hi]
          log       \* what they were asked and answered
luvars == <<objs, log>>
Cdf(o, k) == IF k <= o.lo THEN <<0, 1>> ELSE IF k >= o.hi THEN <<1, 1>> ELSE R(k - o.lo, o.hi - o.lo)
Sf(o, k) == RSub(<<1, 1>>, Cdf(o, k))
Mass(o, j, k) == RSub(Cdf(o, k), Cdf(o, j))
Ppf(o, u) == R(o.lo * u[2] + u[1] * (o.hi - o.lo), u[2])      \* an exponent
Answer(o, q) == CASE q.m = "cdf" -> Cdf(o, q.k)
                  [] q.m = "sf" -> Sf(o, q.k)
                  [] q.m = "mass" -> Mass(o, q.j, q.k)
                  [] q.m = "ppf" -> Ppf(o, q.u)
(* n draws fall into m equal shares of the log range about equally often     *)
EvenCounts(c, n, m) == \A i \in 1..m : (c[i] * m - n) * (c[i] * m - n) <= 36 * n * (m - 1)
----------------------------------------------------------------------------
Make(lo, hi) == objs' = Append(objs, [lo |-> lo, hi |-> hi]) /\ UNCHANGED log
Ask(i, q) == i \in DOMAIN objs /\ log' = Append(log, [i |-> i, q |-> q, ans |-> Answer(objs[i], q)]) /\ UNCHANGED objs
----------------------------------------------------------------------------
Last == objs[Len(objs)]
Place == Last.lo..Last.hi
Monotone == objs # <<>> => \A k \in Place : \A j \in Last.lo..k : RLe(Cdf(Last, j), Cdf(Last, k))
Whole == objs # <<>> => Cdf(Last, Last.lo) = <<0, 1>> /\ Cdf(Last, Last.hi) = <<1, 1>>
\* equal ratios are equally likely
EvenMass == objs # <<>> => \A s \in 0..(Last.hi - Last.lo) : \A j, k \in Last.lo..(Last.hi - s) : Mass(Last, j, j + s) = Mass(Last, k, k + s)
Inverse == objs # <<>> => \A k \in Place : Ppf(Last, Cdf(Last, k)) = <<k, 1>>
UnitBlind == objs # <<>> => \A k \in Place, s \in {1, 5} : Cdf([lo |-> Last.lo + s, hi |-> Last.hi + s], k + s) = Cdf(Last, k)
Reciprocal == objs # <<>> => \A k \in Place : Cdf([lo |-> 0 - Last.hi, hi |-> 0 - Last.lo], 0 - k) = Sf(Last, k)
\* a narrower range is the wider one given that the number lies in it
Narrowed == objs # <<>> => \A l \in Place : \A h \in (l + 1)..Last.hi : \A k \in l..h :
               Cdf([lo |-> l, hi |-> h], k) = RDiv(Mass(Last, l, k), Mass(Last, l, h))
OwnRange == \A i \in DOMAIN log : log[i].ans = Answer(objs[log[i].i], log[i].q)
=============================================================================
