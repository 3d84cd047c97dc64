------------------------------- MODULE Features -----------------------------
(* Windowed market features as a streaming machine. Every bar contributes    *)
(* one term (a vector of exact numbers, or none); the machine keeps rolling  *)
(* sums by adding the newest term and removing the one that leaves, and the  *)
(* exponential features keep a weighted numerator and denominator.           *)
(* Prices are powers of two (c, h, l are exponents), quote volumes powers of *)
(* four (q exponent), so that logarithms are integers (base 2).              *)
EXTENDS Util, Rat
VARIABLES cfg,   \* [kind, w] or [kind, fast, slow]
          bars,
          acc,   \* rolling sums / exponential sums
          out    \* per bar <<>> (undefined) or a sequence of rationals
fevars == <<cfg, bars, acc, out>>
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
P2(k) == IF k >= 0 THEN RInt(Pow(2, k)) ELSE R(1, Pow(2, -k))
I(n) == RInt(n)
Sq(n) == n * n
Expo == cfg.kind \in {"ewmd", "imb"}
(* two-bar range (Corwin-Schultz gamma, in squared binary logarithms) *)
Gamma(b, t) == Sq(Max2(b[t].h, b[t - 1].h) - Min2(b[t].l, b[t - 1].l))
Term(b, t) ==
    LET x == b[t] IN
    CASE cfg.kind = "roll"  -> IF t < 3 THEN <<>> ELSE
            LET a == Pow(2, x.c) - Pow(2, b[t-1].c) d == Pow(2, b[t-1].c) - Pow(2, b[t-2].c) IN <<I(a), I(d), I(a * d)>>
      [] cfg.kind = "park"  -> <<I(Sq(x.h - x.l))>>
      [] cfg.kind = "cs"    -> IF t < 2 THEN <<>> ELSE <<I(Sq(x.h - x.l) + Sq(b[t-1].h - b[t-1].l))>>
      [] cfg.kind = "lam"   -> IF t < 2 THEN <<>> ELSE
            <<RMul(I(Abs(Pow(2, x.c) - Pow(2, b[t-1].c))), P2(-x.v)),
              RMul(I(Abs(x.c - b[t-1].c)), P2(-2 * x.q)), RMul(I(Abs(x.c - b[t-1].c)), P2(-x.q))>>
      [] cfg.kind = "vpin"  -> <<I(Abs(x.b - x.s)), I(x.b + x.s)>>
      [] cfg.kind = "zgap"  -> IF t < 2 THEN <<>> ELSE <<I(x.g), I(x.g * x.g)>>
      [] cfg.kind = "zdiff" -> <<I(x.b - x.s), I(Sq(x.b - x.s))>>
      [] cfg.kind = "zsize" -> LET r == RMul(I(x.b), P2(-x.n)) IN <<r, RMul(r, r)>>
      [] cfg.kind = "zhl"   -> LET r == P2(x.h - x.l) IN <<r, RMul(r, r)>>
      [] cfg.kind = "lmax"  -> <<I(0)>>
      [] cfg.kind = "ewmd"  -> <<I(x.x)>>
      [] OTHER              -> <<I(x.b - x.s)>>
VAdd(a, b) == [i \in 1..Len(a) |-> RAdd(a[i], b[i])]
VSub(a, b) == [i \in 1..Len(a) |-> RSub(a[i], b[i])]
(* the feature at bar t from the sums over its window *)
Z(S, x, w) == LET m == RDiv(S[1], I(w))
                  var == RDiv(RSub(S[2], RDiv(RMul(S[1], S[1]), I(w))), I(w - 1))
                  d == RSub(x, m)
              IN IF var[1] = 0 THEN <<>> ELSE <<I(RSign(d)), RDiv(RMul(d, d), var)>>     \* sign and square
Value(S, b, t) ==
    LET w == cfg.w IN
    CASE cfg.kind = "roll" -> <<RDiv(RSub(S[3], RDiv(RMul(S[1], S[2]), I(w))), I(w - 1))>>   \* serial covariance
      [] cfg.kind = "park" -> <<RDiv(S[1], I(w))>>
      [] cfg.kind = "cs"   -> <<RDiv(S[1], I(w)), I(Gamma(b, t))>>
      [] cfg.kind = "lam"  -> <<RDiv(S[1], I(w)), RDiv(S[2], I(w)), RDiv(S[3], I(w))>>
      [] cfg.kind = "vpin" -> IF S[2][1] = 0 THEN (IF t > w THEN <<I(0)>> ELSE <<>>) ELSE <<RDiv(S[1], S[2])>>
      [] cfg.kind \in {"zgap", "zdiff", "zsize", "zhl"} -> Z(S, Term(b, t)[1], w)
      [] OTHER -> <<RMul(I(Pow(2, SetMax({b[j].h : j \in (t - w + 1)..t}))), P2(-b[t].c))>>
NoAcc == [n |-> 0, s |-> <<>>]
Roll(a, b) ==   \* newest term in, oldest out once there are more than w
    LET t == Len(b) T == Term(b, t) IN
    IF T = <<>> THEN a
    ELSE LET s == IF a.n = 0 THEN T ELSE VAdd(a.s, T) IN
         IF a.n < cfg.w THEN [n |-> a.n + 1, s |-> s] ELSE [n |-> a.n, s |-> VSub(s, Term(b, t - cfg.w))]
(* exponential weights (1 - 2/(span+1))^age *)
Keep(span) == R(span - 1, span + 1)
NoExp == [fn |-> I(0), fd |-> I(0), sn |-> I(0), sd |-> I(0)]
Exp(a, x) == [fn |-> RAdd(x, RMul(a.fn, Keep(cfg.fast))), fd |-> RAdd(I(1), RMul(a.fd, Keep(cfg.fast))),
              sn |-> RAdd(x, RMul(a.sn, Keep(cfg.slow))), sd |-> RAdd(I(1), RMul(a.sd, Keep(cfg.slow)))]
ExpValue(a, x) == LET f == RDiv(a.fn, a.fd) s == RDiv(a.sn, a.sd) d == RSub(f, s) IN
                  IF cfg.kind = "ewmd" THEN <<d, IF RAdd(f, I(1))[1] = 0 THEN RNaN ELSE RDiv(d, RAdd(f, I(1)))>>
                  ELSE <<RDiv(d, I(x.b + x.s + 1))>>
AppendBar(x) ==
    /\ bars' = Append(bars, x)
    /\ UNCHANGED cfg
    /\ IF Expo THEN /\ acc' = Exp(acc, Term(bars', Len(bars'))[1])
                    /\ out' = Append(out, ExpValue(acc', x))
       ELSE /\ acc' = Roll(acc, bars')
            /\ out' = Append(out, IF acc'.n = cfg.w THEN Value(acc'.s, bars', Len(bars')) ELSE <<>>)
---------------------------------------------------------------------------
(* declarative: everything again from the window's own bars *)
Lag == CASE cfg.kind = "roll" -> 2 [] cfg.kind \in {"cs", "lam", "zgap"} -> 1 [] OTHER -> 0
DeclSum(t, i) == RSum([k \in 1..cfg.w |-> Term(bars, t - cfg.w + k)[i]])
WindowIsExact == ~Expo => \A t \in {k \in {Len(bars)} : k > 0} :
    IF t < cfg.w + Lag THEN out[t] = <<>>
    ELSE out[t] = Value([i \in 1..Len(Term(bars, t)) |-> DeclSum(t, i)], bars, t)
DeclExp(t, span) == LET q[k \in 0..t] == IF k = 0 THEN I(1) ELSE RMul(q[k - 1], Keep(span)) IN
    RDiv(RSum([k \in 1..t |-> RMul(q[t - k], Term(bars, k)[1])]), RSum([k \in 1..t |-> q[t - k]]))
ExponentialIsWeightedMean == Expo => \A t \in {k \in {Len(bars)} : k > 0} :
    LET d == RSub(DeclExp(t, cfg.fast), DeclExp(t, cfg.slow)) IN
    IF cfg.kind = "ewmd" THEN out[t][1] = d ELSE out[t][1] = RDiv(d, I(bars[t].b + bars[t].s + 1))
(* the value does not change when older bars are different *)
WindowOnly == ~Expo => \A t, u \in 1..Len(bars) :
    (t > u /\ u >= cfg.w + Lag /\ (cfg.kind # "vpin" \/ u > cfg.w) /\ \A k \in 0..(cfg.w + Lag - 1) : bars[t - k] = bars[u - k]) => out[t] = out[u]
VpinInUnit == cfg.kind = "vpin" => \A t \in 1..Len(out) : out[t] # <<>> => RLe(I(0), out[t][1]) /\ RLe(out[t][1], I(1))
ConstantIsNeutral == (Expo /\ \A i \in 1..Len(bars) : bars[i] = bars[1]) => \A t \in 1..Len(out) : out[t][1] = I(0)
LocalMaxAtLeastOne == cfg.kind = "lmax" => \A t \in 1..Len(out) : out[t] # <<>> => (bars[t].h >= bars[t].c => RLe(I(1), out[t][1]))
NeverRevised == [][IsPrefixOf(bars, bars') => IsPrefixOf(out, out')]_fevars
=============================================================================
