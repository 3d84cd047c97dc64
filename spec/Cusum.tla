-------------------------------- MODULE Cusum -------------------------------
(* The symmetric CUSUM filter as a streaming machine: one Append per bar.    *)
(* Values are integers (the harness scales dyadic floats exactly).           *)
EXTENDS Util
VARIABLES h,      \* threshold
          xs,     \* values read so far
          up,     \* upward accumulator  (>= 0)
          dn,     \* downward accumulator (<= 0)
          sel     \* positions selected so far
cvars == <<h, xs, up, dn, sel>>

Start(th) == /\ h' = th /\ xs' = <<>> /\ up' = 0 /\ dn' = 0 /\ sel' = <<>>

AppendFirst(x) == /\ xs = <<>> /\ xs' = <<x>> /\ UNCHANGED <<h, up, dn, sel>>

NewUp(x) == Max2(0, up + x - LastOf(xs))
NewDn(x) == Min2(0, dn + x - LastOf(xs))

\* the downward sum has fallen below -h: select, reset it alone
SelectDown(x) == /\ xs # <<>> /\ NewDn(x) < -h
                 /\ xs' = Append(xs, x) /\ up' = NewUp(x) /\ dn' = 0
                 /\ sel' = Append(sel, Len(xs) + 1) /\ UNCHANGED h
SelectUp(x) == /\ xs # <<>> /\ ~(NewDn(x) < -h) /\ NewUp(x) > h
               /\ xs' = Append(xs, x) /\ up' = 0 /\ dn' = NewDn(x)
               /\ sel' = Append(sel, Len(xs) + 1) /\ UNCHANGED h
Pass(x) == /\ xs # <<>> /\ ~(NewDn(x) < -h) /\ ~(NewUp(x) > h)
           /\ xs' = Append(xs, x) /\ up' = NewUp(x) /\ dn' = NewDn(x) /\ UNCHANGED <<h, sel>>
Feed(x) == AppendFirst(x) \/ SelectDown(x) \/ SelectUp(x) \/ Pass(x)

---------------------------------------------------------------------------
(* Declarative reading, independent of the accumulators: a time is a down    *)
(* (up) selection when the series stands more than h below (above) its       *)
(* maximum (minimum) since the last selection of the same kind.              *)
Drawdown(k, from) == SetMax({xs[j] : j \in from..k}) - xs[k]
Drawup(k, from) == xs[k] - SetMin({xs[j] : j \in from..k})
\* <<last down selection, last up selection, selections>> after k bars
RECURSIVE Decl(_)
Decl(k) == IF k <= 1 THEN [d |-> 1, u |-> 1, s |-> <<>>]
           ELSE LET p == Decl(k - 1) IN
             IF Drawdown(k, p.d) > h THEN [p EXCEPT !.d = k, !.s = Append(@, k)]
             ELSE IF Drawup(k, p.u) > h THEN [p EXCEPT !.u = k, !.s = Append(@, k)]
             ELSE p
SelIsDeclarative == sel = Decl(Len(xs)).s
Shape == /\ up >= 0 /\ dn <= 0
         /\ \A i \in DOMAIN sel : sel[i] > 1 /\ sel[i] <= Len(xs)
         /\ \A i \in 1..(Len(sel)-1) : sel[i] < sel[i+1]
Bounded == h >= 0 => up <= h /\ dn >= -h
\* action property: earlier selections are never revised
PrefixClosed == [][xs' # <<>> => IsPrefixOf(sel, sel')]_cvars
=============================================================================
