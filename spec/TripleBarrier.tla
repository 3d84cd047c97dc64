---------------------------- MODULE TripleBarrier ---------------------------
(* Triple-barrier labelling as a streaming machine: one AppendBar per bar.   *)
(* The last bar of the data is never a horizontal touch for an event whose   *)
(* vertical barrier is not inside the data, so a bar is settled (tested      *)
(* against the horizontal barriers of the open events) when its successor    *)
(* arrives.                                                                  *)
EXTENDS Util, Rat
NoSide == 99      \* a bar without a side: nothing is won or lost on it
VARIABLES p,      \* parameters: n, ptn/ptd, sln/sld (factors), s (volatility scale), exact, u (sides are in units of 1/u)
          bars,   \* bars so far: [c |-> close, sd |-> side * p.u, v |-> volatility * p.s, -1 = undefined]
          ev      \* per bar: [st, end]; st \in {"open","pt","sl","exp","novol","amb"}
tbvars == <<p, bars, ev>>

Start(par) == p' = par /\ bars' = <<>> /\ ev' = <<>>

(* side-signed move since the event against factor * volatility, both scaled *)
Move(i, j) == bars[i].sd * (bars[j].c - bars[i].c) * p.s
Touch(i, j, fn, fd, dir) ==      \* "yes" / "no" / "amb"
    IF fn <= 0 \/ bars[i].sd = NoSide THEN "no"
    ELSE LET lhs == dir * Move(i, j) * fd
             rhs == fn * bars[i].v * bars[i].c * p.u
             mrg == IF p.exact THEN 0 ELSE fn * bars[i].c * p.u
         IN IF lhs > rhs + mrg THEN "yes"
            ELSE IF p.exact \/ lhs < rhs - mrg THEN "no" ELSE "amb"

\* settle bar j (the bar before the one being appended) for event i
SettleEv(i, j) ==
    IF ev[i].st # "open" THEN ev[i]
    ELSE LET up == Touch(i, j, p.ptn, p.ptd, 1)
             dn == Touch(i, j, p.sln, p.sld, -1)
         IN IF up = "amb" \/ dn = "amb" THEN [st |-> "amb", end |-> 0]
            ELSE IF up = "yes" THEN [st |-> "pt", end |-> j]
            ELSE IF dn = "yes" THEN [st |-> "sl", end |-> j]
            ELSE ev[i]

AppendBar(b) ==
    LET k == Len(bars) + 1
        settled == [i \in 1..Len(ev) |-> SettleEv(i, k - 1)]
        expired == [i \in 1..Len(ev) |->
                      IF i = k - p.n /\ settled[i].st = "open" THEN [st |-> "exp", end |-> k] ELSE settled[i]]
        new == IF b.v < 0 THEN [st |-> "novol", end |-> 0] ELSE [st |-> "open", end |-> 0]
    IN /\ bars' = Append(bars, b)
       /\ ev' = Append(expired, new)
       /\ UNCHANGED p

---------------------------------------------------------------------------
(* What the caller sees for bar i *)
EndOf(i) == ev[i].end                     \* 0: none
RetOf(i, meta) == IF ev[i].end = 0 THEN RNaN
                  ELSE LET r == R(bars[ev[i].end].c - bars[i].c, bars[i].c)
                       IN IF ~meta THEN r ELSE IF bars[i].sd = NoSide THEN RNaN ELSE RMul(R(bars[i].sd, p.u), r)
LabelOf(i, meta, explab) ==               \* as rational; NaN = none
    IF ev[i].end = 0 THEN RNaN
    ELSE IF explab /\ ev[i].st = "exp" THEN <<0, 1>>
    ELSE LET r == RetOf(i, meta) IN
         IF r = RNaN THEN RNaN ELSE IF ~meta THEN <<RSign(r), 1>>
         ELSE IF RSign(r) > 0 THEN <<1, 1>> ELSE IF RSign(r) < 0 THEN <<0, 1>> ELSE RNaN

---------------------------------------------------------------------------
(* Declarative reading: first touch strictly before the vertical barrier (or *)
(* before the last bar), else the vertical barrier if it is in the data.     *)
Hits(i, dir, fn, fd) == {j \in i..(Min2(i + p.n, Len(bars)) - 1) : Touch(i, j, fn, fd, dir) = "yes"}
Cand(i) == Hits(i, 1, p.ptn, p.ptd) \cup Hits(i, -1, p.sln, p.sld)
           \cup (IF i + p.n <= Len(bars) THEN {i + p.n} ELSE {})
EndIsFirstBarrier ==
    p.exact => \A i \in 1..Len(bars) :
        IF bars[i].v < 0 THEN ev[i].st = "novol" /\ ev[i].end = 0
        ELSE /\ ev[i].st # "amb"
             /\ ev[i].end = (IF Cand(i) = {} THEN 0 ELSE SetMin(Cand(i)))
             /\ ev[i].st = "exp" <=> ev[i].end = i + p.n
             /\ ev[i].st = "open" <=> ev[i].end = 0
WellFormed == /\ Len(ev) = Len(bars)
              /\ \A i \in 1..Len(ev) : ev[i].end # 0 => ev[i].end > i /\ ev[i].end <= Min2(i + p.n, Len(bars))
NoSideNoTouch == \A i \in 1..Len(ev) : bars[i].sd = NoSide =>
    /\ ev[i].st \in {"open", "exp", "novol"}
    /\ RetOf(i, TRUE) = RNaN /\ LabelOf(i, TRUE, FALSE) = RNaN
LabelSigns == \A i \in 1..Len(ev) :
    /\ LabelOf(i, FALSE, FALSE) \in {RNaN, <<1,1>>, <<0,1>>, <<-1,1>>}
    /\ LabelOf(i, TRUE, TRUE) \in {RNaN, <<1,1>>, <<0,1>>}
    /\ ev[i].st \in {"pt"} => LabelOf(i, TRUE, TRUE) = <<1,1>>
    /\ ev[i].st \in {"sl"} => LabelOf(i, TRUE, FALSE) = <<0,1>>
\* action property: later bars never revise a resolved event
Stable == [][Len(bars') > Len(bars) => \A i \in 1..Len(ev) : ev[i].st # "open" => ev'[i] = ev[i]]_tbvars
=============================================================================
