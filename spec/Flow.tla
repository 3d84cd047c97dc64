-------------------------------- MODULE Flow --------------------------------
(* The research flow end to end, composed of the component machines: every   *)
(* bar feeds the filter, the side rule and the barriers at once; the sampled *)
(* bars whose event has ended with a label become the events, which are      *)
(* swept for concurrency, split for cross-validation and averaged as bets.   *)
(* No stage reinterprets what an earlier one decided.                        *)
EXTENDS Util, Rat, TLC
VARIABLES par,                              \* [h, n, pt, sl, fast, slow, explab, withbars, G, k, emb]
          tbp, macfg, cfg,                  \* the parts of it the components are given
          phase,                            \* "feed", "sweep", "split", "bet", "done"
          h, xs, up, dn, sel,               \* the filter
          rel, held, sides,                 \* the side rule
          tbars, tev,                       \* the barriers
          evs, bars, grid, pos, active, conc, cols,   \* concurrency
          smp, splits, used, paths,         \* cross-validation
          bets, now, open, out              \* averaged bets
cuv == <<h, xs, up, dn, sel>>
mav == <<rel, held, sides>>
tbv == <<tbars, tev>>
ccv == <<evs, bars, grid, pos, active, conc, cols>>
cvv == <<smp, splits, used, paths>>
abv == <<bets, now, open, out>>
pars == <<par, tbp, macfg, cfg>>
flowvars == <<pars, phase, cuv, mav, tbv, ccv, cvv, abv>>

tbpOf(c) == [n |-> c.n, ptn |-> c.pt[1], ptd |-> c.pt[2], sln |-> c.sl[1], sld |-> c.sl[2], u |-> 1, s |-> 1, exact |-> TRUE]
macfgOf(c) == [fast |-> c.fast, slow |-> c.slow]
cfgOf(c) == [G |-> c.G, k |-> c.k, emb |-> c.emb]
Filter == INSTANCE Cusum
Sides == INSTANCE MaCross WITH cfg <- macfg, out <- sides, Hole <- -99
Barrier == INSTANCE TripleBarrier WITH p <- tbp, bars <- tbars, ev <- tev
Sweep == INSTANCE Concurrency
Cv == INSTANCE Cpcv
Bets == INSTANCE ActiveBets
---------------------------------------------------------------------------
FlowInit(c) == /\ par = c /\ tbp = tbpOf(c) /\ macfg = macfgOf(c) /\ cfg = cfgOf(c) /\ phase = "feed"
               /\ h = c.h /\ xs = <<>> /\ up = 0 /\ dn = 0 /\ sel = <<>>
               /\ rel = 9 /\ held = 0 /\ sides = <<>> /\ tbars = <<>> /\ tev = <<>>
               /\ Sweep!CInit
               /\ smp = <<>> /\ splits = <<>> /\ used = {} /\ paths = <<>>
               /\ bets = <<>> /\ now = 0 /\ open = {} /\ out = <<>>
FlowReset(c) == /\ par' = c /\ tbp' = tbpOf(c) /\ macfg' = macfgOf(c) /\ cfg' = cfgOf(c) /\ phase' = "feed"
                /\ h' = c.h /\ xs' = <<>> /\ up' = 0 /\ dn' = 0 /\ sel' = <<>>
                /\ rel' = 9 /\ held' = 0 /\ sides' = <<>> /\ tbars' = <<>> /\ tev' = <<>>
                /\ Sweep!Reset
                /\ smp' = <<>> /\ splits' = <<>> /\ used' = {} /\ paths' = <<>>
                /\ bets' = <<>> /\ now' = 0 /\ open' = {} /\ out' = <<>>
(* one bar for all three *)
Bar(x) == /\ phase = "feed"
          /\ Filter!Feed(x)
          /\ rel' = Sides!Relation(xs')
          /\ LET c == IF rel = 9 \/ rel' = 9 THEN 0 ELSE IF rel <= 0 /\ rel' = 1 THEN 1 ELSE IF rel >= 0 /\ rel' = -1 THEN -1 ELSE 0
             IN held' = (IF c # 0 THEN c ELSE held) /\ sides' = Append(sides, [cross |-> c, fill |-> held'])
          /\ LET k == Len(tbars) + 1
                 settled == [i \in 1..Len(tev) |-> Barrier!SettleEv(i, k - 1)]
                 expired == [i \in 1..Len(tev) |-> IF i = k - par.n /\ settled[i].st = "open" THEN [st |-> "exp", end |-> k] ELSE settled[i]]
             IN /\ tbars' = Append(tbars, [c |-> x, sd |-> held', v |-> 1])
                /\ tev' = Append(expired, [st |-> "open", end |-> 0])
          /\ UNCHANGED <<pars, phase, ccv, cvv, abv>>
(* the events: sampled bars that have a label *)
Lab(i) == Barrier!LabelOf(i, TRUE, par.explab)
Picked == SelectSeq(sel, LAMBDA i : tev[i].end # 0 /\ Lab(i) # RNaN)
Size(i) == R(tbars[i].sd * ((i % 3) + 1), 4)        \* any size that is the bar's own
Collect == /\ phase = "feed" /\ xs # <<>>
           /\ evs' = [j \in 1..Len(Picked) |-> [s |-> Picked[j], e |-> tev[Picked[j]].end]]
           /\ smp' = [j \in 1..Len(Picked) |-> [p |-> Picked[j], e |-> tev[Picked[j]].end]]
           /\ bets' = [j \in 1..Len(Picked) |-> [s |-> Picked[j], e |-> tev[Picked[j]].end, z |-> Size(Picked[j])]]
           /\ bars' = IF par.withbars THEN 1..Len(xs) ELSE {}
           /\ phase' = IF Picked = <<>> THEN "done" ELSE "sweep"
           /\ UNCHANGED <<pars, cuv, mav, tbv, grid, pos, active, conc, cols, splits, used, paths, now, open, out>>
DoSweep == /\ phase = "sweep" /\ (Sweep!Seal \/ Sweep!Step)
           /\ UNCHANGED <<pars, phase, cuv, mav, tbv, cvv, abv>>
Swept == /\ phase = "sweep" /\ Sweep!Swept
         /\ phase' = IF Len(evs) >= par.G THEN "split" ELSE "bet"
         /\ UNCHANGED <<pars, cuv, mav, tbv, ccv, cvv, abv>>
Left == {F \in Cv!Combos : \A s \in Range(splits) : s.test # Cv!TestOf(F)}
DoSplit == /\ phase = "split" /\ Left # {}
           /\ LET F == IF splits = <<>> THEN Cv!FirstCombo ELSE CHOOSE x \in Left : TRUE IN Cv!DoSplit(F)
           /\ UNCHANGED <<pars, phase, cuv, mav, tbv, ccv, abv>>
Split == /\ phase = "split" /\ Left = {} /\ phase' = "bet"
         /\ UNCHANGED <<pars, cuv, mav, tbv, ccv, cvv, abv>>
Tick == /\ phase = "bet" /\ Bets!Tick /\ UNCHANGED <<pars, phase, cuv, mav, tbv, ccv, cvv>>
Finish == /\ phase = "bet" /\ Bets!Later = {} /\ phase' = "done"
          /\ UNCHANGED <<pars, cuv, mav, tbv, ccv, cvv, abv>>
Inside == DoSweep \/ Swept \/ DoSplit \/ Split \/ Tick \/ Finish
---------------------------------------------------------------------------
(* What holds across the stages *)
Reads(j) == evs[j].s..evs[j].e                \* bars that decide event j
Done == phase = "done"
NoBarShared == Done => \A s \in Range(splits) : \A a \in s.train, b \in s.test : Reads(a) \cap Reads(b) = {}
(* the uniqueness of all events adds up to the rows they cover *)
Conserved == (Done /\ evs # <<>>) =>
    RSum([j \in 1..Len(evs) |-> RMul(Sweep!Uniq(j), RInt(Len(cols[j])))])
      = RInt(Cardinality({r \in 1..Len(grid) : conc[r] > 0}))
AloneIsUnique == (Done /\ evs # <<>>) => \A j \in 1..Len(evs) :
    (\A k \in 1..Len(cols[j]) : Sweep!ConcOf(j)[k] = 1) <=> \A i \in 1..Len(evs) : i # j => Reads(i) \cap Reads(j) = {}
(* a bet is open exactly on its event's rows but the last *)
OpenIsActive == Done => \A k \in 1..Len(out) : \A j \in 1..Len(evs) :
    j \in out[k].on <=> (out[k].t \in Reads(j) /\ out[k].t # evs[j].e)
EventsSampled == Done => \A j \in 1..Len(evs) : evs[j].s \in Range(sel) /\ evs[j].e > evs[j].s /\ evs[j].e <= Min2(evs[j].s + par.n, Len(xs))
WonIfSideRight == Done => \A j \in 1..Len(evs) : LET m == tbars[evs[j].s].sd * (tbars[evs[j].e].c - tbars[evs[j].s].c) IN
    Lab(evs[j].s) = <<1, 1>> => m > 0
(* what is decided stays decided as bars arrive *)
Decided == {<<i, sides[i].fill, tev[i].end, Lab(i)>> : i \in {x \in Range(sel) : tev[x].end # 0}}
Causal == [][(phase = "feed" /\ Len(xs') > Len(xs)) => Decided \subseteq Decided']_flowvars
---------------------------------------------------------------------------
(* what every stage handed on *)
Answer == [sel |-> sel, side |-> [i \in 1..Len(sides) |-> sides[i].fill],
           end |-> [i \in 1..Len(tev) |-> tev[i].end], lab |-> [i \in 1..Len(tev) |-> Lab(i)],
           ev |-> evs, grid |-> grid, cols |-> cols,
           conc |-> [j \in 1..Len(evs) |-> Sweep!ConcOf(j)], terms |-> [j \in 1..Len(evs) |-> Sweep!RetTerms(j)],
           splits |-> {[test |-> SortSet(s.test), train |-> SortSet(s.train)] : s \in Range(splits)},
           active |-> [k \in 1..Len(out) |-> [t |-> out[k].t, on |-> SortSet(out[k].on)]]]
=============================================================================
