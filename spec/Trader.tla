------------------------------- MODULE Trader -------------------------------
(* A strategy trader used through any sequence of calls on several data      *)
(* sets. data[x] = [dup, bars]; a bar is [v |-> volatility defined,          *)
(* sig |-> <<>> or <<side, size>> (rationals)]. Barriers are expressed as    *)
(* multiples of the bar's volatility (of 1 when not volatility adjusted).    *)
EXTENDS Util, Rat
VARIABLES cfg,    \* [sl, pt : rational, n : bars, adj : BOOLEAN, close : closing model's answer]
          data,
          valid,  \* "unknown", "yes", "no"
          log     \* [op, x, res] of every call so far
tdvars == <<cfg, data, valid, log>>
Allowed == {"all", "long", "short", "none"}
NoModel == "nomodel"

Rows(x) == 1..Len(data[x].bars)
SignalOf(x) == {[t |-> i, side |-> data[x].bars[i].sig[1], size |-> data[x].bars[i].sig[2]] :
                 i \in {j \in Rows(x) : data[x].bars[j].sig # <<>>}}
Fits(lo, hi, r) == RLe(lo, r) /\ RLe(r, hi)
ValidOf(x) == IF \A r \in SignalOf(x) : /\ Fits(RInt(0), RInt(1), r.size)
                                        /\ Fits(RInt(-1), RInt(1), r.side)
              THEN "yes" ELSE "no"
Barrier(x, i, f) == IF cfg.adj /\ ~data[x].bars[i].v THEN RNaN ELSE f
BarsOf(x) == {[t |-> i, sl |-> Barrier(x, i, cfg.sl), pt |-> Barrier(x, i, cfg.pt), n |-> cfg.n] : i \in Rows(x)}
PositionsOf(x) == {[t |-> i, sl |-> Barrier(x, i, cfg.sl), pt |-> Barrier(x, i, cfg.pt), n |-> cfg.n,
                    sig |-> data[x].bars[i].sig] : i \in Rows(x)}
Error == [kind |-> "error", rows |-> {}, ans |-> ""]
Result(op, x) == IF op = "close" THEN
                      IF cfg.close = NoModel THEN [kind |-> "close", rows |-> {}, ans |-> "none"]
                      ELSE IF cfg.close \in Allowed THEN [kind |-> "close", rows |-> {}, ans |-> cfg.close]
                      ELSE Error
                 ELSE IF data[x].dup THEN Error
                 ELSE [kind |-> "rows", ans |-> "", rows |->
                        IF op = "signal" THEN SignalOf(x) ELSE IF op = "bars" THEN BarsOf(x) ELSE PositionsOf(x)]
Call(op, x) == /\ log' = Append(log, [op |-> op, x |-> x, res |-> Result(op, x)])
               /\ valid' = IF op \in {"signal", "position"} /\ ~data[x].dup THEN ValidOf(x) ELSE valid
               /\ UNCHANGED <<cfg, data>>
---------------------------------------------------------------------------
Signals == {i \in 1..Len(log) : log[i].op \in {"signal", "position"} /\ log[i].res.kind = "rows"}
FlagIsLatest == valid = IF Signals = {} THEN "unknown" ELSE ValidOf(log[SetMax(Signals)].x)
Repeatable == \A i, j \in 1..Len(log) : log[i].op = log[j].op /\ log[i].x = log[j].x => log[i].res = log[j].res
PositionJoinsSignalAndBars == \A x \in 1..Len(data) :
    /\ {[t |-> r.t, sl |-> r.sl, pt |-> r.pt, n |-> r.n] : r \in PositionsOf(x)} = BarsOf(x)
    /\ {[t |-> r.t, side |-> r.sig[1], size |-> r.sig[2]] : r \in {q \in PositionsOf(x) : q.sig # <<>>}} = SignalOf(x)
DataUntouched == [][data' = data]_<<log>>
=============================================================================
