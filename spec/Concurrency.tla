----------------------------- MODULE Concurrency ----------------------------
(* Concurrency of labelled events. Events [s, e] and price bars are          *)
(* collected, then a sweep over the time grid opens the events that start,   *)
(* counts the active ones, and closes those that end (Step). Everything the  *)
(* code reports -- indicator matrix, average uniqueness, return weights,     *)
(* time decay -- is read off the finished sweep.                             *)
EXTENDS Util, Rat
VARIABLES evs,     \* events in the caller's order: [s, e]
          bars,    \* set of price bar times
          grid,    \* sorted time grid, <<>> until sealed
          pos,     \* grid rows swept so far
          active,  \* events active at the last swept row
          conc,    \* per swept row: number of active events
          cols     \* per event: rows on which it is active
ccvars == <<evs, bars, grid, pos, active, conc, cols>>

CInit == /\ evs = <<>> /\ bars = {} /\ grid = <<>> /\ pos = 0
         /\ active = {} /\ conc = <<>> /\ cols = <<>>
Reset == /\ evs' = <<>> /\ bars' = {} /\ grid' = <<>> /\ pos' = 0
         /\ active' = {} /\ conc' = <<>> /\ cols' = <<>>
AddEvent(x) == /\ grid = <<>> /\ x.e >= x.s
               /\ evs' = Append(evs, x) /\ UNCHANGED <<bars, grid, pos, active, conc, cols>>
AddBar(t) == /\ grid = <<>> /\ bars' = bars \cup {t} /\ UNCHANGED <<evs, grid, pos, active, conc, cols>>
First == SetMin({evs[i].s : i \in DOMAIN evs})
Last  == SetMax({evs[i].e : i \in DOMAIN evs})
Seal == /\ grid = <<>> /\ evs # <<>>
        /\ grid' = SortSet({evs[i].s : i \in DOMAIN evs} \cup {evs[i].e : i \in DOMAIN evs}
                           \cup {t \in bars : First <= t /\ t <= Last})
        /\ cols' = [i \in DOMAIN evs |-> <<>>]
        /\ UNCHANGED <<evs, bars, pos, active, conc>>
Step == /\ pos < Len(grid)
        /\ LET t == grid[pos + 1]
               opened == active \cup {i \in DOMAIN evs : evs[i].s = t}
           IN /\ conc' = Append(conc, Cardinality(opened))
              /\ cols' = [i \in DOMAIN evs |-> IF i \in opened THEN Append(cols[i], pos + 1) ELSE cols[i]]
              /\ active' = {i \in opened : evs[i].e > t}
        /\ pos' = pos + 1 /\ UNCHANGED <<evs, bars, grid>>
Swept == grid # <<>> /\ pos = Len(grid)
---------------------------------------------------------------------------
(* Readings *)
Uniq(i) == RDiv(RSum([k \in 1..Len(cols[i]) |-> <<1, conc[cols[i][k]]>>]), RInt(Len(cols[i])))
ConcOf(i) == [k \in 1..Len(cols[i]) |-> conc[cols[i][k]]]
RowAt(t) == CHOOSE r \in 1..Len(grid) : grid[r] = t
(* rows of the caller's frame are the events, increasing in time; xs are     *)
(* base-2 logarithms of the close, so a log return is a multiple of ln 2     *)
InputBars(i) == SortSet({j \in DOMAIN evs : evs[i].s <= evs[j].s /\ evs[j].s <= evs[i].e})
RetTerms(i) == LET b == SelectSeq(InputBars(i), LAMBDA j : j > 1)
               IN [k \in 1..Len(b) |-> <<b[k], conc[RowAt(evs[b[k]].s)]>>]
RetWeight(i, xs) == LET T == RetTerms(i)
                    IN RAbs(RSum([k \in 1..Len(T) |-> R(xs[T[k][1]] - xs[T[k][1] - 1], T[k][2])]))
(* cumulative uniqueness in time order *)
TimeOrder == LET S == SortSet({evs[i].s : i \in DOMAIN evs})
             IN [k \in 1..Len(S) |-> CHOOSE i \in DOMAIN evs : evs[i].s = S[k]]
CumUniq == LET o == TimeOrder
               F[k \in 0..Len(o)] == IF k = 0 THEN <<0, 1>> ELSE RAdd(F[k-1], Uniq(o[k]))
           IN [k \in 1..Len(o) |-> F[k]]
Decay(d) ==    \* in time order
    LET cu == CumUniq
        tot == LastOf(cu)
        frac(k) == RDiv(cu[k], tot)
        lin(k) == IF d[1] >= 0 THEN RAdd(d, RMul(RSub(<<1, 1>>, d), frac(k)))
                  ELSE RDiv(RAdd(d, frac(k)), RAdd(d, <<1, 1>>))
    IN [k \in 1..Len(cu) |-> IF lin(k)[1] < 0 THEN <<0, 1>> ELSE lin(k)]
---------------------------------------------------------------------------
Covers(i, r) == evs[i].s <= grid[r] /\ grid[r] <= evs[i].e
Overlap(i, j) == evs[i].s <= evs[j].e /\ evs[j].s <= evs[i].e
MatrixDeclarative == Swept =>
    /\ \A r \in 1..Len(grid) : conc[r] = Cardinality({i \in DOMAIN evs : Covers(i, r)})
    /\ \A i \in DOMAIN evs : cols[i] = SortSet({r \in 1..Len(grid) : Covers(i, r)}) /\ cols[i] # <<>>
GridDeclarative == grid # <<>> =>
    /\ \A r \in 1..(Len(grid) - 1) : grid[r] < grid[r + 1]
    /\ grid[1] = First /\ LastOf(grid) = Last
    /\ \A t \in bars : First <= t /\ t <= Last => t \in Range(grid)
UniqueIffAlone == Swept => \A i \in DOMAIN evs :
    /\ RLt(<<0, 1>>, Uniq(i)) /\ RLe(Uniq(i), <<1, 1>>)
    /\ (Uniq(i) = <<1, 1>>) <=> \A j \in DOMAIN evs \ {i} : ~Overlap(i, j)
DecayShape(d) == LET w == Decay(d)
                     cu == CumUniq IN
    /\ LastOf(w) = <<1, 1>>
    /\ \A k \in 1..Len(w) : w[k][1] >= 0 /\ RLe(w[k], <<1, 1>>)
    /\ \A k \in 1..(Len(w) - 1) : RLe(w[k], w[k + 1])
    /\ d = <<1, 1>> => \A k \in 1..Len(w) : w[k] = <<1, 1>>
    /\ d[1] > 0 => \A k \in 1..Len(w) : RLt(d, w[k]) \/ d = <<1, 1>>
    /\ d[1] < 0 => \A k \in 1..Len(w) :
          w[k][1] = 0 <=> RLe(RDiv(cu[k], LastOf(cu)), RNeg(d))
=============================================================================
