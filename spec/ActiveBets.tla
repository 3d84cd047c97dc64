------------------------------ MODULE ActiveBets ----------------------------
(* The bets open at each time. A bet has a start, an end (0: never ends) and *)
(* a signed size; Tick moves to the next time at which any bet starts or     *)
(* ends, closing bets before opening new ones. The order in which bets are   *)
(* listed has no meaning.                                                    *)
EXTENDS Util, Rat
VARIABLES bets,  \* sequence of [s, e, z]
          now, open, out   \* out: [t |-> time, on |-> open bets]
abvars == <<bets, now, open, out>>
Times == {bets[i].s : i \in 1..Len(bets)} \cup ({bets[i].e : i \in 1..Len(bets)} \ {0})
Later == UNION {{t \in {bets[i].s, bets[i].e} : t # 0 /\ t > now} : i \in 1..Len(bets)}
Tick == /\ Later # {}
        /\ \E t \in {SetMin(Later)} :
           /\ now' = t
           /\ open' = {i \in open : bets[i].e = 0 \/ bets[i].e > t}
                      \cup {i \in 1..Len(bets) : bets[i].s = t /\ (bets[i].e = 0 \/ bets[i].e > t)}
           /\ out' = Append(out, [t |-> t, on |-> open'])
        /\ UNCHANGED bets
MeanOf(on) == IF on = {} THEN <<0, 1>>
              ELSE LET q == SortSet(on) IN RDiv(RSum([k \in 1..Len(q) |-> bets[q[k]].z]), RInt(Len(q)))
---------------------------------------------------------------------------
OpenAt(t) == {i \in 1..Len(bets) : bets[i].s <= t /\ (bets[i].e = 0 \/ t < bets[i].e)}
ActiveDeclarative == \A k \in 1..Len(out) : out[k].on = OpenAt(out[k].t)
OneRowPerTime == /\ \A k \in 1..(Len(out) - 1) : out[k].t < out[k+1].t
                 /\ Later = {} => {out[k].t : k \in 1..Len(out)} = Times
BoundedMean == \A k \in 1..Len(out) : out[k].on # {} =>
                  LET V == {bets[i].z : i \in out[k].on} IN
                  /\ \E v \in V : RLe(v, MeanOf(out[k].on)) /\ \E w \in V : RLe(MeanOf(out[k].on), w)
=============================================================================
