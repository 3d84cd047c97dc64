---------------------------- MODULE Trace_Bagging ---------------------------
(* A case is a history of fits of several ensemble objects that share data   *)
(* keys and a seed. known remembers, per key and position, the member seen   *)
(* first: every later ensemble must show the same one there.                 *)
EXTENDS Bagging, TraceKit
VARIABLES l, known, mem     \* mem: members of the fit being reported
E == Trace[l]
S(seq) == {seq[i] : i \in 1..Len(seq)}
TInit == /\ l = 1 /\ known = {} /\ mem = <<>>
         /\ members = <<>> /\ phase = "idle" /\ todo = <<>> /\ built = <<>> /\ goal = 0
CountIn(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
\* E: member event [pos, id, key, kept, bag, cnt, feats, tfeats, y, draws, nfeat, rep, nrow]
JudgeMember ==
    LET K == {k \in known : k[1] = E.key /\ k[2] = E.pos} IN
    /\ Clause(E.c, "same member for the same data, seed and position", \A k \in K : k[3] = E.id,
              [pos |-> E.pos, fit |-> E.fit, id |-> E.id], {k[3] : k \in K})
    /\ Clause(E.c, "earlier members are kept, not refitted", E.kept, E.pos, "")
    /\ Clause(E.c, "number of rows drawn", Len(E.bag) = E.draws /\ \A x \in S(E.bag) : x \in 1..E.nrow, E.bag, E.draws)
    /\ Clause(E.c, "trained on exactly the rows of its bootstrap",
              Len(E.cnt) = E.nrow /\ \A r \in 1..E.nrow : E.cnt[r] = CountIn(E.bag, r), E.cnt, E.bag)
    /\ Clause(E.c, "trained on exactly the reported features", E.feats = E.tfeats, E.tfeats, E.feats)
    /\ Clause(E.c, "number of features drawn", Len(E.feats) = E.nfeat /\ (E.rep \/ Cardinality(S(E.feats)) = E.nfeat), E.feats, E.nfeat)
    /\ Clause(E.c, "targets belong to the rows", E.y, E.pos, "")
JudgeOob ==
    LET bags == [m \in 1..Len(mem) |-> S(mem[m].bag)]
        votes == [m \in 1..Len(mem) |-> mem[m].votes]
        K == E.k
        N == Len(E.dec)
        bad == {r \in 1..N : E.dec[r] # Decision(bags, votes, r, K)}
        win == [r \in 1..N |-> Winners(bags, votes, r, K)]
        dec == [r \in 1..N |-> Decision(bags, votes, r, K)[1] # RNaN]
        sure == Cardinality({r \in 1..N : dec[r] /\ win[r] = {E.y[r]}})
        amb == Cardinality({r \in 1..N : ~dec[r] \/ (Cardinality(win[r]) > 1 /\ E.y[r] \in win[r])})
    IN /\ Clause(E.c, "out-of-bag decision", bad = {}, [row |-> IF bad = {} THEN 0 ELSE SetMin(bad), got |-> E.dec],
                 IF bad = {} THEN <<>> ELSE Decision(bags, votes, SetMin(bad), K))
       /\ Clause(E.c, "out-of-bag score", E.score >= sure /\ E.score <= sure + amb, E.score, <<sure, amb>>)
       /\ Say("STAT", [oob_rows |-> N, oob_ties |-> amb])
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED bgvars
         /\ \/ E.e = "start" /\ known' = {} /\ mem' = <<>>
            \/ /\ E.e = "fit" /\ mem' = <<>> /\ UNCHANGED known
               /\ Clause(E.c, "number of members", E.n = E.got, E.got, E.n)
            \/ /\ E.e = "member" /\ JudgeMember
               /\ known' = known \cup {<<E.key, E.pos, E.id>>} /\ mem' = Append(mem, [bag |-> E.bag, votes |-> E.votes])
            \/ E.e = "oob" /\ JudgeOob /\ UNCHANGED <<known, mem>>
TSpec == TInit /\ [][TNext]_<<bgvars, l, known, mem>>
Consumed == Say("DONE", [n |-> TLCGet("stats").diameter - 1])
=============================================================================
