-------------------------------- MODULE Purity -------------------------------
(* Calls on transformer objects, and which of their answers have to agree.   *)
(* A configuration is [cls, par, causal]. Data come in families: the frame   *)
(* [root, br, h, cut, extra] holds the first cut rows of branch br of family *)
(* root; branches of a family share their first h rows (the main branch 0    *)
(* shares all it has with itself). extra numbers the variants of the columns *)
(* the transformer does not use. An object carries nothing from one call to  *)
(* the next, so an answer depends on the configuration and the used columns  *)
(* alone, and for a causal transformer row i of it on the rows up to i.      *)
EXTENDS Util
VARIABLES objs,    \* configurations of the objects made so far
          calls    \* calls so far: [o, fr, rows]
puvars == <<objs, calls>>

\* number of leading rows two frames share (used columns)
Common(f, g) ==
    IF f.root # g.root THEN 0
    ELSE IF f.br = g.br THEN Min2(f.cut, g.cut)
    ELSE Min2(Min2(f.cut, g.cut), Min2(IF f.br = 0 THEN f.cut ELSE f.h, IF g.br = 0 THEN g.cut ELSE g.h))
\* number of leading rows on which two answers must agree
Agree(c, d, f, g) ==
    IF c.cls # d.cls \/ c.par # d.par THEN 0
    ELSE LET m == Common(f, g)
         IN IF c.causal THEN m ELSE IF f.cut = g.cut /\ m = f.cut THEN m ELSE 0

New(cfg) == objs' = Append(objs, cfg) /\ UNCHANGED calls
Call(o, fr, rows) == o \in DOMAIN objs /\ calls' = Append(calls, [o |-> o, fr |-> fr, rows |-> rows]) /\ UNCHANGED objs
\* an answer fits the earlier ones
Fits(o, fr, rows, j) == LET d == calls[j] IN
    \A i \in 1..Min2(Agree(objs[o], objs[d.o], fr, d.fr), Min2(Len(rows), Len(d.rows))) : rows[i] = d.rows[i]

------------------------------------------------------------------------------
(* The ideal implementation: an answer is a term over what it may depend on. *)
Row(f, i) == <<f.root, IF f.br = 0 \/ i <= f.h THEN 0 ELSE f.br, i>>
Ideal(c, f) == [i \in 1..f.cut |-> <<c.cls, c.par, [k \in 1..(IF c.causal THEN i ELSE f.cut) |-> Row(f, k)], i>>]
(* rows that must agree are answered from the same data, and answers from    *)
(* different data are never required to agree                                *)
AgreeExact == \A j, k \in DOMAIN calls :
    LET a == calls[j]
        b == calls[k]
        m == Agree(objs[a.o], objs[b.o], a.fr, b.fr)
        x == Ideal(objs[a.o], a.fr)
        y == Ideal(objs[b.o], b.fr)
    IN \A i \in 1..Min2(a.fr.cut, b.fr.cut) : (i <= m) <=> (x[i] = y[i])
IdealFits == \A k \in DOMAIN calls : \A j \in 1..(k - 1) :
    LET a == calls[j]
        b == calls[k]
        m == Agree(objs[b.o], objs[a.o], b.fr, a.fr)
    IN \A i \in 1..m : Ideal(objs[a.o], a.fr)[i] = Ideal(objs[b.o], b.fr)[i]
=============================================================================
