------------------------------ MODULE TaFactory -----------------------------
(* The technical-analysis transformer factory as a machine. Create binds a   *)
(* request to columns and keyword arguments, or refuses it; Apply runs an    *)
(* earlier transformer on a frame, which must hold the columns it is bound   *)
(* to. What a transformer is bound to is settled by its own request alone.   *)
(*                                                                           *)
(* A function f is [name, args, kws]: its series parameters in order and     *)
(* its keyword parameters. A request is                                      *)
(*   [f, col, map, kw]: function name; col = [t, v] with t in                *)
(*   {"none", "str", "list", "odd"}; map = [t, v] with t in {"none", "dict", *)
(*   "odd"} and v a sequence of <<from, to>>; kw = [t, v], v a sequence of   *)
(*   <<keyword, value>>.                                                     *)
EXTENDS Util
VARIABLES table,   \* the functions of the library
          built,   \* transformers built so far: [f, cols, kw], or [refused |-> why]
          applied  \* calls so far: [k, cols] or [k, refused]
tavars == <<table, built, applied>>

Known(f) == \E i \in DOMAIN table : table[i].name = f
Fun(f) == table[CHOOSE i \in DOMAIN table : table[i].name = f]
Keys(m) == {m[i][1] : i \in DOMAIN m}
At(m, x) == m[CHOOSE i \in DOMAIN m : m[i][1] = x][2]
Refuse(why) == [refused |-> why]
IsRefused(b) == "refused" \in DOMAIN b

\* the single series, or the pair, is named by the request
Pair == {"real0", "real1"}
Series(args, col) ==
    [i \in DOMAIN args |->
        CASE args[i] = "real" -> col.v[1]
          [] args[i] = "real0" -> col.v[1]
          [] args[i] = "real1" -> col.v[2]
          [] OTHER -> args[i]]
SeriesOK(args, col) ==
    /\ "real" \in Range(args) => col.t = "str"
    /\ Pair \subseteq Range(args) => col.t = "list" /\ Len(col.v) >= 2
\* every named column is looked up under its new name, all renamings at once
Rename(cols, m) == [i \in DOMAIN cols |-> IF cols[i] \in Keys(m) THEN At(m, cols[i]) ELSE cols[i]]

Bind(req) ==
    IF ~Known(req.f) THEN Refuse("unknown function")
    ELSE LET f == Fun(req.f)
         IN IF ~SeriesOK(f.args, req.col) THEN Refuse("series not named")
            ELSE LET cols == Series(f.args, req.col)
                 IN IF req.map.t = "odd" THEN Refuse("renaming is not a mapping")
                    ELSE IF ~(Keys(req.map.v) \subseteq Range(cols)) THEN Refuse("renaming of an unknown column")
                    ELSE IF ~(Keys(req.kw.v) \subseteq Range(f.kws)) THEN Refuse("unknown keyword")
                    ELSE [f |-> req.f, cols |-> Rename(cols, req.map.v), kw |-> req.kw.v]

Start(t) == table' = t /\ built' = <<>> /\ applied' = <<>>
Create(req) == built' = Append(built, Bind(req)) /\ UNCHANGED <<table, applied>>
Runnable(b, frame) == Range(b.cols) \subseteq Range(frame)
Outcome(k, frame) ==    \* frame = names of the columns present, or << >> when the input is no table
    IF Runnable(built[k], frame) THEN [k |-> k, f |-> built[k].f, cols |-> built[k].cols, kw |-> built[k].kw]
    ELSE [k |-> k, refused |-> "missing column"]
Apply(k, frame) ==
    /\ k \in DOMAIN built /\ ~IsRefused(built[k])
    /\ applied' = Append(applied, Outcome(k, frame))
    /\ UNCHANGED <<table, built>>

------------------------------------------------------------------------------
(* one bound column per series parameter *)
ArityOK == \A k \in DOMAIN built : ~IsRefused(built[k]) => Len(built[k].cols) = Len(Fun(built[k].f).args)
(* no placeholder is left over as a column name *)
NoPlaceholder == \A k \in DOMAIN built : ~IsRefused(built[k]) =>
    \A c \in Range(built[k].cols) : c \notin {"real", "real0", "real1"}
KeywordsOK == \A k \in DOMAIN built : ~IsRefused(built[k]) => Keys(built[k].kw) \subseteq Range(Fun(built[k].f).kws)
(* a call uses the binding made when the transformer was built, whatever was built or called since *)
CallsOK == \A j \in DOMAIN applied : LET a == applied[j] IN
    IF IsRefused(a) THEN TRUE ELSE a.cols = built[a.k].cols /\ a.kw = built[a.k].kw /\ a.f = built[a.k].f
Stable == [][IsPrefixOf(built, built')]_tavars
=============================================================================
