---------------------------- MODULE MC_TaFactory ----------------------------
EXTENDS TaFactory, Json
CONSTANTS MaxCreate, MaxApply, Wide
TAB == << [name |-> "SMA", args |-> <<"real">>, kws |-> <<"timeperiod">>],
          [name |-> "SIN", args |-> <<"real">>, kws |-> <<>>],
          [name |-> "CORREL", args |-> <<"real0", "real1">>, kws |-> <<"timeperiod">>],
          [name |-> "SUB", args |-> <<"real0", "real1">>, kws |-> <<>>],
          [name |-> "ATR", args |-> <<"high", "low", "close">>, kws |-> <<"timeperiod">>],
          [name |-> "BOP", args |-> <<"open", "high", "low", "close">>, kws |-> <<>>],
          [name |-> "OBV", args |-> <<"real", "volume">>, kws |-> <<>>],
          [name |-> "AROON", args |-> <<"high", "low">>, kws |-> <<"timeperiod">>],
          [name |-> "BBANDS", args |-> <<"real">>, kws |-> <<"timeperiod", "nbdevup", "nbdevdn", "matype">>] >>
None == [t |-> "none", v |-> <<>>]
Str(x) == [t |-> "str", v |-> <<x>>]
List(x) == [t |-> "list", v |-> x]
Dict(x) == [t |-> "dict", v |-> x]
Odd == [t |-> "odd", v |-> <<>>]
Cols == IF Wide THEN {None, Str("x"), Str("close"), List(<<"x", "y">>), List(<<"close", "x">>), List(<<"x">>), Odd}
        ELSE {None, Str("x"), Str("close"), List(<<"x", "y">>), List(<<"y", "x">>)}
Maps == IF Wide THEN {None, Odd, Dict(<<>>), Dict(<<<<"high", "x">>>>), Dict(<<<<"high", "low">>, <<"low", "high">>>>),
                      Dict(<<<<"low", "x">>, <<"high", "close">>>>), Dict(<<<<"volume", "y">>>>), Dict(<<<<"nosuch", "x">>>>), Dict(<<<<"x", "high">>>>)}
        ELSE {None, Dict(<<<<"high", "x">>>>), Dict(<<<<"high", "low">>, <<"low", "high">>>>)}
Kws == IF Wide THEN {None, Dict(<<<<"timeperiod", 3>>>>), Dict(<<<<"timeperiod", 5>>, <<"nbdevup", 1>>>>), Dict(<<<<"nosuch", 1>>>>),
                     Dict(<<<<"timeperiod", 4>>, <<"period", 4>>>>)}
       ELSE {None, Dict(<<<<"timeperiod", 3>>>>)}
Names == IF Wide THEN {"SMA", "SIN", "CORREL", "SUB", "ATR", "BOP", "OBV", "AROON", "BBANDS", "NOSUCH"} ELSE {"SMA", "SUB", "ATR", "AROON"}
Reqs == [f : Names, col : Cols, map : Maps, kw : Kws]
\* requests this property says nothing about: settings the function does not look at
Judged(r) == LET known == Known(r.f)
                 reals == IF known THEN {"real", "real0"} \cap Range(Fun(r.f).args) # {} ELSE TRUE
             IN /\ r.col.t # "none" => reals
                /\ (known /\ reals) => Keys(r.map.v) \cap Range(r.col.v) = {}
                /\ (~Wide /\ known) => ~IsRefused(Bind(r))
All == <<"open", "high", "low", "close", "volume", "x", "y">>
Frames == {All, <<"y", "close", "x", "low", "high">>, <<"close", "open", "high">>, <<>>}
VARIABLE hist
Init == table = TAB /\ built = <<>> /\ applied = <<>> /\ hist = <<>>
Next == \/ Len(built) < MaxCreate /\ applied = <<>>
           /\ \E r \in Reqs : Judged(r) /\ Create(r) /\ hist' = Append(hist, [op |-> "create", req |-> r])
        \/ Len(built) = MaxCreate /\ Len(applied) < MaxApply
           /\ \E k \in DOMAIN built, f \in (IF Wide THEN Frames ELSE {All}) : ~IsRefused(built[k]) /\ Apply(k, f)
              /\ hist' = Append(hist, [op |-> "apply", k |-> k, frame |-> f])
Spec == Init /\ [][Next]_<<tavars, hist>>
AllRefused == \A k \in DOMAIN built : IsRefused(built[k])
Emit == (Len(built) = MaxCreate /\ (AllRefused \/ Len(applied) = MaxApply)) =>
        PrintT("CASE " \o ToJson([steps |-> hist, built |-> built, applied |-> applied]))
=============================================================================
