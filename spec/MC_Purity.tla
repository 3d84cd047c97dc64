------------------------------ MODULE MC_Purity ------------------------------
EXTENDS Purity, Json
CONSTANTS MaxObj, MaxCall, Hows, Every
N == 3
Cfgs == {[cls |-> 1, par |-> p, causal |-> c] : p \in {1, 2}, c \in {TRUE}} \cup {[cls |-> 2, par |-> 1, causal |-> FALSE]}
Frames == {f \in [root : {1, 2}, br : {0, 1, 2}, h : {1, N}, cut : 1..N, extra : {0, 1}] :
             /\ (f.br = 0 <=> f.h = N) /\ (f.br = 2 => f.root = 1) /\ (f.extra = 1 => f.br = 0)}
VARIABLE hows
Init == objs = <<>> /\ calls = <<>> /\ hows = <<>>
Next == \/ Len(objs) < MaxObj /\ calls = <<>> /\ (\E c \in Cfgs : New(c)) /\ UNCHANGED hows
        \/ Len(objs) = MaxObj /\ Len(calls) < MaxCall
           /\ \E o \in DOMAIN objs, f \in Frames, w \in 1..Hows :
                Call(o, f, Ideal(objs[o], f)) /\ hows' = Append(hows, w)
Spec == Init /\ [][Next]_<<puvars, hows>>
FitsAll == \A k \in DOMAIN calls : \A j \in 1..(k - 1) : Fits(calls[k].o, calls[k].fr, calls[k].rows, j)
Code == LET F[i \in 0..Len(calls)] == IF i = 0 THEN 7 ELSE LET f == calls[i].fr IN
              (F[i - 1] * 37 + calls[i].o * 3 + f.root * 5 + f.br * 11 + f.cut * 17 + f.extra * 29 + hows[i] * 41) % 10007 IN F[Len(calls)]
Emit == (Len(calls) = MaxCall /\ Code % Every = 0) =>
        PrintT("CASE " \o ToJson([objs |-> objs, calls |-> [i \in DOMAIN calls |-> [o |-> calls[i].o, fr |-> calls[i].fr, how |-> hows[i]]]]))
=============================================================================
