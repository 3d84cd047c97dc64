----------------------------- MODULE MC_Features ----------------------------
EXTENDS Features, Json
CONSTANTS MaxLen, Kinds, Every
B(kind) ==
    CASE kind = "roll"  -> [c : 0..2]
      [] kind \in {"park", "cs", "zhl"} -> {[h |-> p[1], l |-> p[2]] : p \in {<<0, 0>>, <<1, 0>>, <<2, 1>>, <<2, 0>>}}
      [] kind = "lam"   -> {[c |-> p[1], v |-> p[2], q |-> p[3]] : p \in {<<0, 0, 1>>, <<1, 1, 0>>, <<3, 0, 0>>, <<1, 2, 1>>}}
      [] kind = "vpin"  -> {[b |-> p[1], s |-> p[2]] : p \in {<<0, 0>>, <<1, 0>>, <<1, 2>>, <<2, 2>>}}
      [] kind = "zgap"  -> [g : {1, 2, 5}]
      [] kind = "zdiff" -> {[b |-> p[1], s |-> p[2]] : p \in {<<0, 0>>, <<1, 0>>, <<1, 3>>, <<4, 2>>}}
      [] kind = "zsize" -> {[b |-> p[1], n |-> p[2]] : p \in {<<0, 0>>, <<1, 0>>, <<3, 1>>, <<4, 2>>}}
      [] kind = "lmax"  -> {[c |-> p[1], h |-> p[2]] : p \in {<<0, 0>>, <<0, 2>>, <<1, 1>>, <<2, 3>>}}
      [] kind = "ewmd"  -> [x : {0, 1, 4}]
      [] OTHER          -> {[b |-> p[1], s |-> p[2]] : p \in {<<0, 0>>, <<3, 0>>, <<1, 2>>}}
CfgsOf(kind) == IF kind \in {"ewmd", "imb"} THEN {[kind |-> kind, fast |-> p[1], slow |-> p[2]] : p \in {<<1, 3>>, <<3, 7>>}}
                ELSE {[kind |-> kind, w |-> w] : w \in (IF kind \in {"park", "cs", "lam", "vpin", "lmax"} THEN {1, 2, 3} ELSE {2, 3})}
Init == cfg \in UNION {CfgsOf(k) : k \in Kinds} /\ bars = <<>> /\ out = <<>> /\ acc = (IF Expo THEN NoExp ELSE NoAcc)
Next == Len(bars) < MaxLen /\ \E x \in B(cfg.kind) : AppendBar(x)
Spec == Init /\ [][Next]_fevars
Fields == <<"b", "c", "g", "h", "l", "n", "q", "s", "v", "x">>
Val(x, f) == IF f \in DOMAIN x THEN x[f] ELSE 0
Code == LET F[i \in 0..Len(bars)] == IF i = 0 THEN 7 ELSE
              (F[i - 1] * 31 + SumSeq([k \in 1..10 |-> Val(bars[i], Fields[k]) * (2 * k + 1)])) % 10007 IN F[Len(bars)]
Emit == (Len(bars) = MaxLen /\ Code % Every = 0) => PrintT("CASE " \o ToJson([cfg |-> cfg, bars |-> bars, out |-> out]))
AllKinds == {"roll", "park", "cs", "lam", "vpin", "zgap", "zdiff", "zsize", "zhl", "lmax", "ewmd", "imb"}
=============================================================================
