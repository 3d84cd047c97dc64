------------------------------- MODULE Bagging ------------------------------
(* A bagging ensemble. A fit asks for n members; the missing ones are split  *)
(* into contiguous chunks, one per job; jobs build their members in any      *)
(* interleaving; joining puts them behind the existing ones in job order.    *)
(* A member's identity is its position in the random stream.                 *)
EXTENDS Util, Rat
VARIABLES members,   \* finished members: stream positions
          phase,     \* "idle" or "building"
          todo,      \* per job: stream positions still to build
          built,     \* per job: stream positions built
          goal       \* requested size
bgvars == <<members, phase, todo, built, goal>>
ChunkSize(n, jobs, j) == n \div jobs + (IF j <= n % jobs THEN 1 ELSE 0)
ChunkStart(n, jobs, j) == LET F[x \in 0..jobs] == IF x = 0 THEN 0 ELSE F[x-1] + ChunkSize(n, jobs, x) IN F[j-1]
StartFit(n, warm, jobs0) ==
    LET kept == IF warm THEN members ELSE <<>>
        more == n - Len(kept)
        jobs == Min2(jobs0, more)
    IN /\ phase = "idle" /\ more > 0
       /\ members' = kept /\ goal' = n /\ phase' = "building"
       /\ todo' = [j \in 1..jobs |-> [x \in 1..ChunkSize(more, jobs, j) |-> Len(kept) + ChunkStart(more, jobs, j) + x]]
       /\ built' = [j \in 1..jobs |-> <<>>]
Work(j) == /\ phase = "building" /\ j \in DOMAIN todo /\ todo[j] # <<>>
           /\ built' = [built EXCEPT ![j] = Append(@, Head(todo[j]))]
           /\ todo' = [todo EXCEPT ![j] = Tail(@)]
           /\ UNCHANGED <<members, phase, goal>>
Join == /\ phase = "building" /\ \A j \in DOMAIN todo : todo[j] = <<>>
        /\ LET F[x \in 0..Len(built)] == IF x = 0 THEN members ELSE F[x-1] \o built[x] IN members' = F[Len(built)]
        /\ phase' = "idle" /\ todo' = <<>> /\ built' = <<>> /\ UNCHANGED goal
---------------------------------------------------------------------------
(* whatever the jobs, interleaving and history: members 1..n in order        *)
SameMembers == phase = "idle" => members = [i \in 1..Len(members) |-> i] /\ Len(members) = goal
NeverReordered == [][phase = "building" => IsPrefixOf(members, members')]_bgvars
---------------------------------------------------------------------------
(* Out of bag: bags[m] the set of rows member m was trained on, votes[m][r]  *)
(* its class votes for row r                                                 *)
VoteSum(bags, votes, r, k) == SumSeq([m \in 1..Len(bags) |-> IF r \in bags[m] THEN 0 ELSE votes[m][r][k]])
Decision(bags, votes, r, K) ==
    LET s == [k \in 1..K |-> VoteSum(bags, votes, r, k)]
        t == SumSeq(s)
    IN IF t = 0 THEN [k \in 1..K |-> RNaN] ELSE [k \in 1..K |-> R(s[k], t)]
Winners(bags, votes, r, K) == {k \in 1..K : \A q \in 1..K : VoteSum(bags, votes, r, k) >= VoteSum(bags, votes, r, q)}
=============================================================================
