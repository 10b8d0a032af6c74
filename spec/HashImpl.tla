------------------------------- MODULE HashImpl -------------------------------
(* The table as the code keeps it: chains selected by the low bits of the key, *)
(* doubled when the number of entries reaches the capacity.  Checked to refine *)
(* the map of Containers; its behaviours are replayed on the code.  The stack  *)
(* keeps a capacity that grows by half.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Keys, Vals, Caps, Depth, MaxStack
VARIABLES cap, chain, cnt,       \* the table: chain[i] is a sequence of [k, v], newest first
          map,                   \* what its user added and not removed
          scap, stk, hist
hvars == <<cap, chain, cnt, map, scap, stk, hist>>
Slot(k, c) == k % c
RECURSIVE Spread(_, _, _)
\* move a sequence of buckets to new chains, each at the front of its chain
Spread(q, c, new) == IF q = <<>> THEN new
                     ELSE Spread(Tail(q), c, [new EXCEPT ![Slot(q[1].k, c)] = <<q[1]>> \o @])
RECURSIVE SpreadAll(_, _, _)
SpreadAll(i, c, new) == IF i = cap THEN new ELSE SpreadAll(i + 1, c, Spread(chain[i], c, new))
Doubled == SpreadAll(0, 2 * cap, [i \in 0..(2 * cap - 1) |-> <<>>])
Find(k) == LET q == chain[Slot(k, cap)]  S == { i \in 1..Len(q) : q[i].k = k }
           IN IF S = {} THEN 0 ELSE q[CHOOSE i \in S : \A j \in S : i <= j].v
Without(q, k) == LET S == { i \in 1..Len(q) : q[i].k = k } IN
                 IF S = {} THEN q
                 ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Init == /\ cap \in Caps /\ chain = [i \in 0..(cap - 1) |-> <<>>] /\ cnt = 0 /\ map = << >>
        /\ scap \in {0, 2} /\ stk = <<>>
        /\ hist = <<[o |-> "init", c |-> cap, s |-> scap]>>
Log(o) == hist' = Append(hist, o)
Add == \E k \in Keys \ DOMAIN map, v \in Vals :
  LET c == IF cnt >= cap THEN 2 * cap ELSE cap
      b == IF cnt >= cap THEN Doubled ELSE chain
  IN /\ cap' = c /\ chain' = [b EXCEPT ![Slot(k, c)] = <<[k |-> k, v |-> v]>> \o @]
     /\ cnt' = cnt + 1 /\ map' = (k :> v) @@ map
     /\ Log([o |-> "add", k |-> k, v |-> v]) /\ UNCHANGED <<scap, stk>>
Remove == \E k \in Keys :
  /\ chain' = [chain EXCEPT ![Slot(k, cap)] = Without(@, k)]
  /\ cnt' = cnt - (IF k \in DOMAIN map THEN 1 ELSE 0)
  /\ map' = [x \in DOMAIN map \ {k} |-> map[x]]
  /\ Log([o |-> "del", k |-> k]) /\ UNCHANGED <<cap, scap, stk>>
Grown(c) == IF c = 0 THEN 8 ELSE IF (c * 3) \div 2 <= c THEN c + 1 ELSE (c * 3) \div 2
Push == \E v \in Vals :
  /\ Len(stk) < MaxStack
  /\ scap' = (IF Len(stk) = scap THEN Grown(scap) ELSE scap) /\ stk' = Append(stk, v)
  /\ Log([o |-> "push", v |-> v]) /\ UNCHANGED <<cap, chain, cnt, map>>
Pop == /\ stk' = (IF stk = <<>> THEN stk ELSE SubSeq(stk, 1, Len(stk) - 1))
       /\ Log([o |-> "pop"]) /\ UNCHANGED <<cap, chain, cnt, map, scap>>
Next == Len(hist) <= Depth /\ (Add \/ Remove \/ (MaxStack > 0 /\ (Push \/ Pop)))
Spec == Init /\ [][Next]_hvars
(* refinement: looking up walks the chain of the key *)
Refines == \A k \in Keys : Find(k) = (IF k \in DOMAIN map THEN map[k] ELSE 0)
Counted == cnt = Cardinality(DOMAIN map)
Placed == \A i \in 0..(cap - 1) : \A j \in 1..Len(chain[i]) : Slot(chain[i][j].k, cap) = i
Fits == Len(stk) <= scap
Printed == Len(hist) = Depth + 1 => PrintT(<<"HIST", ToJson(hist)>>)
View == <<cap, chain, cnt, map, scap, stk>>
===============================================================================
