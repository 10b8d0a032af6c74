------------------------------ MODULE TreeWalk -----------------------------
(* The traversal's state machine (a stack of directories, a path edited in    *)
(* place) against the recursive definition of what a traversal reports, for   *)
(* every small tree and every choice of directories to prune.  The trees and  *)
(* choices are replayed on the real code (lib/walks.py).                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxNodes, MaxCuts, Emit
VARIABLES tree,      \* node -> [dir, up]; node 1 is where it starts; children in order of their numbers
          cuts,      \* directories whose content is skipped
          pc,        \* "build", then the states of the traversal
          stack, path, last, entry, dirend,
          out        \* what has been reported
vars == <<tree, cuts, pc, stack, path, last, entry, dirend, out>>
N == Len(tree)
Kids(n) == { k \in 1..N : tree[k].up = n }
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
List(n) == Asc(Kids(n))
\* names of different lengths, as sequences of characters
NameOf(n) == [i \in 1..(1 + (n % 3)) |-> n]
\* what is to be reported: [n, path, end]
Sep == 0
RECURSIVE Walk(_, _), WalkAll(_, _)
Walk(n, p) == LET q == IF p = <<>> THEN NameOf(n) ELSE p \o <<Sep>> \o NameOf(n) IN
   <<[n |-> n, path |-> q, end |-> FALSE]>> \o
   (IF tree[n].dir /\ n \notin cuts THEN WalkAll(List(n), q) \o <<[n |-> n, path |-> q, end |-> TRUE]>> ELSE <<>>)
WalkAll(s, p) == IF s = <<>> THEN <<>> ELSE Walk(Head(s), p) \o WalkAll(Tail(s), p)
Report == WalkAll(List(1), <<>>)

Init == /\ tree = <<[dir |-> TRUE, up |-> 0]>> /\ cuts = {} /\ pc = "build"
        /\ stack = <<>> /\ path = <<>> /\ last = 0 /\ entry = 0 /\ dirend = FALSE /\ out = <<>>
\* nodes are numbered in an order in which a parent comes before its children and
\* a later node never has an earlier parent (every shape is built once)
Grow == /\ pc = "build" /\ N < MaxNodes
        /\ \E u \in { k \in 1..N : tree[k].dir /\ k >= tree[N].up }, b \in BOOLEAN : tree' = Append(tree, [dir |-> b, up |-> u])
        /\ UNCHANGED <<cuts, pc, stack, path, last, entry, dirend, out>>
Start == /\ pc = "build"
         /\ \E c \in { x \in SUBSET { k \in 2..N : tree[k].dir } : Cardinality(x) <= MaxCuts } : cuts' = c
         /\ pc' = IF Emit THEN "emit" ELSE "remove"
         /\ stack' = <<[rest |-> List(1), len |-> 0]>>
         /\ UNCHANGED <<tree, path, last, entry, dirend, out>>
\* sqfs_traverse_next, one state after the other
TopLevel == stack[Len(stack)]
Cut(p, k) == SubSeq(p, 1, IF Len(p) > k THEN Len(p) - k ELSE 0)
Get == /\ pc = "get"
       /\ IF TopLevel.rest = <<>> THEN pc' = "ascend" /\ UNCHANGED <<stack, entry>>
          ELSE /\ entry' = Head(TopLevel.rest) /\ stack' = [stack EXCEPT ![Len(stack)].rest = Tail(@)]
               /\ pc' = "add"
       /\ UNCHANGED <<tree, cuts, path, last, dirend, out>>
Add == /\ pc = "add"
       /\ last' = Len(NameOf(entry)) /\ path' = path \o NameOf(entry)
       /\ out' = Append(out, [n |-> entry, path |-> path', end |-> FALSE]) /\ dirend' = FALSE
       \* the caller prunes (or not) before it asks for the next
       /\ pc' = IF tree[entry].dir /\ entry \notin cuts THEN "descend" ELSE "remove"
       /\ UNCHANGED <<tree, cuts, stack, entry>>
Remove == /\ pc = "remove" /\ path' = Cut(path, last) /\ pc' = "get"
          /\ UNCHANGED <<tree, cuts, stack, last, entry, dirend, out>>
Descend == /\ pc = "descend"
           /\ stack' = Append(stack, [rest |-> List(entry), len |-> Len(NameOf(entry))])
           /\ path' = path \o <<Sep>> /\ pc' = "get"
           /\ UNCHANGED <<tree, cuts, last, entry, dirend, out>>
Ascend == /\ pc = "ascend"
          /\ path' = Cut(path, 1) /\ last' = TopLevel.len
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ IF Len(stack) > 1
             THEN /\ dirend' = TRUE /\ pc' = "remove"
                  \* the entry reported is whatever was read last; path says which directory ended
                  /\ out' = Append(out, [n |-> 0, path |-> path', end |-> TRUE])
             ELSE pc' = "finished" /\ UNCHANGED <<dirend, out>>
          /\ UNCHANGED <<tree, cuts, entry>>
Next == Grow \/ Start \/ Get \/ Add \/ Remove \/ Descend \/ Ascend
Spec == Init /\ [][Next]_vars /\ WF_vars(Get \/ Add \/ Remove \/ Descend \/ Ascend)

Same(a, b) == a.path = b.path /\ a.end = b.end /\ (~ a.end => a.n = b.n)
\* what has been reported is always the beginning of what is to be reported, and all of it at the end
Prefix == Len(out) <= Len(Report) /\ \A i \in 1..Len(out) : Same(out[i], Report[i])
All == pc = "finished" => Len(out) = Len(Report) /\ path = <<>>
Ends == pc = "remove" ~> pc = "finished"
Printed == pc = "emit" => PrintT(<<"TREE", ToJson([tree |-> tree, cuts |-> Asc(cuts)])>>)
=============================================================================
