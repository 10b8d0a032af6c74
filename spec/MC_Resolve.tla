----------------------------- MODULE MC_Resolve -----------------------------
(* Every small image tree, every short path: the walk the library performs    *)
(* (Lookup) against resolution one component at a time (PosixLookup).         *)
(* A tree is built node by node: each new node goes into one of the           *)
(* directories that exist so far.                                             *)
EXTENDS Resolve, TLC
CONSTANTS Names,      \* names of entries
          Targets,    \* targets of links, as component sequences
          PathComps,  \* components of the paths asked for
          MaxNodes, MaxPath, Aliases
VARIABLES tree, path, fl, done
vars == <<tree, path, fl, done>>
Dir == [kind |-> "dir", ents |-> [x \in {"/none"} |-> 0]]
Reg == [kind |-> "reg"]
Lnk(t) == [kind |-> "lnk", tabs |-> (t[1] = "" /\ Len(t) > 1), tcomps |-> t, tlen |-> TextLen(t) - 1]
Kinds == {Dir, Reg} \cup { Lnk(t) : t \in Targets }
SmallTargets == { <<"a">>, <<"b">>, <<"..", "a">>, <<"", "b">>, <<"a", "..", "b">>, <<"..">>, <<"", "r", "a">> }
OneTarget == { <<"..", "a">> }
SmallAliases == { <<"r">> }
N == Len(tree.nodes)
Init == tree = [nodes |-> <<Dir>>] /\ path = <<>> /\ fl = TRUE /\ done = FALSE
Grow == /\ ~ done /\ path = <<>> /\ N < MaxNodes
        /\ \E d \in { i \in 1..N : tree.nodes[i].kind = "dir" }, nm \in Names, k \in Kinds :
             /\ nm \notin DOMAIN tree.nodes[d].ents
             /\ tree' = [nodes |-> Append([tree.nodes EXCEPT ![d].ents = [x \in DOMAIN @ \cup {nm} |-> IF x = nm THEN N + 1 ELSE @[x]]], k)]
        /\ UNCHANGED <<path, fl, done>>
Ask == /\ ~ done /\ Len(path) < MaxPath
       /\ \E x \in PathComps : path' = Append(path, x)
       /\ UNCHANGED <<tree, fl, done>>
Stop == ~ done /\ path # <<>> /\ done' = TRUE /\ fl' \in BOOLEAN /\ UNCHANGED <<tree, path>>
Next == Grow \/ Ask \/ Stop
Spec == Init /\ [][Next]_vars

L == Lookup(tree, Aliases, path, fl)
P == PosixLookup(tree, Aliases, path, fl)
\* where neither gives up because of its limits they agree, outcome and entry
Agree == done => \/ L.st \in {"loop", "long"} \/ P.st = "loop"
                 \/ L.st = P.st /\ (L.st = "ok" => Top(L.stk) = P.n)
                 \* a missing name below a file and a file below a file are both refused
                 \/ {L.st, P.st} = {"noent", "notdir"}
\* a resolution that needs only few links is never refused
NoFalseLoop == done => (L.st = "loop" => P.used > MaxDepth \/ P.st = "loop" \/ P.used >= MaxChain)
\* what is reached is in the tree, below the root, by its own chain of names
Chained == done /\ L.st = "ok" =>
   /\ L.stk[1] = Root
   /\ \A i \in 2..Len(L.stk) : \E nm \in DOMAIN tree.nodes[L.stk[i - 1]].ents : tree.nodes[L.stk[i - 1]].ents[nm] = L.stk[i]
\* without links, resolution is descent along the normalised path
Plain == done /\ L.used = 0 /\ L.st = "ok" =>
   LET cs == Norm(path) IN Len(L.stk) = Len(cs) + 1 /\ \A i \in 1..Len(cs) : tree.nodes[L.stk[i]].ents[cs[i]] = L.stk[i + 1]
\* following matters only for a final link
FollowOnly == done => LET a == Lookup(tree, Aliases, path, TRUE)  b == Lookup(tree, Aliases, path, FALSE) IN
   b.st = "ok" /\ ~ IsLnk(tree, Top(b.stk)) => a.st = "ok" /\ Top(a.stk) = Top(b.stk)
FollowEnds == done /\ fl /\ L.st = "ok" => ~ IsLnk(tree, Top(L.stk))
\* normalisation is idempotent, and respects redundant components
NormIdem == done => LET n == Norm(path) IN Above(n) \/ Norm(n) = n
NormNeutral == done => \A i \in 0..Len(path), x \in {"", "."} : Norm(SubSeq(path, 1, i) \o <<x>> \o SubSeq(path, i + 1, Len(path))) = Norm(path)
NormUndo == done => \A i \in 0..Len(path), x \in Names :
   ~ Above(Norm(SubSeq(path, 1, i))) => Norm(SubSeq(path, 1, i) \o <<x, "..">> \o SubSeq(path, i + 1, Len(path))) = Norm(path)
=============================================================================
