------------------------------ MODULE DirWalk ------------------------------
(* A directory as it is stored: groups of entries behind headers, and an      *)
(* index that names the first entry of some groups.  How a name is looked up  *)
(* and how a listing is resumed at an offset, checked for every small         *)
(* directory against membership and against the entries behind the offset.    *)
(* The directories are replayed on the real code (lib/walks.py).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Universe,   \* names, in their order, as sequences of numbers
          MaxEnts,
          Hdr, Fixed,  \* sizes of a header and of an entry without its name
          Emit
VARIABLES d, what, pc, grp, i, off, res
vars == <<d, what, pc, grp, i, off, res>>
SixNames == << <<1>>, <<1, 1>>, <<1, 2>>, <<2>>, <<2, 1>>, <<200>> >>
SevenNames == << <<1>>, <<1, 1>>, <<1, 1, 1>>, <<1, 2>>, <<2>>, <<2, 1>>, <<200>> >>
NU == Len(Universe)
\* strncmp(a, b, Len(b)): -1, 0, 1
RECURSIVE Cmp(_, _, _)
At(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
Cmp(a, b, k) == IF k > Len(b) THEN 0
                ELSE IF At(a, k) < At(b, k) THEN -1 ELSE IF At(a, k) > At(b, k) THEN 1
                ELSE Cmp(a, b, k + 1)
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
\* ents: numbers of names; hd: where groups begin; ix: the groups that are in the index
Dirs == UNION { { [ents |-> Asc(S), hd |-> {1} \cup H, ix |-> X] : H \in { h \in SUBSET (2..Cardinality(S)) : TRUE }, X \in SUBSET (2..Cardinality(S)) }
                : S \in { s \in SUBSET (1..NU) : Cardinality(s) <= MaxEnts } }
OK(x) == x.ix \subseteq x.hd
N(x) == Len(x.ents)
Name(x, k) == Universe[x.ents[k]]
\* offsets in the listing: where entry k begins (behind the header if it has one) and ends
RECURSIVE EndOf(_, _)
EndOf(x, k) == IF k = 0 THEN 0 ELSE EndOf(x, k - 1) + (IF k \in x.hd THEN Hdr ELSE 0) + Fixed + Len(Name(x, k))
Total(x) == EndOf(x, N(x))
HeadOf(x, k) == EndOf(x, k - 1)         \* k begins a group

\* what the outcomes should be
Member(x, u) == LET K == { k \in 1..N(x) : x.ents[k] = u } IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE
Boundary(x, o) == { k \in 0..N(x) : EndOf(x, k) = o }

Init == /\ d \in { x \in Dirs : OK(x) } /\ pc = "ask" /\ what = <<"none", 0>> /\ grp = 0 /\ i = 0 /\ off = 0 /\ res = -1
Ask == /\ pc = "ask" /\ ~ Emit
       /\ \/ \E u \in 1..NU : what' = <<"name", u>>
          \/ \E o \in 1..(Total(d) + 2) : what' = <<"off", o>>
       /\ pc' = "index" /\ UNCHANGED <<d, grp, i, off, res>>
\* through the index, as far as it leads
Stop(k) == IF what[1] = "name"
           THEN LET c == Cmp(Name(d, k), Universe[what[2]], 1) IN
                c > 0 \/ (c = 0 /\ Len(Name(d, k)) > Len(Universe[what[2]]))
           ELSE HeadOf(d, k) >= what[2]
IndexStep ==
   /\ pc = "index"
   /\ LET more == { k \in d.ix : k > grp } IN
      IF more = {} THEN pc' = "scan" /\ UNCHANGED <<grp, i, off>>
      ELSE LET k == CHOOSE x \in more : \A y \in more : x <= y IN
           IF Stop(k) THEN pc' = "scan" /\ UNCHANGED <<grp, i, off>>
           ELSE grp' = k /\ i' = k - 1 /\ off' = HeadOf(d, k) /\ UNCHANGED pc
   /\ UNCHANGED <<d, what, res>>
\* then entry by entry
ScanStep ==
   /\ pc = "scan"
   /\ IF what[1] = "off" /\ off >= what[2] THEN pc' = "done" /\ res' = (IF off = what[2] THEN i ELSE -2) /\ UNCHANGED <<i, off>>
      ELSE IF off >= Total(d) THEN pc' = "done" /\ res' = (IF what[1] = "off" THEN (IF off = what[2] THEN i ELSE -2) ELSE 0) /\ UNCHANGED <<i, off>>
      ELSE /\ i' = i + 1 /\ off' = EndOf(d, i + 1)
           /\ IF what[1] = "name"
              THEN LET c == Cmp(Name(d, i + 1), Universe[what[2]], 1) IN
                   IF c < 0 THEN UNCHANGED <<pc, res>>
                   ELSE pc' = "done" /\ res' = IF c = 0 /\ Len(Name(d, i + 1)) = Len(Universe[what[2]]) THEN i + 1 ELSE 0
              ELSE UNCHANGED <<pc, res>>
   /\ UNCHANGED <<d, what, grp>>
Next == Ask \/ IndexStep \/ ScanStep
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Found == pc = "done" /\ what[1] = "name" => res = Member(d, what[2])
Resumed == pc = "done" /\ what[1] = "off" =>
   LET b == Boundary(d, what[2]) IN IF b = {} THEN res = -2 ELSE res \in b
Ends == pc = "index" ~> pc = "done"
Printed == Emit => PrintT(<<"DIR", ToJson([ents |-> d.ents, hd |-> Asc(d.hd), ix |-> Asc(d.ix)])>>)
=============================================================================
