----------------------------- MODULE Containers -----------------------------
(* The library's two containers, as their users see them: a table is a map     *)
(* from keys to values, a stack is a sequence with a release routine.  Keys    *)
(* are kept as decimal strings (they use all 32 bits).                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tabs,   \* table -> [key -> value]
          stks    \* stack -> [seq: sequence of values, fr: has a release routine, raw: only initialised]
cvars == <<tabs, stks>>
CEmpty == << >>
CPut(f, k, v) == (k :> v) @@ f
CDrop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
CInit == tabs = CEmpty /\ stks = CEmpty
PowerOfTwo(c) == \E i \in 0..30 : c = 2^i

HInit(t, cap, ret) ==
  /\ t \notin DOMAIN tabs /\ UNCHANGED stks
  /\ IF PowerOfTwo(cap) THEN ret = 0 /\ tabs' = CPut(tabs, t, CEmpty)
     ELSE ret # 0 /\ UNCHANGED tabs
HAdd(t, k, v, ret) ==
  /\ t \in DOMAIN tabs /\ k \notin DOMAIN tabs[t] /\ ret = 0
  /\ tabs' = [tabs EXCEPT ![t] = CPut(@, k, v)] /\ UNCHANGED stks
HGet(t, k, ret, v) ==
  /\ t \in DOMAIN tabs
  /\ IF k \in DOMAIN tabs[t] THEN ret = 1 /\ v = tabs[t][k] ELSE ret = 0
  /\ UNCHANGED cvars
\* the caller looks the key up and stores w through the pointer it gets
HPut(t, k, ret, v, w) ==
  /\ t \in DOMAIN tabs /\ UNCHANGED stks
  /\ IF k \in DOMAIN tabs[t] THEN ret = 1 /\ v = tabs[t][k] /\ tabs' = [tabs EXCEPT ![t][k] = w]
     ELSE ret = 0 /\ UNCHANGED tabs
HDel(t, k, ret) ==
  /\ t \in DOMAIN tabs
  /\ (k \in DOMAIN tabs[t] => ret = 0)
  /\ tabs' = [tabs EXCEPT ![t] = CDrop(@, k)] /\ UNCHANGED stks
HFree(t) == t \in DOMAIN tabs /\ tabs' = CDrop(tabs, t) /\ UNCHANGED stks

Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
SInit(s, fr, raw, ret) ==
  /\ s \notin DOMAIN stks /\ ret = 0 /\ UNCHANGED tabs
  /\ stks' = CPut(stks, s, [seq |-> <<>>, fr |-> fr, raw |-> raw])
SPush(s, v, ret, size) ==
  /\ s \in DOMAIN stks /\ ~ stks[s].raw /\ ret = 0 /\ UNCHANGED tabs
  /\ stks' = [stks EXCEPT ![s].seq = Append(@, v)]
  /\ size = Len(stks[s].seq) + 1
SPop(s, ret, size, freed) ==
  /\ s \in DOMAIN stks /\ UNCHANGED tabs
  /\ LET q == stks[s].seq IN
     IF q = <<>> THEN ret = 0 /\ size = 0 /\ freed = <<>> /\ UNCHANGED stks
     ELSE /\ ret = 1 /\ size = Len(q) - 1
          /\ freed = (IF stks[s].fr THEN <<q[Len(q)]>> ELSE <<>>)
          /\ stks' = [stks EXCEPT ![s].seq = SubSeq(q, 1, Len(q) - 1)]
SAt(s, i, ret, v, size) ==      \* i counts from 0; -1 is the top
  /\ s \in DOMAIN stks /\ UNCHANGED cvars
  /\ LET q == stks[s].seq  k == IF i = -1 THEN Len(q) ELSE i + 1 IN
     /\ size = Len(q)
     /\ IF k >= 1 /\ k <= Len(q) THEN ret = 0 /\ v = q[k] ELSE ret # 0
SFree(s, size, freed) ==
  /\ s \in DOMAIN stks /\ UNCHANGED tabs /\ stks' = CDrop(stks, s)
  /\ size = 0
  /\ freed = (IF stks[s].fr THEN Rev(stks[s].seq) ELSE <<>>)
=============================================================================
