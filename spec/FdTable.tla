------------------------------ MODULE FdTable ------------------------------
(* The table behind the descriptors: it is indexed by numbers the system       *)
(* hands out, grows on demand, and remembers one past its highest entry.       *)
(* Steps are as fine as another thread can see them: taking a number from the  *)
(* system, growing, installing, and closing under the table's lock.            *)
(* Checked: whatever the interleaving, the table is a map from numbers to      *)
(* files that changes only at an install and at a successful close.            *)
(* Variant names the protocol or a broken one that must be told from it.       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS t1, t2, t3,
          Threads, Calls,      \* calls per thread
          Low,                 \* the numbers below are taken by others for good
          Max,                 \* numbers of the system
          Factor,              \* growing makes room for this multiple of what is needed
          Faults,              \* growing and allocating may fail
          Foreign,             \* other code opens and closes numbers too
          Variant              \* "ok", "closefirst", "nogrow", "unlockedget", "noend", "nofree"
VARIABLES sys,     \* number -> "free", "os" or "lib"
          gen,     \* which allocation the table is (0: none)
          nr, fds, end,
          lock, map, pc, at, file, left, got, ids
vars == <<sys, gen, nr, fds, end, lock, map, pc, at, file, left, got, ids>>
Nums == Low..Max
Nil == 0
Free == { k \in Nums : sys[k] = "free" }
Least == CHOOSE k \in Free : \A j \in Free : k <= j

Init == /\ sys = [k \in Nums |-> "free"]
        /\ gen = 0 /\ nr = 0 /\ fds = <<>> /\ end = 0      \* fds[k + 1] is entry k
        /\ lock = Nil /\ map = [k \in Nums |-> Nil]
        /\ pc = [t \in Threads |-> "idle"] /\ at = [t \in Threads |-> -1] /\ file = [t \in Threads |-> Nil]
        /\ left = [t \in Threads |-> Calls] /\ got = [t \in Threads |-> "none"] /\ ids = 0
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Done(t) == Go(t, "idle") /\ at' = [at EXCEPT ![t] = -1] /\ file' = [file EXCEPT ![t] = Nil]
Take(t) == lock = Nil /\ lock' = t
Entry(k) == IF k < nr THEN fds[k + 1] ELSE Nil

\* ------------------------------------------------------------ open
CallOpen(t) ==
   /\ pc[t] = "idle" /\ left[t] > 0 /\ Free # {}
   /\ left' = [left EXCEPT ![t] = @ - 1] /\ ids' = ids + 1
   /\ file' = [file EXCEPT ![t] = ids + 1]
   /\ at' = [at EXCEPT ![t] = Least] /\ sys' = [sys EXCEPT ![Least] = "lib"]
   /\ got' = [got EXCEPT ![t] = "none"]
   /\ Go(t, "dup") /\ UNCHANGED <<gen, nr, fds, end, lock, map>>
GiveBack(t) == sys' = (IF Variant = "nofree" THEN sys ELSE [sys EXCEPT ![at[t]] = "free"]) /\ Done(t)
Grow(t) ==
   /\ pc[t] = "dup"
   /\ lock = Nil
   /\ LET want == at[t] + 1 IN
      \/ /\ nr < want /\ Variant # "nogrow"
         /\ nr' = want * Factor /\ gen' = gen + 1
         /\ fds' = [i \in 1..(want * Factor) |-> IF i <= nr THEN fds[i] ELSE Nil]
         /\ Go(t, "grown") /\ UNCHANGED <<sys, at, file>>
      \/ /\ nr < want /\ Faults /\ GiveBack(t) /\ UNCHANGED <<gen, nr, fds>>
      \/ /\ (nr >= want \/ (Variant = "nogrow" /\ gen > 0))
         /\ Go(t, "grown") /\ UNCHANGED <<gen, nr, fds, sys, at, file>>
      \/ /\ Variant = "nogrow" /\ gen = 0 /\ nr' = want * Factor /\ gen' = 1 /\ fds' = [i \in 1..(want * Factor) |-> Nil]
         /\ Go(t, "grown") /\ UNCHANGED <<sys, at, file>>
   /\ UNCHANGED <<end, lock, map, left, got, ids>>
NoHandle(t) == pc[t] = "grown" /\ Faults /\ GiveBack(t) /\ UNCHANGED <<gen, nr, fds, end, lock, map, left, got, ids>>
Install(t) ==
   /\ pc[t] = "grown" /\ lock = Nil
   /\ IF at[t] < nr
      THEN /\ fds' = [fds EXCEPT ![at[t] + 1] = file[t]]
           /\ end' = IF Variant # "noend" /\ end < at[t] + 1 THEN at[t] + 1 ELSE end
           /\ got' = [got EXCEPT ![t] = IF map[at[t]] = Nil THEN "opened" ELSE "twice"]
      ELSE got' = [got EXCEPT ![t] = "outside"] /\ UNCHANGED <<fds, end>>
   /\ map' = [map EXCEPT ![at[t]] = file[t]]
   /\ Done(t) /\ UNCHANGED <<sys, gen, nr, lock, left, ids>>

\* ------------------------------------------------------------ close
CallClose(t, k) ==
   /\ pc[t] = "idle" /\ left[t] > 0 /\ k \in Nums
   /\ lock = Nil
   /\ left' = [left EXCEPT ![t] = @ - 1]
   /\ IF Entry(k) = Nil
      THEN /\ got' = [got EXCEPT ![t] = IF map[k] = Nil THEN "refused" ELSE "lost"]
           /\ UNCHANGED <<sys, at, lock, pc>>
      ELSE /\ at' = [at EXCEPT ![t] = k] /\ got' = [got EXCEPT ![t] = "none"]
           /\ IF Variant = "closefirst" THEN UNCHANGED lock ELSE lock' = t
           /\ sys' = [sys EXCEPT ![k] = "free"]
           /\ Go(t, "closed")
   /\ UNCHANGED <<gen, nr, fds, end, map, file, ids>>
RECURSIVE Shrink(_, _)
Shrink(f, k) == IF k > 0 /\ f[k] = Nil THEN Shrink(f, k - 1) ELSE k
Clear(t) ==
   /\ pc[t] = "closed"
   /\ IF Variant = "closefirst" THEN lock = Nil ELSE TRUE
   /\ LET k == at[t]
          f == [fds EXCEPT ![k + 1] = Nil] IN
      /\ fds' = f /\ end' = IF k + 1 = end THEN Shrink(f, k) ELSE end
      /\ map' = IF Variant = "closefirst" /\ map[k] # fds[k + 1] THEN map ELSE [map EXCEPT ![k] = Nil]
      /\ got' = [got EXCEPT ![t] = "closed"]
   /\ lock' = IF Variant = "closefirst" THEN lock ELSE Nil
   /\ Done(t) /\ UNCHANGED <<sys, gen, nr, left, ids>>

\* ------------------------------------------------------------ looking up
Get(t, k) ==
   /\ Variant # "unlockedget"
   /\ pc[t] = "idle" /\ left[t] > 0 /\ lock = Nil /\ k \in Nums
   /\ left' = [left EXCEPT ![t] = @ - 1]
   /\ got' = [got EXCEPT ![t] = IF Entry(k) = map[k] THEN "seen" ELSE "mistaken"]
   /\ UNCHANGED <<sys, gen, nr, fds, end, lock, map, pc, at, file, ids>>
GetBase(t, k) ==
   /\ Variant = "unlockedget"
   /\ pc[t] = "idle" /\ left[t] > 0 /\ k \in Nums /\ k < nr
   /\ left' = [left EXCEPT ![t] = @ - 1]
   /\ at' = [at EXCEPT ![t] = k] /\ file' = [file EXCEPT ![t] = gen]
   /\ Go(t, "based") /\ UNCHANGED <<sys, gen, nr, fds, end, lock, map, got, ids>>
GetEntry(t) ==
   /\ pc[t] = "based"
   /\ got' = [got EXCEPT ![t] = IF file[t] = gen THEN "seen" ELSE "gone"]
   /\ Done(t) /\ UNCHANGED <<sys, gen, nr, fds, end, lock, map, left, ids>>
\* looking for a stream walks the entries below end
Find(t, id) ==
   /\ pc[t] = "idle" /\ left[t] > 0 /\ lock = Nil /\ id \in 1..ids
   /\ left' = [left EXCEPT ![t] = @ - 1]
   /\ got' = [got EXCEPT ![t] = IF (\E k \in 0..(end - 1) : fds[k + 1] = id) <=> (\E k \in Nums : map[k] = id) THEN "seen" ELSE "mistaken"]
   /\ UNCHANGED <<sys, gen, nr, fds, end, lock, map, pc, at, file, ids>>

\* ------------------------------------------------------------ others
SysOpen == Foreign /\ Free # {} /\ sys' = [sys EXCEPT ![Least] = "os"]
           /\ UNCHANGED <<gen, nr, fds, end, lock, map, pc, at, file, left, got, ids>>
SysClose(k) == Foreign /\ sys[k] = "os" /\ sys' = [sys EXCEPT ![k] = "free"]
               /\ UNCHANGED <<gen, nr, fds, end, lock, map, pc, at, file, left, got, ids>>
Next == \/ \E t \in Threads :
             \/ CallOpen(t) \/ Grow(t) \/ NoHandle(t) \/ Install(t) \/ Clear(t) \/ GetEntry(t)
             \/ \E k \in Nums : CallClose(t, k) \/ Get(t, k) \/ GetBase(t, k)
             \/ \E id \in 1..ids : Find(t, id)
        \/ SysOpen \/ \E k \in Nums : SysClose(k)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Threads : WF_vars(Grow(t) \/ Install(t) \/ Clear(t))

TypeOK == /\ sys \in [Nums -> {"free", "os", "lib"}] /\ Len(fds) = nr /\ lock \in Threads \cup {Nil}
          /\ end <= nr \/ Variant # "ok"
\* with the lock free the table says what the map says, and nothing more
Agree == lock = Nil => \A k \in 0..(nr - 1) : fds[k + 1] = IF k \in Nums THEN map[k] ELSE Nil
Inside == \A k \in Nums : map[k] # Nil => k < nr
EndRight == lock = Nil => end = (IF \A i \in 1..nr : fds[i] = Nil THEN 0 ELSE CHOOSE i \in 1..nr : fds[i] # Nil /\ \A j \in (i + 1)..nr : fds[j] = Nil)
\* a number of ours is held in the system, so nobody else is given it
Held == lock = Nil => \A k \in Nums : map[k] # Nil => sys[k] = "lib"
\* and a number held in the system is in the table or on its way there
NoLeak == lock = Nil => \A k \in Nums : sys[k] = "lib" => map[k] # Nil \/ \E t \in Threads : at[t] = k /\ pc[t] \in {"dup", "grown"}
Once == \A a, b \in Nums : map[a] # Nil /\ map[a] = map[b] => a = b
Results == \A t \in Threads : got[t] \notin {"twice", "outside", "lost", "mistaken", "gone"}
Ends == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
Sym == Permutations(Threads)
============================================================================
