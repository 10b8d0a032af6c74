----------------------------- MODULE BlockCache -----------------------------
(* The caches behind the metadata, data, fragment and index blocks: a ring of  *)
(* slots, a lock, and blocks that may fail to be read.  A reader looks for its *)
(* block, reads it if it is not there, puts it into the next slot (releasing   *)
(* what was in it), and copies from it before it gives the lock back.          *)
(* Checked: a reader copies its own block's bytes from memory nobody has       *)
(* released, blocks are released once and none is lost, and a block that       *)
(* could not be read leaves nothing behind, so that it is asked for again.     *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, Keys, Slots, Reads,
          Variant              \* "ok", or a broken protocol: "earlyunlock", "addfirst", "nolock", "keepfailed"
VARIABLES key, mem,            \* slot -> key in it (0: none), block in it (0: none)
          next, lock,
          blocks,              \* the blocks there are: id -> [of: key, st: "live" or "gone" or "twice"]
          good,                \* keys that can be read now (damage that comes and goes)
          pc, want, blk, slot, left, out
vars == <<key, mem, next, lock, blocks, good, pc, want, blk, slot, left, out>>
S == 1..Slots
Init == /\ key = [s \in S |-> 0] /\ mem = [s \in S |-> 0] /\ next = 1 /\ lock = 0
        /\ blocks = <<>> /\ good = Keys
        /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> 0] /\ blk = [t \in Threads |-> 0] /\ slot = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Reads] /\ out = [t \in Threads |-> "none"]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Set(f, t, v) == [f EXCEPT ![t] = v]
Ask(t, k) == /\ pc[t] = "idle" /\ left[t] > 0 /\ left' = Set(left, t, left[t] - 1)
             /\ want' = Set(want, t, k) /\ blk' = Set(blk, t, 0) /\ slot' = Set(slot, t, 0) /\ out' = Set(out, t, "none")
             /\ Go(t, "lock") /\ UNCHANGED <<key, mem, next, lock, blocks, good>>
Lock(t) == /\ pc[t] = "lock" /\ (lock = 0 \/ Variant = "nolock") /\ lock' = t /\ Go(t, "get")
           /\ UNCHANGED <<key, mem, next, blocks, good, want, blk, slot, left, out>>
Release == lock' = 0
Get(t) ==
   /\ pc[t] = "get"
   /\ LET hit == { s \in S : key[s] = want[t] } IN
      IF hit # {}
      THEN /\ blk' = Set(blk, t, mem[CHOOSE s \in hit : \A x \in hit : s <= x]) /\ UNCHANGED slot
           /\ IF Variant = "earlyunlock" THEN Release ELSE UNCHANGED lock
           /\ Go(t, "copy")
      ELSE /\ Go(t, IF Variant = "addfirst" THEN "add" ELSE "read") /\ UNCHANGED <<blk, slot, lock>>
   /\ UNCHANGED <<key, mem, next, blocks, good, want, left, out>>
New(k) == blocks' = Append(blocks, [of |-> k, st |-> "live"])
Give(t, v) == /\ out' = Set(out, t, v) /\ Go(t, "idle") /\ Release
Read(t) ==
   /\ pc[t] = "read"
   /\ IF want[t] \in good
      THEN /\ New(want[t]) /\ blk' = Set(blk, t, Len(blocks) + 1)
           /\ IF Variant = "addfirst"
              THEN mem' = [mem EXCEPT ![slot[t]] = Len(blocks) + 1] /\ Go(t, "copy")
              ELSE Go(t, "add") /\ UNCHANGED mem
           /\ UNCHANGED <<lock, out>>
      ELSE IF Variant = "keepfailed"
      THEN Go(t, "add") /\ blk' = Set(blk, t, 0) /\ UNCHANGED <<blocks, mem, lock, out>>
      ELSE Give(t, "failed") /\ UNCHANGED <<blocks, mem, blk>>
   /\ UNCHANGED <<key, next, good, want, slot, left>>
Add(t) ==
   /\ pc[t] = "add"
   /\ LET s == next IN
      /\ next' = (s % Slots) + 1
      /\ blocks' = IF mem[s] = 0 THEN blocks ELSE [blocks EXCEPT ![mem[s]].st = IF @ = "live" THEN "gone" ELSE "twice"]
      /\ key' = [key EXCEPT ![s] = want[t]]
      /\ mem' = [mem EXCEPT ![s] = IF Variant = "addfirst" THEN 0 ELSE blk[t]]
      /\ slot' = Set(slot, t, s)
      /\ IF Variant = "addfirst" THEN Go(t, "read") /\ UNCHANGED <<lock, out>>
         ELSE IF blk[t] = 0 THEN Give(t, "failed")
         ELSE /\ Go(t, "copy") /\ UNCHANGED out
              /\ IF Variant = "earlyunlock" THEN Release ELSE UNCHANGED lock
   /\ UNCHANGED <<good, want, blk, left>>
Copy(t) ==
   /\ pc[t] = "copy"
   /\ LET b == blk[t] IN
      out' = Set(out, t, IF b = 0 THEN "nothing" ELSE IF blocks[b].st # "live" THEN "released" ELSE IF blocks[b].of # want[t] THEN "wrong" ELSE "right")
   /\ Go(t, "idle") /\ (IF Variant = "earlyunlock" THEN UNCHANGED lock ELSE Release)
   /\ UNCHANGED <<key, mem, next, blocks, good, want, blk, slot, left>>
Weather(k) == /\ good' = (IF k \in good THEN good \ {k} ELSE good \cup {k})
              /\ UNCHANGED <<key, mem, next, lock, blocks, pc, want, blk, slot, left, out>>
Next == \/ \E t \in Threads : Lock(t) \/ Get(t) \/ Read(t) \/ Add(t) \/ Copy(t) \/ \E k \in Keys : Ask(t, k)
        \/ \E k \in Keys : Weather(k)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Threads : SF_vars(Lock(t)) /\ WF_vars(Get(t) \/ Read(t) \/ Add(t) \/ Copy(t))

Right == \A t \in Threads : out[t] \notin {"nothing", "released", "wrong"}
ReleasedOnce == \A b \in 1..Len(blocks) : blocks[b].st # "twice"
\* every block there is belongs to one slot, or to the reader that is about to put it there
NoneLost == \A b \in 1..Len(blocks) : blocks[b].st = "live" =>
              Cardinality({ s \in S : mem[s] = b }) + Cardinality({ t \in Threads : pc[t] = "add" /\ blk[t] = b }) = 1
Slotted == lock = 0 => \A s \in S : (key[s] = 0 <=> mem[s] = 0) /\ (mem[s] # 0 => blocks[mem[s]].of = key[s] /\ blocks[mem[s]].st = "live")
OnePlace == lock = 0 => \A a, b \in S : key[a] # 0 /\ key[a] = key[b] => a = b
\* a key that cannot be read fails only while it cannot be read
FailsNow == [][\A t \in Threads : out'[t] = "failed" /\ out[t] # "failed" => want[t] \notin good]_vars
Ends == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================
