----------------------------- MODULE BlockWalk -----------------------------
(* How a range of a regular file is read: the list of block sizes behind the  *)
(* inode, stored, hole and fragment blocks, and the index that skips parts of *)
(* a long list.  Checked against what a file is (a sequence of cells) for     *)
(* every small layout and every range; the layouts and ranges are replayed on *)
(* the real code (lib/walks.py), scaled to real block sizes.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS B,          \* cells per block
          W,          \* units per entry of the block list
          M,          \* units per metadata block
          MaxSize,    \* cells of the largest file
          Kinds,      \* of full blocks and unpacked tails: "d" data, "h" hole, "x" data that cannot be decoded
          Offs,       \* where the list begins in its metadata block
          Emit        \* print the layouts instead of walking them
VARIABLES lay, start, n, pc,
          rem, ent, cur, pos, blk, isz, started,   \* the cursor on the block list
          skip, left, res
walk == <<rem, ent, cur, pos, blk, isz, started, skip, left, res>>
vars == <<lay, start, n, pc, walk>>

Ceil(a, b) == (a + b - 1) \div b
Full(l) == l.size \div B
Rest(l) == l.size % B
NBlocks(l) == IF l.frag # "no" THEN Full(l) ELSE Ceil(l.size, B)
Min(a, b) == IF a < b THEN a ELSE b
Layouts == UNION { UNION { { [size |-> s, frag |-> f, kinds |-> k, off |-> o] : k \in [1..(IF f = "no" THEN Ceil(s, B) ELSE s \div B) -> Kinds], o \in Offs }
                           : f \in IF s % B = 0 THEN {"no"} ELSE {"no"} \cup { IF x = "x" THEN "bad" ELSE "ok" : x \in Kinds } }
                   : s \in 0..MaxSize }

\* what the file is: cell c is c + 1, or 0 in a hole
Block(c) == c \div B + 1
InFrag(l, c) == Block(c) > NBlocks(l)
Cell(l, c) == IF ~ InFrag(l, c) /\ l.kinds[Block(c)] = "h" THEN 0 ELSE c + 1
Bad(l, c) == IF InFrag(l, c) THEN l.frag = "bad" ELSE l.kinds[Block(c)] = "x"
Expected(l, s, k) ==
   IF s > l.size THEN "err"
   ELSE LET e == Min(l.size, s + k) IN
        IF \E c \in s..(e - 1) : Bad(l, c) THEN "err" ELSE [i \in 1..(e - s) |-> Cell(l, s + i - 1)]

\* where things are: data blocks follow one another, holes take no room
Disk(l, b) == Cardinality({ i \in 1..(b - 1) : l.kinds[i] # "h" })
AtDisk(l, d) == CHOOSE b \in 1..NBlocks(l) : l.kinds[b] # "h" /\ Disk(l, b) = d
\* the index: one entry for every metadata block of the list behind the first
Count(l) == (l.off + (NBlocks(l) * W) - 1) \div M
RECURSIVE Index(_, _, _)
Index(l, i, ix) ==         \* before reading entry i + 1
   IF i >= NBlocks(l) \/ Len(ix) >= Count(l) THEN ix
   ELSE LET a == l.off + i * W
            ix2 == IF i > 0 /\ a % M < W
                   THEN Append(ix, [data |-> Disk(l, i + 1), md |-> a \div M]) ELSE ix
        IN Index(l, i + 1, ix2)

Init == /\ lay \in Layouts /\ pc = "ask" /\ start = 0 /\ n = 0
        /\ rem = 0 /\ ent = 0 /\ cur = 0 /\ pos = 0 /\ blk = 0 /\ isz = 0 /\ started = FALSE /\ skip = 0 /\ left = 0 /\ res = <<>>
Ask == /\ pc = "ask" /\ ~ Emit
       /\ start' \in 0..(lay.size + 1) /\ n' \in 1..(lay.size + 2)
       /\ pc' = "begin" /\ UNCHANGED <<lay, walk>>
Fail == pc' = "done" /\ res' = "err" /\ UNCHANGED <<lay, start, n, rem, ent, cur, pos, blk, isz, started, skip, left>>
Begin ==
   /\ pc = "begin"
   /\ IF start > lay.size THEN Fail
      ELSE IF start = lay.size THEN pc' = "done" /\ res' = <<>> /\ UNCHANGED <<lay, start, n, rem, ent, cur, pos, blk, isz, started, skip, left>>
      ELSE LET nb == NBlocks(lay)
               b == start \div B
               mb == (lay.off + b * W) \div M
               ix == Index(lay, 0, <<>>)
               skipped == ((mb * M) \div W) - (lay.off \div W)
               indexed == b < nb /\ mb > 0 /\ nb * W >= M
           IN /\ rem' = IF b >= nb THEN 0 ELSE IF indexed THEN nb - skipped ELSE nb
              /\ ent' = IF indexed THEN skipped ELSE 0
              /\ cur' = IF indexed THEN ix[mb].md * M + (lay.off % W) ELSE lay.off
              /\ pos' = IF indexed THEN skipped * B ELSE 0
              /\ blk' = IF indexed THEN ix[mb].data ELSE 0
              /\ isz' = 0 /\ started' = FALSE
              /\ skip' = start % B /\ left' = n /\ res' = <<>>
              /\ pc' = "loop" /\ UNCHANGED <<lay, start, n>>
Take(cells, size) ==       \* copy from a block of that many cells
   LET k == Min(size - skip, left) IN
   res' = res \o [i \in 1..k |-> cells[skip + i]] /\ left' = left - k /\ skip' = 0
Fragment ==
   /\ pc = "loop" /\ left > 0 /\ rem = 0
   /\ IF lay.frag = "no" THEN pc' = "end" /\ UNCHANGED walk
      ELSE IF lay.frag = "bad" THEN pc' = "done" /\ res' = "err" /\ UNCHANGED <<rem, ent, cur, pos, blk, isz, started, skip, left>>
      ELSE /\ Take([i \in 1..B |-> Full(lay) * B + i], Rest(lay))
           /\ pc' = "end" /\ UNCHANGED <<rem, ent, cur, pos, blk, isz, started>>
   /\ UNCHANGED <<lay, start, n>>
NextBlock ==
   /\ pc = "loop" /\ left > 0 /\ rem > 0
   /\ rem' = rem - 1 /\ ent' = ent + 1 /\ cur' = cur + W /\ started' = TRUE
   /\ blk' = blk + isz
   /\ LET e == (cur - lay.off) \div W + 1     \* the entry the cursor is at
          k == lay.kinds[e]
          p == IF started THEN pos + B ELSE pos
          size == Min(B, lay.size - p)
          src == IF k = "h" THEN 0 ELSE AtDisk(lay, blk + isz)
      IN /\ pos' = p /\ isz' = (IF k = "h" THEN 0 ELSE 1)
         /\ IF p + B <= start THEN UNCHANGED <<skip, left, res, pc>>
            ELSE IF k = "h" THEN Take([i \in 1..B |-> 0], size) /\ UNCHANGED pc
            ELSE IF lay.kinds[src] = "x" THEN res' = "err" /\ pc' = "done" /\ UNCHANGED <<skip, left>>
            ELSE Take([i \in 1..B |-> (src - 1) * B + i], size) /\ UNCHANGED pc
   /\ UNCHANGED <<lay, start, n>>
End == /\ (pc = "end" \/ (pc = "loop" /\ left = 0))
       /\ pc' = "done" /\ UNCHANGED <<lay, start, n, walk>>
Next == Ask \/ Begin \/ Fragment \/ NextBlock \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == pc = "done" => res = Expected(lay, start, n)
\* the cursor is where the entry it stands for is, also behind the index
InStep == pc = "loop" => /\ cur = lay.off + W * ent
                         /\ ent + rem = NBlocks(lay) \/ start \div B >= NBlocks(lay)
                         /\ pos = (IF ent > 0 /\ started THEN ent - 1 ELSE ent) * B
\* whatever block is asked for, its part of the list is in the index
Complete == \A b \in 0..(NBlocks(lay) - 1) : (lay.off + (b * W)) \div M <= Len(Index(lay, 0, <<>>))
Ends == <>(pc = "done")
Printed == Emit => PrintT(<<"LAYOUT", ToJson(lay)>>)
=============================================================================
