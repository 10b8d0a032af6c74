------------------------------ MODULE SquashGen ------------------------------
(* Behaviours of SquashAPI to be replayed on the real library.  hist is the    *)
(* list of calls made so far; results are the ones the specification gives on  *)
(* an ideal system (lowest free descriptor numbers, nothing fails), so that    *)
(* later calls can depend on the state reached.                                *)
EXTENDS SquashAPI
CONSTANTS Alphabet,    \* which calls may be made
          PreOpen,     \* handles open from the start: h is image h + 1
          Depth, MaxFd, MaxStreams,
          Sim          \* in random behaviours arguments are drawn, not enumerated
VARIABLES hist, opened
Paths == ndJsonDeserialize(IOEnv.PATHS)      \* component sequences
gvars == <<vars, hist, opened>>
Log(o) == hist' = Append(hist, o)
Free == CHOOSE f \in 3..(MaxFd + 3) : ~ Busy(f) /\ \A g \in 3..(f - 1) : Busy(g)
Full == Cardinality(DOMAIN fds) + Cardinality(DOMAIN sysf) >= MaxFd
Slot(f) == CHOOSE s \in 1..MaxStreams : s \notin DOMAIN f /\ \A t \in 1..(s - 1) : t \in DOMAIN f
HasSlot(f) == Cardinality(DOMAIN f) < MaxStreams
OkNode(h, p, fl) == LET r == Lookup(Tree(h), als[h], p, fl) IN IF r.st = "ok" THEN Top(r.stk) ELSE 0
Same == UNCHANGED vars

Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
GOpen == \E h \in Pick(DOMAIN hnd), i \in Pick(1..Len(Paths)) :
   LET p == Paths[i]  n == OkNode(h, p, TRUE) IN
   /\ ~ Full /\ Log([o |-> "open", s |-> Free, h |-> h, p |-> p])
   /\ IF n # 0 THEN Open(h, p, TRUE, Free, 0) /\ opened' = opened \cup {Free}
      ELSE Same /\ UNCHANGED opened
\* closing and using numbers that were open once too
GClose == \E fd \in Pick(opened) :
   /\ Log([o |-> "close", s |-> fd]) /\ UNCHANGED opened
   /\ IF fd \in DOMAIN fds THEN fds[fd].d = 0 ELSE TRUE
   /\ IF fd \in DOMAIN fds THEN Close(fd, 0, 0) ELSE Same
Sizes == {0, 1, 7, 4095, 4096, 4097, 100000}
GRead == \E fd \in Pick(opened), n \in Pick(Sizes) :
   /\ Log([o |-> "read", s |-> fd, n |-> n]) /\ UNCHANGED opened
   /\ IF fd \in DOMAIN fds /\ Node(fds[fd].h, fds[fd].n).kind = "reg"
      THEN LET nd == Node(fds[fd].h, fds[fd].n)  k == WClip(WSub(nd.size, fds[fd].pos), n) IN
           Read(fd, n, k, 0, Pieces(nd.segs, fds[fd].pos, k))
      ELSE Same
GSeek == \E fd \in Pick(opened), off \in Pick({-1, 0, 5, 4096, 20000}), wh \in Pick(0..3) :
   /\ Log([o |-> "lseek", s |-> fd, off |-> off, wh |-> wh]) /\ UNCHANGED opened
   /\ IF fd \in DOMAIN fds /\ wh < 3 /\ (wh = 2 => Node(fds[fd].h, fds[fd].n).kind = "reg")
      THEN LET t == SeekTarget(fds[fd], W(off), wh) IN
           IF WNeg(t) THEN Same ELSE Seek(fd, W(off), wh, 0, t, 0)
      ELSE Same
GFstat == \E fd \in Pick(opened) : Log([o |-> "fstat", s |-> fd]) /\ Same /\ UNCHANGED opened
GStat == \E h \in Pick(DOMAIN hnd), i \in Pick(1..Len(Paths)), l \in Pick({"stat", "lstat"}) :
   Log([o |-> l, h |-> h, p |-> Paths[i]]) /\ Same /\ UNCHANGED opened
GReadlink == \E h \in Pick(DOMAIN hnd), i \in Pick(1..Len(Paths)), n \in Pick({0, 1, 4, 100}) :
   Log([o |-> "readlink", h |-> h, p |-> Paths[i], n |-> n]) /\ Same /\ UNCHANGED opened
GScandir == \E h \in Pick(DOMAIN hnd), i \in Pick(1..Len(Paths)), sel \in Pick(0..5), cmp \in Pick(0..3) :
   Log([o |-> "scandir", h |-> h, p |-> Paths[i], sel |-> sel, cmp |-> cmp]) /\ Same /\ UNCHANGED opened
GSysOpen == ~ Full /\ HasSlot(sysf) /\ Log([o |-> "sysopen", s |-> Slot(sysf)]) /\ SysOpen(Slot(sysf), Free) /\ UNCHANGED opened
GSysClose == \E s \in Pick(DOMAIN sysf) : Log([o |-> "sysclose", s |-> s]) /\ SysClose(s) /\ UNCHANGED opened
GOpenDir == \E h \in Pick(DOMAIN hnd), i \in Pick(1..Len(Paths)) :
   LET p == Paths[i]  n == OkNode(h, p, TRUE) IN
   /\ ~ Full /\ HasSlot(dst) /\ Log([o |-> "opendir", s |-> Slot(dst), h |-> h, p |-> p])
   /\ IF n # 0 /\ Node(h, n).kind = "dir" THEN OpenDir(Slot(dst), h, p, TRUE, 0, 0, Free) ELSE Same
   /\ UNCHANGED opened
GReadDir == \E s \in Pick(DOMAIN dst), k \in Pick({1, 2, 3}) :
   /\ Log([o |-> "readdirs", s |-> s, k |-> k]) /\ UNCHANGED opened
   /\ LET left == Len(Names(dst[s].h, dst[s].n)) - dst[s].loc
          m == IF left <= 0 THEN 0 ELSE IF left < k THEN left ELSE k
      IN dst' = [dst EXCEPT ![s].loc = @ + m] /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm>>
GTell == \E s \in Pick(DOMAIN dst), t \in Pick(1..2) : Log([o |-> "telldir", s |-> s, t |-> 10 * s + t]) /\ TellDir(s, 10 * s + t) /\ UNCHANGED opened
GSeekDir == \E s \in Pick(DOMAIN dst) : \E t \in Pick(DOMAIN dst[s].tells) : Log([o |-> "seekdir", s |-> s, t |-> t]) /\ SeekDir(s, t) /\ UNCHANGED opened
GRewind == \E s \in Pick(DOMAIN dst) : Log([o |-> "rewinddir", s |-> s]) /\ RewindDir(s) /\ UNCHANGED opened
GDirFd == \E s \in Pick(DOMAIN dst) : Log([o |-> "dirfd", s |-> s]) /\ Same /\ UNCHANGED opened
GCloseDir == \E s \in Pick(DOMAIN dst) : Log([o |-> "closedir", s |-> s]) /\ CloseDir(s, 0) /\ UNCHANGED opened
Tmp == CHOOSE t \in 1..99 : \A e \in ext : e.tmp # t
GExtract == \E h \in Pick(DOMAIN hnd), i \in Pick(1..Len(Paths)), m \in Pick({0, 1}) :
   LET p == Paths[i]  n == OkNode(h, p, TRUE) IN
   /\ Log([o |-> "extract", h |-> h, p |-> p, m |-> m]) /\ UNCHANGED opened
   /\ IF n # 0 /\ Node(h, n).kind = "reg" /\ ~ \E e \in ext : e.h = h /\ e.p = p
      THEN ext' = ext \cup {[h |-> h, p |-> p, tmp |-> Tmp, n |-> n]} /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, lcur, warm>>
      ELSE Same
GClear == Log([o |-> "clear"]) /\ Clear /\ UNCHANGED opened
GTopen == \E h \in Pick(DOMAIN hnd), i \in Pick(1..Len(Paths)) :
   LET p == Paths[i]  n == OkNode(h, p, FALSE) IN
   /\ HasSlot(trv) /\ n # 0 /\ Node(h, n).kind = "dir"
   /\ Log([o |-> "topen", s |-> Slot(trv), h |-> h, p |-> p]) /\ TrvOpen(Slot(trv), h, p, 0) /\ UNCHANGED opened
GTnext == \E s \in Pick(DOMAIN trv) :
   /\ Log([o |-> "tnext", s |-> s]) /\ UNCHANGED opened
   /\ LET t == trv[s]  stk == Entered(t)  top == stk[Len(stk)] IN
      IF t.st # "run" THEN Same
      ELSE IF top.i = Len(Node(t.h, top.n).names)
      THEN TrvNext(s, IF Len(stk) = 1 THEN 0 ELSE 1, 0, [end |-> 1, path |-> top.p])
      ELSE LET nd == Node(t.h, top.n)  k == nd.kids[top.i + 1]  kn == Node(t.h, k) IN
           TrvNext(s, 1, 0, [end |-> 0, path |-> Append(top.p, nd.names[top.i + 1]), name |-> nd.names[top.i + 1], ino |-> kn.ino,
                             type |-> kn.kind, isdir |-> IF kn.kind = "dir" THEN 1 ELSE 0, len |-> nd.nlens[top.i + 1]])
GTprune == \E s \in Pick(DOMAIN trv) : Log([o |-> "tprune", s |-> s]) /\ TrvPrune(s, 0) /\ UNCHANGED opened
GTclose == \E s \in Pick(DOMAIN trv) : Log([o |-> "tclose", s |-> s]) /\ TrvClose(s) /\ UNCHANGED opened
GImg == \E h \in Pick(0..2), i \in Pick(1..Len(Trees)) :
   h \notin DOMAIN hnd /\ Log([o |-> "img", h |-> h, i |-> i]) /\ OpenImage(h, i, 0, Trees[i].ver) /\ UNCHANGED opened
GImgClose == \E h \in Pick(DOMAIN hnd) :
   /\ \A fd \in DOMAIN fds : fds[fd].h # h
   /\ \A s \in DOMAIN trv : trv[s].h # h
   /\ Log([o |-> "imgclose", h |-> h]) /\ CloseImage(h) /\ UNCHANGED opened

GenInit == /\ hnd = [h \in PreOpen |-> h + 1] /\ als = [h \in PreOpen |-> {}]
           /\ fds = Empty /\ dst = Empty /\ sysf = Empty
           /\ trv = Empty /\ lcur = Empty /\ ext = {} /\ warm = -1
           /\ hist = <<>> /\ opened = {}
A(x) == x \in Alphabet
GenNext ==
  /\ Len(hist) < Depth
  /\ \/ A("open") /\ GOpen
     \/ A("close") /\ GClose
     \/ A("read") /\ GRead
     \/ A("lseek") /\ GSeek
     \/ A("fstat") /\ GFstat
     \/ A("stat") /\ GStat
     \/ A("readlink") /\ GReadlink
     \/ A("scandir") /\ GScandir
     \/ A("sysopen") /\ GSysOpen
     \/ A("sysclose") /\ GSysClose
     \/ A("opendir") /\ GOpenDir
     \/ A("readdir") /\ GReadDir
     \/ A("telldir") /\ GTell
     \/ A("seekdir") /\ GSeekDir
     \/ A("rewinddir") /\ GRewind
     \/ A("dirfd") /\ GDirFd
     \/ A("closedir") /\ GCloseDir
     \/ A("extract") /\ GExtract
     \/ A("clear") /\ GClear
     \/ A("topen") /\ GTopen
     \/ A("tnext") /\ GTnext
     \/ A("tprune") /\ GTprune
     \/ A("tclose") /\ GTclose
     \/ A("img") /\ GImg
     \/ A("imgclose") /\ GImgClose
GenSpec == GenInit /\ [][GenNext]_gvars
\* every complete history is printed; the state invariant is checked on the way
Printed == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
==============================================================================
