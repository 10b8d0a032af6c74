------------------------------ MODULE OverlayGen ------------------------------
(* Behaviours of Overlay to be replayed on the sample's layer (see SquashGen). *)
EXTENDS Overlay
CONSTANTS Alphabet, Depth, MaxFd, MaxStreams, Sim
VARIABLES hist, opened
Paths == ndJsonDeserialize(IOEnv.PATHS)      \* [k, cs]
gvars == <<vars, ovars, hist, opened>>
Log(o) == hist' = Append(hist, o)
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
Free == CHOOSE f \in 3..(MaxFd + 3) : ~ OBusy(f) /\ \A g \in 3..(f - 1) : OBusy(g)
Full == Cardinality(DOMAIN fds) + Cardinality(DOMAIN osf) >= MaxFd
Slot == CHOOSE s \in 1..MaxStreams : s \notin (DOMAIN dst \cup DOMAIN osd) /\ \A t \in 1..(s - 1) : t \in (DOMAIN dst \cup DOMAIN osd)
HasSlot == Cardinality(DOMAIN dst \cup DOMAIN osd) < MaxStreams
RECURSIVE Ups(_)
Ups(cs) == IF cs = <<>> \/ Head(cs) # ".." THEN 0 ELSE 1 + Ups(Tail(cs))
\* paths of the system's side stay below its top
Inside(p) == p.k = "rel" /\ ~ ToImg(p) => Len(cwd.stk) > Ups(p.cs)
Stay == UNCHANGED <<vars, ovars>>
ImgNode(p, fl) == LET r == Lookup(Tree(0), als[0], ImgPath(p), fl) IN IF r.st = "ok" THEN Top(r.stk) ELSE 0
OsNode(p, fl) == LET r == OsLookup(p, fl) IN IF r.st = "ok" THEN r.n ELSE 0

GChdir == \E i \in Pick(1..Len(Paths)) : LET p == Paths[i] IN
   /\ Inside(p) /\ (p.k = "rel" => Len(cwd.cs) < 12) /\ Log([o |-> "chdir", i |-> i]) /\ UNCHANGED opened
   /\ IF (IF ToImg(p) THEN LET n == ImgNode(p, TRUE) IN n # 0 /\ Node(0, n).kind = "dir"
          ELSE LET n == OsNode(p, TRUE) IN n # 0 /\ ONode(n).kind = "dir")
      THEN EChdir(p, 0, 0) ELSE Stay
GGetcwd == \E m \in Pick(0..2) : Log([o |-> "getcwd", m |-> m]) /\ Stay /\ UNCHANGED opened
GPath == \E i \in Pick(1..Len(Paths)), c \in Pick(Alphabet \cap {"stat", "lstat", "readlink", "access", "scandir", "ifextract", "if", "exec"}) :
   Inside(Paths[i]) /\ c # "ifextract" /\ Log([o |-> c, i |-> i]) /\ Stay /\ UNCHANGED opened
GExtract == \E i \in Pick(1..Len(Paths)) : LET p == Paths[i]  n == IF ToImg(p) THEN ImgNode(p, TRUE) ELSE 0 IN
   /\ Inside(p) /\ Log([o |-> "ifextract", i |-> i]) /\ UNCHANGED opened /\ Stay
GOpen == \E i \in Pick(1..Len(Paths)) : LET p == Paths[i]  n == IF ToImg(p) THEN ImgNode(p, TRUE) ELSE OsNode(p, TRUE) IN
   /\ Inside(p) /\ ~ Full /\ Log([o |-> "open", s |-> Free, i |-> i])
   /\ IF n # 0 THEN EOpen(p, -100, Free, 0, IF ToImg(p) THEN 1 ELSE 0) /\ opened' = opened \cup {Free} ELSE Stay /\ UNCHANGED opened
Live(fd) == fd \in DOMAIN fds \/ fd \in DOMAIN osf
Streamed(fd) == IF fd \in DOMAIN fds THEN fds[fd].d # 0 ELSE fd \in DOMAIN osf /\ osf[fd].d # 0
GClose == \E fd \in Pick(opened) :
   /\ Live(fd) /\ ~ Streamed(fd) /\ Log([o |-> "close", s |-> fd]) /\ UNCHANGED opened /\ EClose(fd, 0, 0)
FNode(fd) == IF fd \in DOMAIN fds THEN Node(fds[fd].h, fds[fd].n) ELSE ONode(osf[fd].n)
FPos(fd) == IF fd \in DOMAIN fds THEN fds[fd].pos ELSE osf[fd].pos
GRead == \E fd \in Pick(opened), n \in Pick({1, 7, 4097}) :
   /\ Live(fd) /\ Log([o |-> "read", s |-> fd, n |-> n]) /\ UNCHANGED opened
   /\ IF FNode(fd).kind = "reg"
      THEN LET k == WClip(WSub(FNode(fd).size, FPos(fd)), n) IN ERead(fd, n, k, 0, Pieces(FNode(fd).segs, FPos(fd), k))
      ELSE Stay
GPread == \E fd \in Pick(opened), n \in Pick({0, 5, 9000}), off \in Pick({-1, 0, 6, 4090, 100000}) :
   Live(fd) /\ Log([o |-> "pread", s |-> fd, n |-> n, off |-> off]) /\ UNCHANGED opened /\ Stay
Splits == << <<>>, <<0>>, <<3, 0, 4>>, <<0, 5000, 1>>, <<1, 1, 9000, 2>> >>
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
GReadv == \E fd \in Pick(opened), j \in Pick(1..Len(Splits)) : LET n == Sum(Splits[j]) IN
   /\ Live(fd) /\ Log([o |-> "readv", s |-> fd, l |-> Splits[j]]) /\ UNCHANGED opened
   /\ IF FNode(fd).kind = "reg"
      THEN LET k == WClip(WSub(FNode(fd).size, FPos(fd)), n) IN
           IF n = 0 THEN Stay ELSE ERead(fd, n, k, 0, Pieces(FNode(fd).segs, FPos(fd), k))
      ELSE Stay
GSeek == \E fd \in Pick(opened), off \in Pick({-3, 0, 5, 6000}), wh \in Pick({0, 1, 2, 7}) :
   /\ Live(fd) /\ FNode(fd).kind = "reg" /\ Log([o |-> "lseek", s |-> fd, off |-> off, wh |-> wh]) /\ UNCHANGED opened
   /\ LET t == CASE wh = 0 -> W(off) [] wh = 1 -> WAdd(FPos(fd), W(off)) [] wh = 2 -> WAdd(FNode(fd).size, W(off)) [] OTHER -> W(-1) IN
      IF WNeg(t) THEN Stay ELSE ESeek(fd, W(off), wh, 0, t, 0)
GFstat == \E fd \in Pick(opened) : Live(fd) /\ Log([o |-> "fstat", s |-> fd]) /\ Stay /\ UNCHANGED opened
GOpenDir == \E i \in Pick(1..Len(Paths)) : LET p == Paths[i]  n == IF ToImg(p) THEN ImgNode(p, TRUE) ELSE OsNode(p, TRUE) IN
   /\ Inside(p) /\ ~ Full /\ HasSlot /\ Log([o |-> "opendir", s |-> Slot, i |-> i]) /\ UNCHANGED opened
   /\ IF n # 0 /\ (IF ToImg(p) THEN Node(0, n).kind ELSE ONode(n).kind) = "dir"
      THEN EOpenDir(Slot, p, 0, 0, Free, IF ToImg(p) THEN 1 ELSE 0) ELSE Stay
GFdOpenDir == \E fd \in Pick(opened) :
   /\ Live(fd) /\ ~ Streamed(fd) /\ HasSlot /\ Log([o |-> "fdopendir", s |-> Slot, f |-> fd]) /\ UNCHANGED opened
   /\ IF FNode(fd).kind = "dir" THEN EFdOpenDir(Slot, fd, 0, 0, IF fd \in DOMAIN fds THEN 1 ELSE 0, 1) ELSE Stay
GStream == \E s \in Pick(DOMAIN dst \cup DOMAIN osd), c \in Pick({"readdirs", "rewinddir", "dirfd"}) :
   /\ Log([o |-> c, s |-> s]) /\ UNCHANGED opened
   /\ IF c = "dirfd" \/ (c = "readdirs" /\ FALSE) THEN Stay
      ELSE IF c = "rewinddir" THEN ERewind(s)
      ELSE IF s \in DOMAIN osd THEN osd' = [osd EXCEPT ![s].atend = TRUE] /\ UNCHANGED <<vars, cwd, osf>>
      ELSE dst' = [dst EXCEPT ![s].loc = Len(Names(dst[s].h, dst[s].n))] /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm, ovars>>
GCloseDir == \E s \in Pick(DOMAIN dst \cup DOMAIN osd) :
   /\ Log([o |-> "closedir", s |-> s]) /\ ECloseDir(s, 0)
   /\ opened' = opened \ {IF s \in DOMAIN osd THEN osd[s].fd ELSE dst[s].fd}

A(x) == x \in Alphabet
GenInit == /\ hnd = [h \in {0} |-> 1] /\ als = [h \in {0} |-> {}]
           /\ fds = Empty /\ dst = Empty /\ sysf = Empty
           /\ trv = Empty /\ lcur = Empty /\ ext = {} /\ warm = -1
           /\ cwd = [side |-> "os", stk |-> <<Root>>, cs |-> <<>>] /\ osf = Empty /\ osd = Empty
           /\ hist = <<>> /\ opened = {}
GenNext ==
  /\ Len(hist) < Depth
  /\ \/ A("chdir") /\ GChdir
     \/ A("getcwd") /\ GGetcwd
     \/ A("path") /\ GPath
     \/ A("ifextract") /\ GExtract
     \/ A("open") /\ GOpen
     \/ A("close") /\ GClose
     \/ A("read") /\ GRead
     \/ A("pread") /\ GPread
     \/ A("readv") /\ GReadv
     \/ A("lseek") /\ GSeek
     \/ A("fstat") /\ GFstat
     \/ A("opendir") /\ GOpenDir
     \/ A("fdopendir") /\ GFdOpenDir
     \/ A("readdirs") /\ GStream
     \/ A("closedir") /\ GCloseDir
GenSpec == GenInit /\ [][GenNext]_gvars
Printed == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
==============================================================================
