------------------------------- MODULE ShadowGen ------------------------------
(* Behaviours of Shadow to be replayed on the sample's layer (see SquashGen).  *)
EXTENDS Shadow
CONSTANTS Alphabet, Depth, MaxFd, MaxStreams, Sim
VARIABLES hist, opened
Paths == ndJsonDeserialize(IOEnv.PATHS)      \* [k, cs]
gvars == <<all, hist, opened>>
Log(o) == hist' = Append(hist, o)
Pick(S) == IF Sim /\ S # {} THEN {RandomElement(S)} ELSE S
A(x) == x \in Alphabet
Free == CHOOSE f \in 3..(MaxFd + 3) : ~ SBusy(f) /\ \A g \in 3..(f - 1) : SBusy(g)
Full == Cardinality(DOMAIN fds) + Cardinality(DOMAIN osf) + Cardinality(DOMAIN shf) >= MaxFd
Slots == DOMAIN dst \cup DOMAIN osd \cup DOMAIN shs
Slot == CHOOSE s \in 1..MaxStreams : s \notin Slots /\ \A t \in 1..(s - 1) : t \in Slots
HasSlot == Cardinality(Slots) < MaxStreams
Stay == UNCHANGED all
\* relative paths only while the current directory is in the image
Inside(p) == p.k # "rel" \/ cwd.side = "img"
Flags == << [acc |-> 1, creat |-> TRUE, excl |-> FALSE, trunc |-> TRUE, app |-> FALSE],
            [acc |-> 2, creat |-> TRUE, excl |-> TRUE, trunc |-> FALSE, app |-> FALSE],
            [acc |-> 0, creat |-> TRUE, excl |-> FALSE, trunc |-> FALSE, app |-> FALSE],
            [acc |-> 0, creat |-> FALSE, excl |-> FALSE, trunc |-> FALSE, app |-> FALSE],
            [acc |-> 1, creat |-> TRUE, excl |-> FALSE, trunc |-> TRUE, app |-> TRUE],
            [acc |-> 2, creat |-> TRUE, excl |-> FALSE, trunc |-> FALSE, app |-> TRUE] >>
GMkdir == \E i \in Pick(1..Len(Paths)) : LET p == Paths[i] IN
   /\ ToImg(p) /\ Inside(p) /\ Log([o |-> "mkdir", i |-> i]) /\ UNCHANGED opened
   /\ IF ~ Exists(NP(p)) /\ Makable(NP(p)) THEN EMkdir(p, 493, 0, 0) ELSE Stay
ImgFile(np) == \E n \in INodes(np) : Node(0, n).kind # "dir"
GOpen == \E i \in Pick(1..Len(Paths)), j \in Pick(1..Len(Flags)) : LET p == Paths[i]  f == Flags[j]  np == NP(p) IN
   /\ ToImg(p) /\ Inside(p) /\ ~ Full
   \* writing to a file of the image without emptying it is not said
   /\ (f.acc # 0 /\ ~ f.trunc /\ ~ f.excl => Made(np) \/ ~ IsImg(np) \/ ImgDir(np))
   /\ Log([o |-> "open", s |-> Free, i |-> i, f |-> f])
   /\ LET works == IF Made(np) THEN ~ (f.creat /\ f.excl) /\ (shd[np].kind = "dir" => ~ f.creat /\ f.acc = 0)
                   ELSE IF f.creat THEN IF IsImg(np) THEN ~ f.excl /\ ~ ImgDir(np) ELSE Makable(np)
                   ELSE IsImg(np)
          virt == IF Made(np) \/ np \in mat \/ (f.creat /\ ~ (IsImg(np) /\ f.acc = 0)) THEN 0 ELSE 1 IN
      IF works THEN SOpen(p, f, 420, Free, 0, virt) /\ opened' = opened \cup {Free} ELSE Stay /\ UNCHANGED opened
Live(fd) == fd \in DOMAIN fds \/ fd \in DOMAIN shf
GClose == \E fd \in Pick({ x \in opened : Live(x) }) :
   /\ (fd \in DOMAIN shf => shf[fd].d = 0) /\ Log([o |-> "close", s |-> fd]) /\ opened' = opened \ {fd} /\ XClose(fd, 0, 0)
Texts == << <<7>>, <<1, 2, 3, 4, 5>>, <<>> >>
GWrite == \E fd \in Pick({ x \in opened : x \in DOMAIN shf }), j \in Pick(1..Len(Texts)) :
   /\ Log([o |-> "write", s |-> fd, b |-> Texts[j]]) /\ UNCHANGED opened
   /\ IF shf[fd].w THEN XWrite(fd, Texts[j], Len(Texts[j]), 0) ELSE Stay
GRead == \E fd \in Pick({ x \in opened : x \in DOMAIN shf }), n \in Pick({1, 4, 100}) :
   /\ Log([o |-> "read", s |-> fd, n |-> n]) /\ UNCHANGED opened
   /\ IF shf[fd].r /\ ~ Dir(fd) THEN LET k == Clip(Data(fd), shf[fd].pos, n) IN XRead(fd, n, k, 0, <<>>, SubSeq(Data(fd), shf[fd].pos + 1, shf[fd].pos + k)) ELSE Stay
GSeek == \E fd \in Pick({ x \in opened : x \in DOMAIN shf }), off \in Pick({0, 2, 7, -1}), wh \in Pick({0, 1, 2}) :
   /\ ~ Dir(fd) /\ Log([o |-> "lseek", s |-> fd, off |-> off, wh |-> wh]) /\ UNCHANGED opened
   /\ LET t == (IF wh = 0 THEN 0 ELSE IF wh = 1 THEN shf[fd].pos ELSE Len(Data(fd))) + off IN
      IF t < 0 THEN Stay ELSE XSeek(fd, W(off), wh, 0, W(t), 0)
GChdir == \E i \in Pick(1..Len(Paths)) : LET p == Paths[i] IN
   /\ ToImg(p) /\ Inside(p) /\ Len(cwd.cs) + Len(p.cs) < 9 /\ Log([o |-> "chdir", i |-> i]) /\ UNCHANGED opened
   /\ IF DirAt(NP(p)) THEN XChdir(p, 0, 0) ELSE Stay
GPath == \E i \in Pick(1..Len(Paths)), c \in Pick(Alphabet \cap {"stat", "lstat", "access", "readlink", "scandir", "list"}) :
   Inside(Paths[i]) /\ Log([o |-> c, i |-> i]) /\ Stay /\ UNCHANGED opened
GOpenDir == \E i \in Pick(1..Len(Paths)) : LET p == Paths[i]  np == NP(p) IN
   /\ ToImg(p) /\ Inside(p) /\ ~ Full /\ HasSlot /\ Log([o |-> "opendir", s |-> Slot, i |-> i]) /\ UNCHANGED opened
   /\ IF DirAt(np) THEN XOpenDir(Slot, p, 0, 0, Free, IF Mine(p) THEN 0 ELSE 1) ELSE Stay
GReadDirs == \E s \in Pick(Slots) :
   /\ Log([o |-> "readdirs", s |-> s]) /\ UNCHANGED opened
   /\ IF s \in DOMAIN shs THEN shs' = [shs EXCEPT ![s].atend = TRUE] /\ UNCHANGED <<shd, mat, shf, vars, ovars>>
      ELSE dst' = [dst EXCEPT ![s].loc = Len(Names(dst[s].h, dst[s].n))] /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm, ovars, svars>>
GRewind == \E s \in Pick(Slots) : Log([o |-> "rewinddir", s |-> s]) /\ UNCHANGED opened /\ XRewind(s)
GCloseDir == \E s \in Pick(Slots) : Log([o |-> "closedir", s |-> s]) /\ UNCHANGED opened /\ XCloseDir(s, 0)
GenInit == /\ hnd = [h \in {0} |-> 1] /\ als = [h \in {0} |-> {}]
           /\ fds = Empty /\ dst = Empty /\ sysf = Empty
           /\ trv = Empty /\ lcur = Empty /\ ext = {} /\ warm = -1
           /\ cwd = [side |-> "os", stk |-> <<Root>>, cs |-> <<>>] /\ osf = Empty /\ osd = Empty
           /\ shd = Empty /\ mat = {} /\ shf = Empty /\ shs = Empty
           /\ hist = <<>> /\ opened = {}
GenNext ==
  /\ Len(hist) < Depth
  /\ \/ A("mkdir") /\ GMkdir
     \/ A("open") /\ GOpen
     \/ A("close") /\ GClose
     \/ A("write") /\ GWrite
     \/ A("read") /\ GRead
     \/ A("lseek") /\ GSeek
     \/ A("chdir") /\ GChdir
     \/ A("path") /\ GPath
     \/ A("opendir") /\ GOpenDir
     \/ A("readdirs") /\ GReadDirs
     \/ A("rewinddir") /\ GRewind
     \/ A("closedir") /\ GCloseDir
GenSpec == GenInit /\ [][GenNext]_gvars
\* nothing of the image goes away: a name of it still stands for the same entry, or for a file made in its place
Kept == \A i \in 1..Len(Paths) : LET p == Paths[i] IN
   ToImg(p) /\ IsImg(NP(p)) => Exists(NP(p)) /\ (ImgDir(NP(p)) <=> DirAt(NP(p)))
Printed == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
==============================================================================
