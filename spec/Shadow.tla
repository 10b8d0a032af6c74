------------------------------- MODULE Shadow -------------------------------
(* What a program makes below the mount point.  The image is never changed:   *)
(* directories and files that are made there are kept beside it and looked at  *)
(* first.  Everything else is as in Overlay.                                   *)
EXTENDS Overlay
VARIABLES
  shd,    \* what was made: path -> [kind |-> "dir" or "reg", mode, data: bytes]
  mat,    \* the image's directories below which something was made
  shf,    \* descriptors of these: number -> [p, pos, r, w, app, d: stream slot or 0]
  shs     \* directory streams of these: slot -> [p, fd, atend, seen: what was there when it was opened]
svars == <<shd, mat, shf, shs>>
all == <<vars, ovars, svars>>
EEXIST == 17
EACCES == 13
EISDIR_ == EISDIR
SInit == OInit /\ shd = Empty /\ mat = {} /\ shf = Empty /\ shs = Empty

(* --------------------------------- names -------------------------------- *)
Plain(cs) == SelectSeq(cs, LAMBDA x : x # "" /\ x # ".")
NP(p) == Plain(ImgPath(p))
Made(np) == np \in DOMAIN shd
Par(np) == SubSeq(np, 1, Len(np) - 1)
INodes(np) == OKs(0, <<"">> \o np, TRUE)
IsImg(np) == INodes(np) # {}
ImgDir(np) == \E n \in INodes(np) : Node(0, n).kind = "dir"
DirAt(np) == IF Made(np) THEN shd[np].kind = "dir" ELSE ImgDir(np)
Exists(np) == Made(np) \/ IsImg(np)
\* some part of the way is there and is no directory
ThroughFile(np) == \E i \in 1..(Len(np) - 1) : LET q == SubSeq(np, 1, i) IN Exists(q) /\ ~ DirAt(q)
ImgAncestors(np) == { q \in { SubSeq(np, 1, i) : i \in 1..(Len(np) - 1) } : ~ Made(q) /\ IsImg(q) }
OwnerR(m) == (m \div 256) % 2 = 1
OwnerW(m) == (m \div 128) % 2 = 1
CanMakeIn(np) == Made(np) => OwnerW(shd[np].mode)
SBusy(fd) == OBusy(fd) \/ fd \in DOMAIN shf
KeepS == UNCHANGED svars
KeepO == UNCHANGED <<vars, ovars>>
\* descriptors of the two other kinds stay apart from these
Apart(ret) == ret \notin DOMAIN shf

(* -------------------------------- making -------------------------------- *)
\* a name that is not there cannot be made, and why
Refused(np, err) ==
  \/ ~ DirAt(Par(np)) /\ (err = ENOENT \/ (err = ENOTDIR /\ ThroughFile(np)))
  \/ DirAt(Par(np)) /\ ~ CanMakeIn(Par(np)) /\ err = EACCES
\* the mount point itself is there to make things in, whether or not the image has it
Makable(np) == Len(np) = 2 \/ (DirAt(Par(np)) /\ CanMakeIn(Par(np)))
EMkdir(p, mode, ret, err) ==
  /\ IF ToImg(p)
     THEN LET np == NP(p) IN
          IF Exists(np) THEN ret = -1 /\ err = EEXIST /\ KeepS
          ELSE IF ~ Makable(np) THEN ret = -1 /\ Refused(np, err) /\ KeepS
          ELSE /\ ret = 0
               /\ shd' = Put(shd, np, [kind |-> "dir", mode |-> mode, data |-> <<>>])
               /\ mat' = mat \cup ImgAncestors(np)
               /\ UNCHANGED <<shf, shs>>
     \* the system's side: only what fails is tried here
     ELSE LET r == OsLookup(p, FALSE) IN
          /\ ret = -1 /\ KeepS
          /\ IF r.st = "ok" THEN err = EEXIST ELSE err \in OsErr(r)
  /\ KeepO
\* f: [acc: 0 read, 1 write, 2 both; creat, excl, trunc, app]
NewFd(np, f) == [p |-> np, pos |-> 0, r |-> f.acc # 1, w |-> f.acc # 0, app |-> f.app, d |-> 0]
SOpen(p, f, mode, ret, err, virt) ==
  IF ~ ToImg(p)
  THEN /\ KeepS
       /\ IF f.creat /\ f.excl
          THEN ret = -1 /\ KeepO /\ (LET r == OsLookup(p, FALSE) IN IF r.st = "ok" THEN err = EEXIST ELSE err \in OsErr(r))
          ELSE EOpen(p, -100, ret, err, virt) /\ Apart(ret)
  ELSE LET np == NP(p)
           fails(e) == ret = -1 /\ err = e /\ KeepS /\ KeepO
           opens == /\ ret >= 0 /\ ~ SBusy(ret) /\ virt = 0
                    /\ shf' = Put(shf, ret, NewFd(np, f)) /\ UNCHANGED shs /\ KeepO
           makes == /\ shd' = Put(shd, np, [kind |-> "reg", mode |-> mode, data |-> <<>>])
                    /\ mat' = mat \cup ImgAncestors(np) IN
       IF Made(np)
       THEN LET e == shd[np] IN
            IF f.creat /\ f.excl THEN fails(EEXIST)
            ELSE IF e.kind = "dir"
            THEN IF f.creat \/ f.acc # 0 THEN fails(EISDIR) ELSE opens /\ UNCHANGED <<shd, mat>>
            ELSE IF (f.acc # 1 /\ ~ OwnerR(e.mode)) \/ (f.acc # 0 /\ ~ OwnerW(e.mode)) THEN fails(EACCES)
            ELSE opens /\ shd' = (IF f.trunc THEN [shd EXCEPT ![np].data = <<>>] ELSE shd) /\ UNCHANGED mat
       ELSE IF f.creat
       THEN IF IsImg(np)
            THEN IF f.excl THEN fails(EEXIST)
                 ELSE IF ImgDir(np) THEN fails(EISDIR)
                 ELSE IF f.acc = 0 /\ ~ f.trunc THEN EOpen(p, -100, ret, err, virt) /\ Apart(ret) /\ KeepS
                 \* replaced by an empty one
                 ELSE f.acc # 0 /\ f.trunc /\ opens /\ makes
            ELSE IF ~ Makable(np) THEN ret = -1 /\ Refused(np, err) /\ KeepS /\ KeepO
            ELSE opens /\ makes
       ELSE /\ f.acc = 0 \/ ~ IsImg(np)      \* writing to a file of the image is not said
            /\ IF np \in mat /\ virt = 0 THEN opens /\ UNCHANGED <<shd, mat>>
               ELSE EOpen(p, -100, ret, err, virt) /\ Apart(ret) /\ KeepS

(* --------------------------- descriptors of files ------------------------ *)
Dir(fd) == LET p == shf[fd].p IN IF Made(p) THEN shd[p].kind = "dir" ELSE TRUE
Data(fd) == shd[shf[fd].p].data
Clip(d, pos, n) == IF pos >= Len(d) THEN 0 ELSE IF Len(d) - pos < n THEN Len(d) - pos ELSE n
Zeros(n) == [i \in 1..n |-> 0]
Spliced(d, at, b) ==
  IF b = <<>> THEN d
  ELSE LET e == at + Len(b)  n == IF e > Len(d) THEN e ELSE Len(d) IN
       [i \in 1..n |-> IF i > at /\ i <= e THEN b[i - at] ELSE IF i <= Len(d) THEN d[i] ELSE 0]
SRead(fd, pos, n, ret, err, bytes) ==
  IF ~ shf[fd].r THEN ret = -1 /\ err = EBADF
  ELSE IF Dir(fd) THEN ret = -1 /\ err \in {EISDIR, EINVAL, EBADF}
  ELSE ret = Clip(Data(fd), pos, n) /\ bytes = SubSeq(Data(fd), pos + 1, pos + ret)
Small(w) == w[1] = 0
XRead(fd, n, ret, err, pieces, bytes) ==
  IF fd \in DOMAIN shf
  THEN /\ SRead(fd, shf[fd].pos, n, ret, err, bytes)
       /\ shf' = (IF ret > 0 THEN [shf EXCEPT ![fd].pos = @ + ret] ELSE shf)
       /\ UNCHANGED <<shd, mat, shs>> /\ KeepO
  ELSE ERead(fd, n, ret, err, pieces) /\ KeepS
XReadv(fd, n, ret, err, pieces, clean, bytes) ==
  IF fd \in DOMAIN shf THEN (ret >= 0 => clean = 1) /\ XRead(fd, n, ret, err, pieces, bytes)
  ELSE EReadv(fd, n, ret, err, pieces, clean) /\ KeepS
XPread(fd, n, off, ret, err, pieces, bytes) ==
  IF fd \in DOMAIN shf
  THEN /\ IF WNeg(off) THEN ret = -1 /\ err = EINVAL
          ELSE SRead(fd, IF Small(off) THEN off[2] ELSE 1048576, n, ret, err, bytes)
       /\ KeepO /\ KeepS
  ELSE EPread(fd, n, off, ret, err, pieces) /\ KeepS
XSeek(fd, off, whence, ret, res, err) ==
  IF fd \in DOMAIN shf
  THEN LET f == shf[fd]
           t == CASE whence = 0 -> off [] whence = 1 -> WAdd(W(f.pos), off) [] whence = 2 -> WAdd(W(Len(Data(fd))), off) [] OTHER -> W(-1) IN
       /\ ~ Dir(fd)
       /\ IF WNeg(t) THEN ret = -1 /\ err = EINVAL /\ UNCHANGED shf
          ELSE ret = 0 /\ res = t /\ Small(t) /\ shf' = [shf EXCEPT ![fd].pos = t[2]]
       /\ UNCHANGED <<shd, mat, shs>> /\ KeepO
  ELSE ESeek(fd, off, whence, ret, res, err) /\ KeepS
XWrite(fd, b, ret, err) ==
  /\ fd \in DOMAIN shf
  /\ IF ~ shf[fd].w THEN ret = -1 /\ err = EBADF /\ UNCHANGED <<shd, shf>>
     ELSE LET p == shf[fd].p  at == IF shf[fd].app THEN Len(shd[p].data) ELSE shf[fd].pos IN
          /\ ret = Len(b)
          /\ shd' = [shd EXCEPT ![p].data = Spliced(@, at, b)]
          /\ shf' = (IF b = <<>> THEN shf ELSE [shf EXCEPT ![fd].pos = at + Len(b)])
  /\ UNCHANGED <<mat, shs>> /\ KeepO
XClose(fd, ret, err) ==
  IF fd \in DOMAIN shf THEN ret = 0 /\ shf[fd].d = 0 /\ shf' = Drop(shf, fd) /\ UNCHANGED <<shd, mat, shs>> /\ KeepO
  ELSE EClose(fd, ret, err) /\ KeepS
MadeStat(np, st) ==
  IF Made(np)
  THEN LET e == shd[np] IN
       /\ st.mode = e.mode + (IF e.kind = "dir" THEN 16384 ELSE 32768)
       /\ (e.kind = "reg" => <<st.sizehi, st.sizelo>> = W(Len(e.data)))
  ELSE st.mode \div 4096 = 4       \* a directory of the image; the rest is not said
XFstat(fd, ret, err, st) ==
  IF fd \in DOMAIN shf THEN ret = 0 /\ MadeStat(shf[fd].p, st) /\ KeepO /\ KeepS
  ELSE EFstat(fd, ret, err, st) /\ KeepS

(* ------------------------------- by path -------------------------------- *)
Mine(p) == ToImg(p) /\ (Made(NP(p)) \/ NP(p) \in mat)
XStat(p, follow, ret, err, st) ==
  IF Mine(p) THEN ret = 0 /\ MadeStat(NP(p), st) /\ KeepO /\ KeepS ELSE EStat(p, follow, ret, err, st) /\ KeepS
\* mode: 0 existence, 4 reading
XAccess(p, mode, ret, err) ==
  IF Mine(p)
  THEN /\ IF mode = 4 /\ Made(NP(p)) /\ ~ OwnerR(shd[NP(p)].mode) THEN ret = -1 /\ err = EACCES ELSE ret = 0
       /\ KeepO /\ KeepS
  ELSE EAccess(p, ret, err) /\ KeepS
XReadlink(p, n, ret, err, target) ==
  IF Mine(p) THEN ret = -1 /\ err = EINVAL /\ KeepO /\ KeepS ELSE EReadlink(p, n, ret, err, target) /\ KeepS
XChdir(p, ret, err) ==
  IF ToImg(p) /\ Made(NP(p))
  THEN /\ IF shd[NP(p)].kind = "dir"
          THEN ret = 0 /\ cwd' = [side |-> "img", cs |-> ImgPath(p), stk |-> <<>>]
          ELSE ret = -1 /\ err = ENOTDIR /\ UNCHANGED cwd
       /\ UNCHANGED <<vars, osf, osd>> /\ KeepS
  ELSE EChdir(p, ret, err) /\ KeepS
XGetcwd(size, mode, ret, err, room, kind, cs) ==
  /\ KeepS
  /\ IF cwd.side = "img" /\ Made(Plain(cwd.cs)) /\ ret = 0
     THEN (mode = 0 => room <= size) /\ kind = "as" /\ Plain(cs) = Plain(cwd.cs) /\ KeepO
     ELSE EGetcwd(size, mode, 0, ret, err, room, kind, cs)

(* -------------------------- directory streams --------------------------- *)
Children(np) == { <<q[Len(q)], shd[q].kind>> : q \in { x \in DOMAIN shd : Len(x) = Len(np) + 1 /\ SubSeq(x, 1, Len(np)) = np } }
ImgChildren(np) == UNION { { <<Names(0, n)[i], Node(0, Node(0, n).kids[i]).kind>> : i \in 1..Len(Names(0, n)) } : n \in { x \in INodes(np) : Node(0, x).kind = "dir" } }
\* what a listing has to show: everything that is there
Entries(np) == LET c == Children(np)  nm == { x[1] : x \in c } IN
  IF Made(np) THEN c ELSE c \cup { x \in ImgChildren(np) : x[1] \notin nm }
\* what it shows of the image's own directories once something was made in them (KNOWN_FINDINGS)
Beside(np) == Children(np) \cup { x \in ImgChildren(np) : Append(np, x[1]) \in mat }
\* findings that are let pass
Known(name) == name \in DOMAIN IOEnv /\ IOEnv[name] = "1"
Shown(list) == { <<e.name, e.type>> : e \in ToSet(list) }
\* between opening and reading something may have been made
ListOK(np, before, list) ==
  /\ Len(list) = Cardinality(Shown(list))
  /\ \/ before.full \subseteq Shown(list) /\ Shown(list) \subseteq Entries(np)
     \/ np \in mat /\ Known("KNOWN_beside") /\ before.beside \subseteq Shown(list) /\ Shown(list) \subseteq Beside(np)
Now(np) == [full |-> Entries(np), beside |-> Beside(np)]
\* the listing of the mount point itself is the image's, whatever was made (KNOWN_FINDINGS)
Mount(p) == Len(NP(p)) = 1 /\ Known("KNOWN_mount")
XOpenDir(s, p, ret, err, fd, virt) ==
  IF Mine(p) /\ ~ (Mount(p) /\ virt = 1)
  THEN LET np == NP(p) IN
       /\ s \notin DOMAIN shs /\ s \notin DOMAIN osd /\ s \notin DOMAIN dst
       /\ IF Made(np) /\ shd[np].kind = "reg" THEN ret = -1 /\ err = ENOTDIR /\ UNCHANGED <<shf, shs>>
          ELSE /\ ret = 0 /\ virt = 0 /\ ~ SBusy(fd)
               /\ shf' = Put(shf, fd, [p |-> np, pos |-> 0, r |-> TRUE, w |-> FALSE, app |-> FALSE, d |-> s])
               /\ shs' = Put(shs, s, [p |-> np, fd |-> fd, atend |-> FALSE, seen |-> Now(np)])
       /\ UNCHANGED <<shd, mat>> /\ KeepO
  ELSE EOpenDir(s, p, ret, err, fd, virt) /\ s \notin DOMAIN shs /\ (ret = 0 => Apart(fd)) /\ KeepS
XFdOpenDir(s, fd, ret, err, virt, same) ==
  IF fd \in DOMAIN shf
  THEN /\ s \notin DOMAIN shs /\ s \notin DOMAIN osd /\ s \notin DOMAIN dst
       /\ IF Dir(fd)
          THEN /\ ret = 0 /\ virt = 0 /\ same = 1 /\ shf[fd].d = 0
               /\ shf' = [shf EXCEPT ![fd].d = s]
               /\ shs' = Put(shs, s, [p |-> shf[fd].p, fd |-> fd, atend |-> FALSE, seen |-> Now(shf[fd].p)])
          ELSE ret = -1 /\ err = ENOTDIR /\ UNCHANGED <<shf, shs>>
       /\ UNCHANGED <<shd, mat>> /\ KeepO
  ELSE EFdOpenDir(s, fd, ret, err, virt, same) /\ s \notin DOMAIN shs /\ KeepS
XReadDirs(s, k, list, ret, err) ==
  IF s \in DOMAIN shs
  THEN /\ k < 0
       /\ (IF shs[s].atend THEN list = <<>> ELSE ListOK(shs[s].p, shs[s].seen, list))
       /\ shs' = [shs EXCEPT ![s].atend = TRUE] /\ UNCHANGED <<shd, mat, shf>> /\ KeepO
  ELSE EReadDirs(s, k, list, ret, err) /\ KeepS
XRewind(s) ==
  IF s \in DOMAIN shs
  THEN shs' = [shs EXCEPT ![s].atend = FALSE, ![s].seen = Now(shs[s].p)] /\ UNCHANGED <<shd, mat, shf>> /\ KeepO
  ELSE ERewind(s) /\ KeepS
XDirFd(s, ret) == IF s \in DOMAIN shs THEN ret = shs[s].fd /\ KeepO /\ KeepS ELSE EDirFd(s, ret) /\ KeepS
XCloseDir(s, ret) ==
  IF s \in DOMAIN shs THEN ret = 0 /\ shf' = Drop(shf, shs[s].fd) /\ shs' = Drop(shs, s) /\ UNCHANGED <<shd, mat>> /\ KeepO
  ELSE ECloseDir(s, ret) /\ KeepS
XScandir(p, sel, cmp, ret, err, list) ==
  IF Mine(p)
  THEN LET np == NP(p) IN
       /\ sel \in {0, 1, 2}
       /\ \/ /\ IF Made(np) /\ shd[np].kind = "reg" THEN ret = -1 /\ err = ENOTDIR
                ELSE IF sel = 2 THEN ret = 0 /\ list = <<>>
                ELSE ret = Len(list) /\ ListOK(np, Now(np), list)
             /\ KeepO
          \/ Mount(p) /\ EScandir(p, sel, cmp, ret, err, list)
       /\ KeepS
  ELSE EScandir(p, sel, cmp, ret, err, list) /\ KeepS

(* ------------------------------ invariants ------------------------------ *)
SConsistent ==
  /\ OConsistent
  /\ DOMAIN shf \cap (DOMAIN fds \cup DOMAIN osf) = {}
  /\ DOMAIN shs \cap (DOMAIN dst \cup DOMAIN osd) = {}
  /\ \A s \in DOMAIN shs : shs[s].fd \in DOMAIN shf /\ shf[shs[s].fd].d = s
  /\ \A fd \in DOMAIN shf : Made(shf[fd].p) \/ shf[fd].p \in mat
  \* whatever was made lies in a directory, and no directory takes the place of anything
  /\ 0 \in DOMAIN hnd => \A q \in DOMAIN shd :
       /\ (Len(q) = 2 \/ DirAt(Par(q)))
       /\ (shd[q].kind = "dir" => ~ IsImg(q))
       /\ (shd[q].kind = "reg" => ~ ImgDir(q))
       /\ \A a \in ImgAncestors(q) : a \in mat
  /\ 0 \in DOMAIN hnd => \A q \in mat : ImgDir(q)
=============================================================================
