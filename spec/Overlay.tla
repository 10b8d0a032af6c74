------------------------------- MODULE Overlay -------------------------------
(* The sample's system-call layer: two file trees under one name space.  A     *)
(* path that begins with the mount point, or a relative one while the current  *)
(* directory is inside the image, belongs to the image (handle 0, SquashAPI);  *)
(* every other path belongs to the operating system, whose tree is the last    *)
(* of Trees and is not changed by anyone.                                      *)
EXTENDS SquashAPI
VARIABLES
  cwd,    \* [side |-> "os", stk: nodes from the top of the OS tree, cs |-> <<>>]
          \* or [side |-> "img", cs: the directory as a path, stk |-> <<>>]
  osf,    \* OS descriptors: number -> [n: node, pos, d: stream slot or 0]
  osd     \* OS directory streams: slot -> [n, fd, atend, tells]
ovars == <<cwd, osf, osd>>
OT == Trees[Len(Trees)]
ONode(n) == OT.nodes[n]
EINTERNAL == 9999
OInit == Init /\ cwd = [side |-> "os", stk |-> <<Root>>, cs |-> <<>>] /\ osf = Empty /\ osd = Empty

(* ------------------------------- routing -------------------------------- *)
\* p: [k |-> "img" (absolute, with the mount point) | "os" (absolute) | "rel", cs: components]
ToImg(p) == p.k = "img" \/ (p.k = "rel" /\ cwd.side = "img")
ImgPath(p) == IF p.k = "img" THEN p.cs ELSE cwd.cs \o p.cs
OsFrom(stk, p, follow) == Splice(OT, {}, IF p.k = "os" THEN <<Root>> ELSE stk, p.cs, follow, 0)
RECURSIVE StackOf(_, _)
\* the directories from the top of the OS tree down to node n (OS directories have one parent)
Parent(n) == CHOOSE d \in 1..Len(OT.nodes) : OT.nodes[d].kind = "dir" /\ n \in ToSet(OT.nodes[d].kids)
StackOf(n, acc) == IF n = Root THEN <<Root>> \o acc ELSE StackOf(Parent(n), <<n>> \o acc)
OsLookup(p, follow) == OsFrom(cwd.stk, p, follow)
OsErr(r) == CASE r.st = "noent" -> {ENOENT} [] r.st = "notdir" -> {ENOTDIR} [] r.st = "loop" -> {ELOOP} [] OTHER -> {}
OsFails(p, follow, err) == LET r == OsLookup(p, follow) IN r.st # "ok" /\ err \in OsErr(r)
OBusy(fd) == Busy(fd) \/ fd \in DOMAIN osf
OsStatOK(n, st) == LET nd == ONode(n) IN
  /\ st.mode = nd.mode
  /\ (nd.kind = "reg" => <<st.sizehi, st.sizelo>> = nd.size /\ <<st.mthi, st.mtlo>> = nd.mtime)

(* --------------------------- current directory -------------------------- *)
EChdir(p, ret, err) ==
  /\ IF ToImg(p)
     THEN IF ret = 0
          THEN /\ \E n \in OKs(0, ImgPath(p), TRUE) : Node(0, n).kind = "dir"
               /\ cwd' = [side |-> "img", cs |-> ImgPath(p), stk |-> <<>>]
          ELSE /\ ret = -1 /\ UNCHANGED cwd
               /\ \/ LookupFails(0, ImgPath(p), TRUE, err)
                  \/ \E n \in OKs(0, ImgPath(p), TRUE) : Node(0, n).kind # "dir" /\ err \in {ENOTDIR, ENOENT}
     ELSE LET r == OsLookup(p, TRUE) IN
          IF ret = 0
          THEN r.st = "ok" /\ ONode(r.n).kind = "dir" /\ cwd' = [side |-> "os", stk |-> StackOf(r.n, <<>>), cs |-> <<>>]
          ELSE /\ ret = -1 /\ UNCHANGED cwd
               /\ \/ r.st # "ok" /\ err \in OsErr(r)
                  \/ r.st = "ok" /\ ONode(r.n).kind # "dir" /\ err = ENOTDIR
  /\ UNCHANGED <<vars, osf, osd>>
\* The path reported leads back to the current directory.  room: bytes it takes; kind: "os" (below the
\* scratch directory), "as" (as it is); size: of the buffer; base: length of the scratch directory's own path
EGetcwd(size, mode, base, ret, err, room, kind, cs) ==
  LET least == IF cwd.side = "img" THEN TextLen(cwd.cs) - (IF cwd.cs[Len(cwd.cs)] = "" THEN 1 ELSE 0)
               ELSE 0 IN
  /\ IF ret = 0
     THEN /\ (mode = 0 => room <= size)
          /\ IF cwd.side = "img"
             THEN kind = "as" /\ OKs(0, cs, TRUE) \cap OKs(0, cwd.cs, TRUE) # {} /\ Len(cs) >= 2 /\ SubSeq(cs, 1, 2) = SubSeq(cwd.cs, 1, 2)
             ELSE kind = "os" /\ LET r == Splice(OT, {}, <<Root>>, cs, TRUE, 0) IN r.st = "ok" /\ r.n = Top(cwd.stk)
     ELSE /\ mode = 0
          /\ \/ size = 0 /\ err = EINVAL
             \* no buffer that the path as it was set fits in is refused
             \/ size > 0 /\ err = ERANGE /\ (cwd.side = "img" => size < least)
  /\ UNCHANGED <<vars, ovars>>
EIf(p, ret) == ret = (IF ToImg(p) THEN 1 ELSE 0) /\ UNCHANGED <<vars, ovars>>

(* ------------------------------ descriptors ----------------------------- *)
EOpen(p, at, ret, err, virt) ==     \* at: an OS directory descriptor, or -100
  /\ IF ToImg(p) /\ (p.k = "img" \/ at = -100)
     THEN /\ Open(0, ImgPath(p), TRUE, ret, err) /\ UNCHANGED ovars
          /\ (ret >= 0 => virt = 1 /\ ret \notin DOMAIN osf)
     ELSE LET stk == IF at = -100 THEN cwd.stk ELSE StackOf(osf[at].n, <<>>)
              r == IF at # -100 /\ at \notin DOMAIN osf /\ p.k = "rel" THEN [st |-> "badf"]
                   ELSE IF at # -100 /\ p.k = "rel" /\ ONode(osf[at].n).kind # "dir" THEN [st |-> "notdir"]
                   ELSE OsFrom(stk, p, TRUE) IN
          /\ IF ret >= 0
             THEN /\ r.st = "ok" /\ ~ OBusy(ret) /\ virt = 0
                  /\ osf' = Put(osf, ret, [n |-> r.n, pos |-> W0, d |-> 0])
             ELSE /\ ret = -1 /\ UNCHANGED osf
                  /\ r.st # "ok" /\ err \in (IF r.st = "badf" THEN {EBADF} ELSE OsErr(r))
          /\ UNCHANGED <<vars, cwd, osd>>
EClose(fd, ret, err) ==
  IF fd \in DOMAIN osf
  THEN ret = 0 /\ osf' = Drop(osf, fd) /\ UNCHANGED <<vars, cwd, osd>>
  ELSE Close(fd, ret, err) /\ UNCHANGED ovars
OsRead(f, pos, n, ret, err, pieces) ==
  LET nd == ONode(f.n)  k == WClip(WSub(nd.size, pos), n) IN
  IF nd.kind # "reg" THEN ret = -1 /\ err \in {EISDIR, EINVAL, EBADF}    \* file systems differ
  ELSE ret = k /\ pieces = Pieces(nd.segs, pos, k)
ERead(fd, n, ret, err, pieces) ==
  IF fd \in DOMAIN osf
  THEN /\ OsRead(osf[fd], osf[fd].pos, n, ret, err, pieces)
       /\ osf' = IF ret > 0 THEN [osf EXCEPT ![fd].pos = WAdd(@, W(ret))] ELSE osf
       /\ UNCHANGED <<vars, cwd, osd>>
  ELSE Read(fd, n, ret, err, pieces) /\ UNCHANGED ovars
\* a positional read: as Read at that offset, and the position stays
EPread(fd, n, off, ret, err, pieces) ==
  /\ IF fd \in DOMAIN osf
     THEN IF WNeg(off) THEN ret = -1 /\ err = EINVAL ELSE OsRead(osf[fd], off, n, ret, err, pieces)
     ELSE IF fd \notin DOMAIN fds THEN ret = -1 /\ err \in {EBADF} \cup (IF WNeg(off) THEN {EINVAL} ELSE {})
     ELSE LET nd == Node(fds[fd].h, fds[fd].n) IN
          IF nd.kind # "reg" THEN ret = -1 /\ err \in {EBADF, EISDIR, EINVAL}
          ELSE IF WNeg(off) THEN ret = -1 /\ err = EINVAL
          ELSE IF ret >= 0 THEN ReadOK(nd, off, n, ret, pieces)
          ELSE ret = -1 /\ err \in DamageErr /\ (ReadMayFail(nd, off, n) \/ (n > 0 /\ WLt(off, nd.size) /\ nd.bl # "no"))
  /\ UNCHANGED <<vars, ovars>>
\* a vectored read: as one read of all the room there is (n)
EReadv(fd, n, ret, err, pieces, clean) ==
  \* room behind what was read stays as it was (a block that cannot be decoded may spoil it)
  /\ (ret >= 0 /\ (fd \in DOMAIN fds => LET nd == Node(fds[fd].h, fds[fd].n) IN nd.kind # "reg" \/ nd.bad = <<>>) => clean = 1)
  /\ IF n = 0 /\ (fd \in DOMAIN fds \/ fd \in DOMAIN osf)
     THEN /\ IF (IF fd \in DOMAIN fds THEN Node(fds[fd].h, fds[fd].n).kind ELSE ONode(osf[fd].n).kind) = "reg" THEN ret = 0
             ELSE ret = 0 \/ (ret = -1 /\ err \in {EISDIR, EINVAL, EBADF})
          /\ UNCHANGED <<vars, ovars>>
     \* file systems differ in how they refuse this for a directory
     ELSE IF fd \in DOMAIN osf /\ ONode(osf[fd].n).kind # "reg"
     THEN ret = -1 /\ err \in {EISDIR, EINVAL, EBADF} /\ UNCHANGED <<vars, ovars>>
     ELSE ERead(fd, n, ret, err, pieces)
ESeek(fd, off, whence, ret, res, err) ==
  IF fd \in DOMAIN osf
  THEN LET f == osf[fd]
           t == CASE whence = 0 -> off [] whence = 1 -> WAdd(f.pos, off) [] whence = 2 -> WAdd(ONode(f.n).size, off) [] OTHER -> W0 IN
       \* positions of directories are the system's own affair
       /\ IF ONode(f.n).kind # "reg" THEN UNCHANGED osf
          ELSE IF whence \notin {0, 1, 2} \/ WNeg(t) THEN ret = -1 /\ err = EINVAL /\ UNCHANGED osf
          ELSE ret = 0 /\ res = t /\ osf' = [osf EXCEPT ![fd].pos = t]
       /\ UNCHANGED <<vars, cwd, osd>>
  ELSE Seek(fd, off, whence, ret, res, err) /\ UNCHANGED ovars
EFstat(fd, ret, err, st) ==
  IF fd \in DOMAIN osf THEN ret = 0 /\ OsStatOK(osf[fd].n, st) /\ UNCHANGED <<vars, ovars>>
  ELSE Fstat(fd, ret, err, st) /\ UNCHANGED ovars

(* ------------------------------- by path -------------------------------- *)
EStat(p, follow, ret, err, st) ==
  /\ IF ToImg(p) THEN Stat(0, ImgPath(p), follow, ret, err, st)
     ELSE /\ IF ret = 0 THEN LET r == OsLookup(p, follow) IN r.st = "ok" /\ OsStatOK(r.n, st)
             ELSE ret = -1 /\ OsFails(p, follow, err)
          /\ UNCHANGED vars
  /\ UNCHANGED ovars
\* existence and read permission; everything can be read
EAccess(p, ret, err) ==
  /\ IF ToImg(p) THEN IF ret = 0 THEN OKs(0, ImgPath(p), TRUE) # {} ELSE ret = -1 /\ LookupFails(0, ImgPath(p), TRUE, err)
     ELSE IF ret = 0 THEN OsLookup(p, TRUE).st = "ok" ELSE ret = -1 /\ OsFails(p, TRUE, err)
  /\ UNCHANGED <<vars, ovars>>
EReadlink(p, bufsize, ret, err, target) ==
  /\ IF ToImg(p) THEN Readlink(0, ImgPath(p), bufsize, ret, err, target)
     ELSE LET r == OsLookup(p, FALSE) IN
          /\ IF ret >= 0 THEN /\ r.st = "ok" /\ ONode(r.n).kind = "lnk" /\ ONode(r.n).tlen <= bufsize
                              /\ target = ONode(r.n).tcomps /\ ret = ONode(r.n).tlen
             ELSE ret = -1 /\ (OsFails(p, FALSE, err) \/ (r.st = "ok" /\ ONode(r.n).kind # "lnk" /\ err = EINVAL))
          /\ UNCHANGED vars
  /\ UNCHANGED ovars

(* -------------------------- directory streams --------------------------- *)
EOpenDir(s, p, ret, err, fd, virt) ==
  /\ s \notin DOMAIN osd
  /\ IF ToImg(p)
     THEN OpenDir(s, 0, ImgPath(p), TRUE, ret, err, fd) /\ UNCHANGED ovars /\ (ret = 0 => virt = 1 /\ fd \notin DOMAIN osf)
     ELSE LET r == OsLookup(p, TRUE) IN
          /\ s \notin DOMAIN dst
          /\ IF ret = 0
             THEN /\ r.st = "ok" /\ ONode(r.n).kind = "dir" /\ ~ OBusy(fd) /\ virt = 0
                  /\ osf' = Put(osf, fd, [n |-> r.n, pos |-> W0, d |-> s])
                  /\ osd' = Put(osd, s, [n |-> r.n, fd |-> fd, atend |-> FALSE, tells |-> Empty])
             ELSE /\ ret = -1 /\ UNCHANGED <<osf, osd>>
                  /\ \/ OsFails(p, TRUE, err)
                     \/ r.st = "ok" /\ ONode(r.n).kind # "dir" /\ err = ENOTDIR
          /\ UNCHANGED <<vars, cwd>>
\* a stream over an open directory; it takes the descriptor over
EFdOpenDir(s, fd, ret, err, virt, same) ==
  /\ s \notin DOMAIN osd /\ s \notin DOMAIN dst
  /\ IF fd \in DOMAIN osf
     THEN /\ IF ret = 0
             THEN /\ ONode(osf[fd].n).kind = "dir" /\ virt = 0 /\ same = 1
                  /\ osf' = [osf EXCEPT ![fd].d = s]
                  /\ osd' = Put(osd, s, [n |-> osf[fd].n, fd |-> fd, atend |-> FALSE, tells |-> Empty])
             ELSE ret = -1 /\ ONode(osf[fd].n).kind # "dir" /\ err = ENOTDIR /\ UNCHANGED <<osf, osd>>
          /\ UNCHANGED <<vars, cwd>>
     ELSE /\ IF fd \notin DOMAIN fds THEN ret = -1 /\ err = EBADF /\ UNCHANGED <<fds, dst>>
             ELSE LET f == fds[fd] IN
                  IF ret = 0
                  THEN /\ Node(f.h, f.n).kind = "dir" /\ f.d = 0 /\ virt = 1 /\ same = 1
                       /\ fds' = [fds EXCEPT ![fd].d = s]
                       /\ dst' = Put(dst, s, [h |-> f.h, n |-> f.n, loc |-> 0, fd |-> fd, tells |-> Empty])
                  ELSE ret = -1 /\ Node(f.h, f.n).kind # "dir" /\ err \in {ENOTDIR, ENOENT} /\ UNCHANGED <<fds, dst>>
          /\ UNCHANGED <<hnd, als, sysf, trv, lcur, ext, warm, ovars>>
\* listings of the operating system are read to the end, in any order
OsList(n, list) ==
  LET nd == ONode(n) IN
  /\ Len(list) = Len(nd.names)
  /\ { <<e.name, e.type>> : e \in ToSet(list) } = { <<nd.names[i], ONode(nd.kids[i]).kind>> : i \in 1..Len(nd.names) }
EReadDirs(s, k, list, ret, err) ==
  IF s \in DOMAIN osd
  THEN /\ k < 0
       /\ IF osd[s].atend THEN list = <<>> ELSE OsList(osd[s].n, list)
       /\ osd' = [osd EXCEPT ![s].atend = TRUE] /\ UNCHANGED <<vars, cwd, osf>>
  ELSE ReadDirs(s, k, list, IF k >= 0 /\ Len(list) = k THEN 1 ELSE 0, err) /\ UNCHANGED ovars
ETell(s, t) ==
  IF s \in DOMAIN osd THEN osd' = [osd EXCEPT ![s].tells = Put(@, t, osd[s].atend)] /\ UNCHANGED <<vars, cwd, osf>>
  ELSE TellDir(s, t) /\ UNCHANGED ovars
ESeekDir(s, t) ==
  IF s \in DOMAIN osd THEN t \in DOMAIN osd[s].tells /\ osd' = [osd EXCEPT ![s].atend = osd[s].tells[t]] /\ UNCHANGED <<vars, cwd, osf>>
  ELSE SeekDir(s, t) /\ UNCHANGED ovars
ERewind(s) ==
  IF s \in DOMAIN osd THEN osd' = [osd EXCEPT ![s].atend = FALSE] /\ UNCHANGED <<vars, cwd, osf>>
  ELSE RewindDir(s) /\ UNCHANGED ovars
EDirFd(s, ret) ==
  IF s \in DOMAIN osd THEN ret = osd[s].fd /\ UNCHANGED <<vars, ovars>> ELSE DirFd(s, ret) /\ UNCHANGED ovars
ECloseDir(s, ret) ==
  IF s \in DOMAIN osd THEN ret = 0 /\ osf' = Drop(osf, osd[s].fd) /\ osd' = Drop(osd, s) /\ UNCHANGED <<vars, cwd>>
  ELSE CloseDir(s, ret) /\ UNCHANGED ovars
EScandir(p, sel, cmp, ret, err, list) ==
  /\ IF ToImg(p) THEN Scandir(0, ImgPath(p), sel, cmp, ret, err, list)
     ELSE LET r == OsLookup(p, TRUE) IN
          /\ sel \in {0, 1, 2}
          /\ IF ret >= 0
             THEN /\ r.st = "ok" /\ ONode(r.n).kind = "dir"
                  /\ IF sel = 2 THEN ret = 0 /\ list = <<>> ELSE ret = Len(list) /\ OsList(r.n, list)
             ELSE ret = -1 /\ (OsFails(p, TRUE, err) \/ (r.st = "ok" /\ ONode(r.n).kind # "dir" /\ err = ENOTDIR))
          /\ UNCHANGED vars
  /\ UNCHANGED ovars

(* ------------------ handing files to others: extract, exec --------------- *)
\* kind, got: where the path given out lies ("tmp": a file made by the library); pieces: what is in it
EExtract(p, cs, spelt, ret, err, kind, got, exists, pieces) ==
  IF ToImg(p) THEN /\ Extract(0, spelt, ImgPath(p), ret, err, got, exists, IF kind = "tmp" THEN 1 ELSE 0, 1, pieces) /\ UNCHANGED ovars
  ELSE /\ ret = 0 /\ kind = (IF p.k = "os" THEN "os" ELSE "as") /\ got = cs /\ UNCHANGED <<vars, ovars>>
\* programs in the image are run by this program itself, with their path as an argument
EExec(p, ret, called, self, kind, got, argc, karg, arg) ==
  /\ ret = -1 /\ called = 1
  /\ IF ToImg(p)
     THEN /\ self = 1 /\ argc = 4 /\ karg = "as"
          /\ OKs(0, arg, TRUE) = OKs(0, ImgPath(p), TRUE) /\ SubSeq(arg, 1, 2) = SubSeq(ImgPath(p), 1, 2)
     ELSE self = 0 /\ argc = 3 /\ kind = (IF p.k = "os" THEN "os" ELSE "as") /\ got = p.cs
  /\ UNCHANGED <<vars, ovars>>

OConsistent ==
  /\ Consistent
  /\ DOMAIN osf \cap DOMAIN fds = {} /\ DOMAIN osd \cap DOMAIN dst = {}
  /\ \A s \in DOMAIN osd : osd[s].fd \in DOMAIN osf /\ osf[osd[s].fd].d = s
  /\ cwd.side = "img" => cwd.cs # <<>>
==============================================================================
