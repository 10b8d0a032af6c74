------------------------------ MODULE SquashAPI ------------------------------
(* The observable state machine of libsquash: image handles, the descriptor    *)
(* table, directory streams, tree traversals, low-level cursors, extracted     *)
(* files, plus the process resources they hold.                                *)
(*                                                                             *)
(* Every action is one public call; its last parameters are what the call      *)
(* returned, so the same action serves the bounded model (results chosen by    *)
(* \E) and trace validation (results taken from the event).                    *)
EXTENDS Wide, Content, Resolve, TLC, FiniteSets, SequencesExt, FiniteSetsExt, Json, IOUtils
\* image id -> abstract tree, from the image writer.  (A definition: TLC evaluates it once.)
Trees == ndJsonDeserialize(IOEnv.TREES)

VARIABLES
  hnd,    \* open image handles: handle -> image id
  als,    \* handle -> set of root aliases (component sequences)
  fds,    \* descriptor table: number -> [h, n, pos, d]   (d: stream slot, or 0)
  dst,    \* open directory streams: slot -> [h, n, loc, fd, tells]
  sysf,   \* descriptors opened directly from the system: slot -> number
  trv,    \* traversals: slot -> [h, stack, last, st]
  lcur,   \* low-level directory cursors: slot -> [h, n, i]
  ext,    \* extracted files: set of [h, p, tmp, n]
  warm    \* live allocations of the quiescent library, or -1 if not yet known
vars == <<hnd, als, fds, dst, sysf, trv, lcur, ext, warm>>

Empty == [x \in {} |-> 0]
Init == /\ hnd = Empty /\ als = Empty /\ fds = Empty /\ dst = Empty /\ sysf = Empty
        /\ trv = Empty /\ lcur = Empty /\ ext = {} /\ warm = -1

(* ------------------------------- errors --------------------------------- *)
EPERM == 1  ENOENT == 2  EIO == 5  EBADF == 9  ENOMEM == 12  ENOTDIR == 20  EISDIR == 21
EINVAL == 22  ENAMETOOLONG == 36  ELOOP == 40  EOVERFLOW == 75  ERANGE == 34 ENFILE == 23 EMFILE == 24
DamageErr == {EIO, ENOENT, EBADF, EINVAL, ENOTDIR}
LookupErr(r) == CASE r.st = "noent" -> {ENOENT}
                  [] r.st = "notdir" -> {ENOENT, ENOTDIR}
                  [] r.st = "loop" -> {ELOOP}
                  [] r.st = "long" -> {ENAMETOOLONG}
                  [] OTHER -> {}

Tree(h) == Trees[hnd[h]]
Node(h, n) == Trees[hnd[h]].nodes[n]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* Results a lookup may have.  With a neutral last component ("", "." or       *)
(* a ".." undone by the normalisation) a link may or may not be followed.      *)
TrailNeutral(path) == \/ Len(path) >= 1 /\ path[Len(path)] = "."
                      \/ Len(path) >= 2 /\ path[Len(path)] = "" /\ path[Len(path) - 1] \in {"", ".", ".."}
Lookups(h, path, follow) ==
  LET fs == IF ~ follow /\ TrailNeutral(path) THEN {FALSE, TRUE} ELSE {follow}
  IN { Lookup(Tree(h), als[h], path, f) : f \in fs }
OKs(h, path, follow) == { Top(r.stk) : r \in { x \in Lookups(h, path, follow) : x.st = "ok" /\ x.taint # "must" } }
\* may the call fail with err because the path does not resolve (or its blocks are damaged)
LookupFails(h, path, follow, err) ==
  \E r \in Lookups(h, path, follow) :
     \/ r.taint # "must" /\ r.st # "ok" /\ err \in LookupErr(r)
     \/ r.mlong /\ err = ENAMETOOLONG
     \/ r.taint # "no" /\ err \in DamageErr

(* ------------------------------ images ---------------------------------- *)
OpenImage(h, i, ret, ver) ==
  LET T == Trees[i] IN
  /\ h \notin DOMAIN hnd
  /\ IF T.open = 0
     THEN /\ ret = 0 /\ ver = T.ver
          /\ hnd' = Put(hnd, h, i) /\ als' = Put(als, h, {})
     ELSE /\ ret = T.open
          /\ UNCHANGED <<hnd, als>>
  /\ UNCHANGED <<fds, dst, sysf, trv, lcur, ext, warm>>
\* closing an image while descriptors of it are open is the caller's error
CloseImage(h) ==
  /\ h \in DOMAIN hnd
  /\ hnd' = Drop(hnd, h) /\ als' = Drop(als, h)
  /\ lcur' = [s \in { s \in DOMAIN lcur : lcur[s].h # h } |-> lcur[s]]
  /\ ext' = { [e EXCEPT !.h = IF e.h = h THEN -1 ELSE e.h] : e \in ext }
  /\ UNCHANGED <<fds, dst, sysf, trv, warm>>
SetAlias(h, a) ==
  /\ h \in DOMAIN hnd /\ als' = [als EXCEPT ![h] = @ \cup {a}]
  /\ UNCHANGED <<hnd, fds, dst, sysf, trv, lcur, ext, warm>>

(* ---------------------------- descriptors ------------------------------- *)
Busy(fd) == fd \in DOMAIN fds \/ \E s \in DOMAIN sysf : sysf[s] = fd
Open(h, path, follow, fd, err) ==
  /\ h \in DOMAIN hnd
  /\ IF fd >= 0
     THEN /\ ~ Busy(fd)
          /\ \E n \in OKs(h, path, follow) : fds' = Put(fds, fd, [h |-> h, n |-> n, pos |-> W0, d |-> 0])
     ELSE /\ fd = -1 /\ LookupFails(h, path, follow, err) /\ UNCHANGED fds
  /\ UNCHANGED <<hnd, als, dst, sysf, trv, lcur, ext, warm>>
Close(fd, ret, err) ==
  /\ IF fd \in DOMAIN fds
     THEN ret = 0 /\ fds' = Drop(fds, fd)
     ELSE ret = -1 /\ err = EBADF /\ UNCHANGED fds
  /\ UNCHANGED <<hnd, als, dst, sysf, trv, lcur, ext, warm>>

IsReg(h, n) == Node(h, n).kind = "reg"
\* undecodable byte ranges touched by [pos, pos+n): the lowest start, or none
BadIn(nd, pos, n) == IF n = 0 THEN {} ELSE { r \in ToSet(nd.bad) : WLt(r[1], WAdd(pos, W(n))) /\ WLt(pos, r[2]) }
Taint(h, n) == InodeTaint(Tree(h), n)
\* nd: node, pos: position, n: bytes wanted; ret/pieces: bytes returned
ReadOK(nd, pos, n, ret, pieces) ==
  LET want == WClip(WSub(nd.size, pos), n)
      bad == BadIn(nd, pos, want)
  IN /\ IF bad = {} THEN ret = want
        \* a damaged block ends the read before it
        ELSE ret > 0 /\ ret <= want /\ BadIn(nd, pos, ret) = {}
     /\ pieces = Pieces(nd.segs, pos, ret)
ReadMayFail(nd, pos, n) == BadIn(nd, pos, WClip(WSub(nd.size, pos), n)) # {}
Read(fd, n, ret, err, pieces) ==
  /\ IF fd \notin DOMAIN fds THEN ret = -1 /\ err = EBADF /\ UNCHANGED fds
     ELSE LET f == fds[fd]  nd == Node(f.h, f.n) IN
          IF nd.kind # "reg" THEN ret = -1 /\ err \in {EBADF, EISDIR, EINVAL} /\ UNCHANGED fds
          ELSE IF n < 0 THEN ret = -1 /\ err \in {EINVAL, EBADF} /\ UNCHANGED fds
          ELSE IF ret >= 0
          THEN /\ ReadOK(nd, f.pos, n, ret, pieces)
               /\ fds' = [fds EXCEPT ![fd].pos = WAdd(@, W(ret))]
          ELSE /\ ret = -1
               /\ \/ ReadMayFail(nd, f.pos, n)
                  \/ n > 0 /\ WLt(f.pos, nd.size) /\ nd.bl # "no"
               /\ err \in DamageErr /\ UNCHANGED fds
  /\ UNCHANGED <<hnd, als, dst, sysf, trv, lcur, ext, warm>>
SeekTarget(f, off, whence) ==
  CASE whence = 0 -> off
    [] whence = 1 -> WAdd(f.pos, off)
    [] whence = 2 -> Node(f.h, f.n).size      \* documented: the offset is ignored
Seek(fd, off, whence, ret, res, err) ==
  /\ IF fd \notin DOMAIN fds THEN ret = -1 /\ err = EBADF /\ UNCHANGED fds
     ELSE LET f == fds[fd]  nd == Node(f.h, f.n) IN
          IF whence \notin {0, 1, 2} \/ (whence = 2 /\ nd.kind # "reg")
          THEN ret = -1 /\ err \in {EINVAL, EISDIR} /\ UNCHANGED fds
          ELSE LET t == SeekTarget(f, off, whence) IN
               IF WNeg(t) THEN ret = -1 /\ err = EINVAL /\ UNCHANGED fds
               ELSE ret = 0 /\ res = t /\ fds' = [fds EXCEPT ![fd].pos = t]
  /\ UNCHANGED <<hnd, als, dst, sysf, trv, lcur, ext, warm>>

(* ------------------------------- status --------------------------------- *)
SizeOf(nd) == IF nd.kind \in {"reg", "lnk"} THEN nd.size ELSE W0
StatOK(nd, st) ==
  /\ st.mode = nd.mode /\ st.nlink = nd.nlink
  /\ <<st.mthi, st.mtlo>> = nd.mtime /\ <<st.athi, st.atlo>> = nd.mtime /\ <<st.cthi, st.ctlo>> = nd.mtime
  /\ (nd.kind \in {"reg", "lnk"} => <<st.sizehi, st.sizelo>> = nd.size)
  /\ (nd.kind \in {"blk", "chr"} => <<st.maj, st.min>> = nd.rdev)
  /\ st.junk = 0                                    \* nothing the caller's buffer held is left in it
Stat(h, path, follow, ret, err, st) ==
  /\ h \in DOMAIN hnd
  /\ IF ret = 0 THEN \E n \in OKs(h, path, follow) : StatOK(Node(h, n), st)
     ELSE ret = -1 /\ LookupFails(h, path, follow, err)
  /\ UNCHANGED vars
Fstat(fd, ret, err, st) ==
  /\ IF fd \in DOMAIN fds THEN ret = 0 /\ StatOK(Node(fds[fd].h, fds[fd].n), st)
     ELSE ret = -1 /\ err = EBADF
  /\ UNCHANGED vars
Aliased(h, nd) == StripAlias(als[h], nd.tabs, nd.tcomps) # nd.tcomps
Readlink(h, path, bufsize, ret, err, target) ==
  /\ h \in DOMAIN hnd
  /\ LET oks == OKs(h, path, FALSE) IN
     IF ret >= 0
     THEN \E n \in oks : LET nd == Node(h, n) IN
             /\ nd.kind = "lnk" /\ nd.tlen < bufsize /\ InodeTaint(Tree(h), n) # "must"
             /\ IF Aliased(h, nd)
                THEN target = StripAlias(als[h], nd.tabs, nd.tcomps) /\ ret = TextLen(target) - 1
                ELSE target = nd.tcomps /\ ret = nd.tlen
     ELSE /\ ret = -1
          /\ \/ LookupFails(h, path, FALSE, err)
             \/ \E n \in oks : Node(h, n).kind # "lnk" /\ err = EINVAL
             \/ \E n \in oks : Node(h, n).kind = "lnk" /\ Node(h, n).tlen >= bufsize /\ err = ENAMETOOLONG
             \/ \E n \in oks : Node(h, n).kind = "lnk" /\ Node(h, n).bl # "no" /\ err \in DamageErr
  /\ UNCHANGED vars

(* -------------------------- directory streams --------------------------- *)
OpenDir(s, h, path, follow, ret, err, fd) ==
  /\ h \in DOMAIN hnd /\ s \notin DOMAIN dst
  /\ IF ret = 0
     THEN /\ ~ Busy(fd)
          /\ \E n \in OKs(h, path, follow) :
               /\ Node(h, n).kind = "dir"
               /\ fds' = Put(fds, fd, [h |-> h, n |-> n, pos |-> W0, d |-> s])
               /\ dst' = Put(dst, s, [h |-> h, n |-> n, loc |-> 0, fd |-> fd, tells |-> Empty])
     ELSE /\ ret = -1 /\ UNCHANGED <<fds, dst>>
          /\ \/ LookupFails(h, path, follow, err)
             \/ LookupFails(h, path, TRUE, err)
             \/ \E n \in OKs(h, path, follow) : Node(h, n).kind # "dir" /\ err \in {ENOTDIR, ENOENT}
  /\ UNCHANGED <<hnd, als, sysf, trv, lcur, ext, warm>>
Names(h, n) == Node(h, n).names
EntryOK(h, n, i, e) ==
  LET k == Node(h, n).kids[i] IN
  /\ e.name = Names(h, n)[i]
  /\ e.ino = Node(h, k).ino
  /\ e.type = Node(h, k).kind
\* listing damage of directory n: from which entry on reads may/must fail
ListBad(h, n) == "lt" \in DOMAIN Node(h, n) /\ Node(h, n).lt # <<>>
FirstBad(h, n) == Node(h, n).fb
\* prior: the error code before the call; reaching the end does not touch it
ReadDir(s, ret, e, err, prior) ==
  LET d == dst[s] IN
  /\ s \in DOMAIN dst
  /\ IF ret = 1
     THEN /\ d.loc < Len(Names(d.h, d.n))
          /\ (ListBad(d.h, d.n) => d.loc + 1 < FirstBad(d.h, d.n))
          /\ EntryOK(d.h, d.n, d.loc + 1, e)
          /\ dst' = [dst EXCEPT ![s].loc = @ + 1]
     ELSE /\ ret = 0
          /\ \/ d.loc >= Len(Names(d.h, d.n)) /\ err = prior
             \/ ListBad(d.h, d.n) /\ d.loc + 1 >= FirstBad(d.h, d.n) /\ err \in DamageErr
          /\ UNCHANGED dst
  /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm>>
\* k reads in a row (k < 0: until the end)
ReadDirs(s, k, list, ret, err) ==
  LET d == dst[s]
      bad == ListBad(d.h, d.n)
      left == (IF bad THEN FirstBad(d.h, d.n) - 1 ELSE Len(Names(d.h, d.n))) - d.loc
      m == Len(list)
  IN
  /\ s \in DOMAIN dst
  /\ m = (IF left <= 0 THEN 0 ELSE IF k < 0 \/ left < k THEN left ELSE k)
  /\ (bad /\ m # k => err \in DamageErr)
  /\ \A i \in 1..m : EntryOK(d.h, d.n, d.loc + i, list[i])
  /\ ret = (IF k >= 0 /\ m = k THEN ret ELSE 0)
  /\ dst' = [dst EXCEPT ![s].loc = @ + m]
  /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm>>
TellDir(s, t) ==
  /\ s \in DOMAIN dst /\ dst' = [dst EXCEPT ![s].tells = Put(@, t, dst[s].loc)]
  /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm>>
SeekDir(s, t) ==
  /\ s \in DOMAIN dst /\ t \in DOMAIN dst[s].tells
  /\ dst' = [dst EXCEPT ![s].loc = dst[s].tells[t]]
  /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm>>
RewindDir(s) ==
  /\ s \in DOMAIN dst /\ dst' = [dst EXCEPT ![s].loc = 0]
  /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm>>
DirFd(s, ret) == s \in DOMAIN dst /\ ret = dst[s].fd /\ UNCHANGED vars
CloseDir(s, ret) ==
  /\ s \in DOMAIN dst /\ ret = 0
  /\ fds' = Drop(fds, dst[s].fd) /\ dst' = Drop(dst, s)
  /\ UNCHANGED <<hnd, als, sysf, trv, lcur, ext, warm>>

(* ------------------------------- scandir -------------------------------- *)
Selected(h, n, sel, i) ==
  LET nd == Node(h, n)  k == Node(h, nd.kids[i]) IN
  CASE sel \in {0, 1, 6} -> TRUE        \* (6 uses the library itself)
    [] sel = 2 -> FALSE
    [] sel = 3 -> nd.nlens[i] % 2 = 0
    [] sel = 4 -> k.kind = "dir"
    [] sel = 5 -> k.ino % 3 = 0
Scandir(h, path, sel, cmp, ret, err, list) ==
  /\ h \in DOMAIN hnd
  /\ IF ret >= 0
     THEN \E n \in OKs(h, path, TRUE) :
            /\ Node(h, n).kind = "dir" /\ ~ ListBad(h, n)
            \* (\E over a singleton makes TLC evaluate the sequence once)
            /\ \E pick \in { SelectSeq([i \in 1..Len(Names(h, n)) |-> i], LAMBDA i : Selected(h, n, sel, i)) } :
               LET m == Len(pick)  nd == Node(h, n)  ino(i) == Node(h, nd.kids[i]).ino IN
               /\ ret = m /\ Len(list) = m
               /\ IF cmp = 3        \* by inode number; links to one inode in any order
                  THEN /\ { <<e.name, e.ino, e.type>> : e \in ToSet(list) } = { <<nd.names[i], ino(i), Node(h, nd.kids[i]).kind>> : i \in ToSet(pick) }
                       /\ \A i \in 1..(m - 1) : list[i].ino <= list[i + 1].ino
                  ELSE \A i \in 1..m : \E j \in { IF cmp = 2 THEN pick[m + 1 - i] ELSE pick[i] } : EntryOK(h, n, j, list[i])
     ELSE /\ ret = -1
          /\ \/ LookupFails(h, path, TRUE, err)
             \/ \E n \in OKs(h, path, TRUE) : Node(h, n).kind # "dir" /\ err \in {ENOTDIR, ENOENT}
             \/ \E n \in OKs(h, path, TRUE) : Node(h, n).kind = "dir" /\ ListBad(h, n) /\ err \in DamageErr
  /\ UNCHANGED vars

(* ------------------------------ extraction ------------------------------ *)
Extract(h, p, path, ret, err, tmp, exists, intmp, hasext, pieces) ==
  LET known == { e \in ext : e.h = h /\ e.p = p } IN
  /\ h \in DOMAIN hnd
  /\ IF ret = 0
     THEN /\ exists = 1 /\ intmp = 1
          /\ IF known # {}
             THEN /\ \E e \in known : e.tmp = tmp /\ pieces = Pieces(Node(h, e.n).segs, W0, WInt(Node(h, e.n).size))
                  /\ UNCHANGED ext
             ELSE /\ \E n \in OKs(h, path, TRUE) :
                        \* a fresh file, or the one of another spelling of this entry
                        /\ \/ hasext = 1 /\ \A e \in ext : e.tmp # tmp
                           \/ \E e \in ext : e.tmp = tmp /\ e.h = h /\ e.n = n
                        /\ Node(h, n).kind = "reg" /\ Node(h, n).bad = <<>>
                        /\ pieces = Pieces(Node(h, n).segs, W0, WInt(Node(h, n).size))
                        /\ ext' = ext \cup {[h |-> h, p |-> p, tmp |-> tmp, n |-> n]}
     ELSE /\ ret = -1 /\ UNCHANGED ext /\ known = {}
          /\ \/ LookupFails(h, path, TRUE, err)
             \/ \E n \in OKs(h, path, TRUE) :
                  \/ Node(h, n).kind # "reg" /\ err \in {EISDIR, EINVAL, EBADF, ENOENT}
                  \/ Node(h, n).kind = "reg" /\ (Node(h, n).bad # <<>> \/ Node(h, n).bl # "no") /\ err \in DamageErr
  /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, lcur, warm>>
Clear == ext' = {} /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, lcur, warm>>

(* ------------------------------ traversal ------------------------------- *)
(* stack: sequence of [n: directory, i: entries consumed, p: its path];       *)
(* last: directory reported last and not pruned, to be entered next           *)
TrvOpen(t, h, path, ret) ==
  /\ h \in DOMAIN hnd
  /\ IF ret = 0
     THEN \E n \in OKs(h, path, FALSE) :
             /\ Node(h, n).kind = "dir"
             /\ trv' = Put(trv, t, [h |-> h, stack |-> <<[n |-> n, i |-> 0, p |-> <<>>]>>, last |-> 0, st |-> "run"])
     ELSE /\ UNCHANGED trv
          /\ \/ \E e \in 1..200 : LookupFails(h, path, FALSE, e)
             \/ \E n \in OKs(h, path, FALSE) : Node(h, n).kind # "dir"
  /\ UNCHANGED <<hnd, als, fds, dst, sysf, lcur, ext, warm>>
\* `dead`: the next step needs a block that cannot be decoded
\* the stack after entering the pending directory, if any
Entered(t) ==
  IF t.last = 0 THEN t.stack
  ELSE LET top == t.stack[Len(t.stack)]
       IN Append(t.stack, [n |-> t.last, i |-> 0, p |-> Append(top.p, Node(t.h, top.n).names[top.i])])
TrvNext(s, ret, terr, ev) ==
  LET t == trv[s]
      stk == Entered(t)
      top == stk[Len(stk)]
      names == Node(t.h, top.n).names
      dead == (t.last # 0 /\ Taint(t.h, t.last) # "no") \/ (ListBad(t.h, top.n) /\ top.i + 1 >= FirstBad(t.h, top.n))
  IN
  /\ s \in DOMAIN trv
  /\ CASE t.st = "error" -> ret = 0 /\ terr # 0 /\ UNCHANGED trv
       [] t.st = "done" -> ret = 0 /\ terr = 0 /\ UNCHANGED trv
       [] t.st = "run" ->
            \/ /\ dead /\ ret = 0 /\ terr # 0 /\ trv' = [trv EXCEPT ![s].st = "error"]
            \/ /\ ret = 1 /\ terr = 0 /\ top.i < Len(names)
               /\ (ListBad(t.h, top.n) => top.i + 1 < FirstBad(t.h, top.n))
               /\ ev.end = 0
               /\ ev.path = Append(top.p, names[top.i + 1])
               /\ LET k == Node(t.h, top.n).kids[top.i + 1]  kn == Node(t.h, k) IN
                  /\ ev.name = names[top.i + 1] /\ ev.ino = kn.ino /\ ev.type = kn.kind
                  /\ ev.isdir = (IF kn.kind = "dir" THEN 1 ELSE 0)
                  /\ ev.len = Node(t.h, top.n).nlens[top.i + 1]
                  /\ trv' = [trv EXCEPT ![s].stack = [stk EXCEPT ![Len(stk)].i = @ + 1],
                                        ![s].last = IF kn.kind = "dir" THEN k ELSE 0]
            \/ /\ ~ dead /\ top.i = Len(names)
               /\ terr = 0
               /\ IF Len(stk) = 1
                  THEN ret = 0 /\ trv' = [trv EXCEPT ![s].st = "done", ![s].last = 0]
                  ELSE /\ ret = 1 /\ ev.end = 1 /\ ev.path = top.p
                       /\ trv' = [trv EXCEPT ![s].stack = SubSeq(stk, 1, Len(stk) - 1), ![s].last = 0]
  /\ UNCHANGED <<hnd, als, fds, dst, sysf, lcur, ext, warm>>
TrvPrune(s, ret) ==
  /\ s \in DOMAIN trv /\ ret = 0
  /\ trv' = [trv EXCEPT ![s].last = 0]
  /\ UNCHANGED <<hnd, als, fds, dst, sysf, lcur, ext, warm>>
TrvClose(s) ==
  /\ s \in DOMAIN trv /\ trv' = Drop(trv, s)
  /\ UNCHANGED <<hnd, als, fds, dst, sysf, lcur, ext, warm>>

(* -------------------------- low-level cursors --------------------------- *)
\* entries before a listing offset, or -1 if it is not an entry boundary
Boundary(nd, off) ==
  IF off = 0 THEN 0
  ELSE LET S == { i \in 1..Len(nd.next) : nd.next[i] = off } IN IF S = {} THEN -1 ELSE CHOOSE i \in S : TRUE
CurOpen(c, h, path, off, ret) ==
  /\ h \in DOMAIN hnd
  /\ IF ret = 0
     THEN \E n \in OKs(h, path, FALSE) :
            /\ Node(h, n).kind = "dir" /\ Boundary(Node(h, n), off) >= 0
            /\ lcur' = Put(lcur, c, [h |-> h, n |-> n, i |-> Boundary(Node(h, n), off)])
     ELSE /\ lcur' = [x \in DOMAIN lcur \ {c} |-> lcur[x]]
          /\ \/ \E e \in 1..200 : LookupFails(h, path, FALSE, e)
             \/ \E n \in OKs(h, path, FALSE) : Node(h, n).kind # "dir"
             \/ \E n \in OKs(h, path, FALSE) : Node(h, n).kind = "dir" /\ Boundary(Node(h, n), off) < 0
             \/ \E n \in OKs(h, path, FALSE) : Node(h, n).kind = "dir" /\ off > 0 /\ (ListBad(h, n) \/ BodyTaint(Tree(h), n) # "no")
  /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, ext, warm>>
CurNext(c, ret, terr, ev) ==
  /\ c \in DOMAIN lcur
  /\ LET k == lcur[c]  nd == Node(k.h, k.n) IN
     IF ret = 1
     THEN /\ k.i < Len(nd.names) /\ terr = 0
          /\ (ListBad(k.h, k.n) => k.i + 1 < FirstBad(k.h, k.n))
          /\ EntryOK(k.h, k.n, k.i + 1, ev)
          /\ ev.next = nd.next[k.i + 1]
          /\ ev.off = (IF k.i = 0 THEN 0 ELSE nd.next[k.i])
          /\ lcur' = [lcur EXCEPT ![c].i = @ + 1]
     ELSE /\ ret = 0 /\ UNCHANGED lcur
          /\ \/ k.i = Len(nd.names) /\ terr = 0
             \/ ListBad(k.h, k.n) /\ k.i + 1 >= FirstBad(k.h, k.n) /\ terr # 0
  /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, ext, warm>>
\* entries of the export table and of the owner table in damaged blocks
ExpBad(T, num) == "xbad" \in DOMAIN T /\ num \in ToSet(T.xbad)
IdBad(T, ix) == "idbad" \in DOMAIN T /\ ix \in ToSet(T.idbad)
Export(h, num, ok, ret, ino, st) ==
  /\ h \in DOMAIN hnd
  /\ LET T == Tree(h) IN
     IF ~ T.export THEN ok = 0 /\ ret # 0
     ELSE /\ ok = 1
          /\ IF ret = 0 THEN /\ num \in 1..Len(T.byino) /\ ~ ExpBad(T, num)
                            /\ InodeTaint(T, T.byino[num]) # "must"
                            /\ ino = num /\ StatOK(T.nodes[T.byino[num]], st)
             ELSE \/ num \notin 1..Len(T.byino)
                  \/ ExpBad(T, num)
                  \/ InodeTaint(T, T.byino[num]) # "no"
  /\ UNCHANGED vars
IdGet(h, ix, ret, id) ==
  /\ h \in DOMAIN hnd
  /\ IF ret = 0 THEN ~ IdBad(Tree(h), ix) /\ id = Tree(h).ids[ix + 1] ELSE IdBad(Tree(h), ix)
  /\ UNCHANGED vars
Owner(h, path, ret, u, g) ==
  /\ h \in DOMAIN hnd
  /\ IF ret = 0
     THEN \E n \in OKs(h, path, FALSE) :
            LET nd == Node(h, n) IN
            /\ ~ IdBad(Tree(h), nd.uid) /\ ~ IdBad(Tree(h), nd.gid)
            /\ u = Tree(h).ids[nd.uid + 1] /\ g = Tree(h).ids[nd.gid + 1]
     ELSE \/ \E e \in 1..200 : LookupFails(h, path, FALSE, e)
          \/ \E n \in OKs(h, path, FALSE) : IdBad(Tree(h), Node(h, n).uid) \/ IdBad(Tree(h), Node(h, n).gid)
  /\ UNCHANGED vars
\* A lookup that starts at any entry: ".." does not lead above it, absolute targets lead to the root
LookAt(h, dpath, path, follow, ret, ino, st) ==
  /\ h \in DOMAIN hnd
  /\ LET fs == IF ~ follow /\ TrailNeutral(path) THEN {FALSE, TRUE} ELSE {follow}
         rs == { LookupFrom(Tree(h), als[h], d, path, f) : d \in OKs(h, dpath, FALSE), f \in fs }
     IN IF ret = 0
        THEN \E r \in rs : /\ r.st = "ok" /\ r.taint # "must"
                           /\ ino = Node(h, Top(r.stk)).ino /\ StatOK(Node(h, Top(r.stk)), st)
        ELSE \/ \E e \in 1..200 : LookupFails(h, dpath, FALSE, e)
             \/ \E r \in rs : r.st # "ok" \/ r.mlong \/ r.taint # "no"
  /\ UNCHANGED vars
\* One name in one directory: exactly the entries are found, "." and ".." are none
DirLook(h, dpath, nm, ret, found, name, ino, type) ==
  /\ h \in DOMAIN hnd
  /\ LET ds == OKs(h, dpath, FALSE)  T == Tree(h) IN
     IF ret = 0
     THEN \E d \in ds : /\ IsDir(T, d) /\ ListTaint(T, d, nm) # "must"
                        /\ IF nm \in DOMAIN T.nodes[d].ents
                           THEN LET k == T.nodes[d].ents[nm] IN
                                found = 1 /\ name = nm /\ ino = T.nodes[k].ino /\ type = T.nodes[k].kind
                           ELSE found = 0
     ELSE \/ \E e \in 1..200 : LookupFails(h, dpath, FALSE, e)
          \/ \E d \in ds : ~ IsDir(T, d) \/ ListTaint(T, d, nm) # "no"
  /\ UNCHANGED vars
RangeRead(h, path, off, n, ret, got, pieces) ==
  /\ h \in DOMAIN hnd
  /\ IF ret = 0 THEN \E k \in OKs(h, path, TRUE) : Node(h, k).kind = "reg" /\ ReadOK(Node(h, k), off, n, got, pieces)
     ELSE \/ \E e \in 1..200 : LookupFails(h, path, TRUE, e)
          \/ \E k \in OKs(h, path, TRUE) :
               IF Node(h, k).kind # "reg" THEN TRUE
               ELSE \/ n < 0
                    \/ WLt(Node(h, k).size, off)   \* low level: past the end is an error
                    \/ n = 0                       \* low level: an empty read is an error
                    \/ ReadMayFail(Node(h, k), off, n) \/ Node(h, k).bl # "no"
  /\ UNCHANGED vars
\* the low-level link read truncates; size 0 asks for the space needed
RawLink(h, path, size, ret, need, target) ==
  /\ h \in DOMAIN hnd
  /\ IF ret = 0
     THEN \E n \in OKs(h, path, FALSE) : LET nd == Node(h, n) IN
             /\ nd.kind = "lnk"
             /\ IF size = 0 THEN need = nd.tlen + 1
                ELSE target = SubSeq(nd.tbytes, 1, IF nd.tlen > size - 1 THEN size - 1 ELSE nd.tlen)
     ELSE \/ \E e \in 1..200 : LookupFails(h, path, FALSE, e)
          \/ \E n \in OKs(h, path, FALSE) : Node(h, n).kind # "lnk"
  /\ UNCHANGED vars

(* --------------------------- system descriptors ------------------------- *)
SysOpen(s, fd) ==
  /\ s \notin DOMAIN sysf /\ ~ Busy(fd) /\ fd >= 0 /\ sysf' = Put(sysf, s, fd)
  /\ UNCHANGED <<hnd, als, fds, dst, trv, lcur, ext, warm>>
SysClose(s) ==
  /\ s \in DOMAIN sysf /\ sysf' = Drop(sysf, s)
  /\ UNCHANGED <<hnd, als, fds, dst, trv, lcur, ext, warm>>
Quiesce(live) ==
  /\ hnd' = Empty /\ als' = Empty /\ fds' = Empty /\ dst' = Empty /\ sysf' = Empty
  /\ trv' = Empty /\ lcur' = Empty /\ ext' = {}
  /\ IF warm = -1 THEN warm' = live ELSE live = warm /\ UNCHANGED warm

(* ------------------------------ invariants ------------------------------ *)
\* every stream has its own descriptor and vice versa; nothing refers to a closed image
Consistent ==
  /\ \A s \in DOMAIN dst : dst[s].fd \in DOMAIN fds /\ fds[dst[s].fd].d = s /\ fds[dst[s].fd].n = dst[s].n
  /\ \A fd \in DOMAIN fds : fd >= 0 /\ (fds[fd].d # 0 => fds[fd].d \in DOMAIN dst)
  /\ \A s \in DOMAIN sysf : sysf[s] \notin DOMAIN fds
  /\ \A fd \in DOMAIN fds : ~ WNeg(fds[fd].pos)
  /\ \A e1, e2 \in ext : e1.tmp = e2.tmp => e1.n = e2.n /\ e1.h = e2.h
TmpFiles == { e.tmp : e \in ext }
\* Cached memory is bounded by the number of open images and descriptors, whatever was read:
\* at most MaxCached blocks (in allocations) each, plus the extraction records.
MaxCached == 400
CacheBound(live, wm, h, f, t, x) ==
  wm # -1 => live <= wm + MaxCached * (Cardinality(DOMAIN h) + Cardinality(DOMAIN f) + Cardinality(DOMAIN t)) + 8 * Cardinality(x) + 64
==============================================================================
