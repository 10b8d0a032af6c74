----------------------------- MODULE ShadowTrace ------------------------------
(* Trace validation for what is made below the mount point (see SquashTrace).  *)
EXTENDS Shadow
VARIABLES l, tried    \* tried: has anything been made, or been tried to (the working copy exists then)
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<all, l, tried>>
Fld(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
P(e) == [k |-> e.pk, cs |-> e.path]
F(e) == [acc |-> e.acc, creat |-> e.creat = 1, excl |-> e.excl = 1, trunc |-> e.trunc = 1, app |-> e.app = 1]
Stt(e) == Fld(e, "st", [mode |-> -1])
\* the name of the working copy is kept to the end of the program
Kept == tried'
Resources(e) ==
  /\ e.held = 0
  /\ e.nfd = Cardinality(DOMAIN fds') + Cardinality(DOMAIN sysf') + Cardinality(DOMAIN osf') + Cardinality(DOMAIN shf')
  /\ (e.x # "quiesce" => CacheBound(e.live - Kept, warm', hnd', fds', trv', ext'))
  /\ ("valid" \in DOMAIN e => ToSet(e.valid) = DOMAIN fds')
Normal(e) ==
  CASE e.x = "img" -> OpenImage(e.h, e.img, e.ret, Fld(e, "ver", <<>>)) /\ UNCHANGED <<ovars, svars>>
    [] e.x = "emount" -> 0 \in DOMAIN hnd /\ UNCHANGED all
    [] e.x = "emkdir" -> EMkdir(P(e), e.mode, e.ret, e.err)
    [] e.x = "eopenf" -> SOpen(P(e), F(e), e.mode, e.ret, e.err, e.virt)
    [] e.x = "ewrite" -> XWrite(e.fd, e.bytes, e.ret, e.err)
    [] e.x = "eread" -> XRead(e.fd, e.n, e.ret, e.err, e.data, Fld(e, "raw", <<>>))
    [] e.x = "epread" -> XPread(e.fd, e.n, e.off, e.ret, e.err, e.data, Fld(e, "raw", <<>>))
    [] e.x = "ereadv" -> XReadv(e.fd, e.n, e.ret, e.err, e.data, e.clean, Fld(e, "raw", <<>>))
    [] e.x = "elseek" -> XSeek(e.fd, e.off, e.whence, e.ret, <<e.rhi, e.rlo>>, e.err)
    [] e.x = "efstat" -> XFstat(e.fd, e.ret, e.err, Stt(e))
    [] e.x = "eclose" -> XClose(e.fd, e.ret, e.err)
    [] e.x = "estat" -> XStat(P(e), TRUE, e.ret, e.err, Stt(e))
    [] e.x = "elstat" -> XStat(P(e), FALSE, e.ret, e.err, Stt(e))
    [] e.x = "eaccess" -> XAccess(P(e), e.mode, e.ret, e.err)
    [] e.x = "ereadlink" -> XReadlink(P(e), e.bufsize, e.ret, e.err, Fld(e, "target", <<>>))
    [] e.x = "echdir" -> XChdir(P(e), e.ret, e.err)
    [] e.x = "egetcwd" -> XGetcwd(e.size, e.mode, e.ret, e.err, Fld(e, "room", 0), Fld(e, "kcwd", ""), Fld(e, "cwd", <<>>)) /\ (e.ret = 0 => e.own = 1)
    [] e.x = "eopendir" -> XOpenDir(e.s, P(e), e.ret, e.err, Fld(e, "fd", -1), Fld(e, "virt", -1))
    [] e.x = "efdopendir" -> XFdOpenDir(e.s, e.fd, e.ret, e.err, Fld(e, "virt", -1), Fld(e, "same", -1))
    [] e.x = "ereaddirs" -> XReadDirs(e.s, e.k, e.list, e.ret, e.err)
    [] e.x = "erewinddir" -> XRewind(e.s)
    [] e.x = "edirfd" -> XDirFd(e.s, e.ret)
    [] e.x = "eclosedir" -> XCloseDir(e.s, e.ret)
    [] e.x = "escandir" -> XScandir(P(e), e.sel, e.cmp, e.ret, e.err, e.list)
    [] e.x = "skip" -> UNCHANGED all
    [] e.x = "warm" -> warm' = e.live /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, lcur, ext, ovars, svars>>
    [] e.x = "quiesce" -> Quiesce(e.live - Kept) /\ osf' = Empty /\ osd' = Empty /\ shf' = Empty /\ shs' = Empty /\ UNCHANGED <<cwd, shd, mat>>
    \* the end of the program: nothing is left of the working copy
    [] e.x = "eexit" -> e.ntmp = 0 /\ e.ret = 0 /\ UNCHANGED all
    [] OTHER -> FALSE
Faulted(e) ==
  /\ Fld(e, "hit", 0) = 1 /\ "err" \in DOMAIN e /\ e.ret = -1 /\ e.err # 0
  /\ e.x \in {"emkdir", "eopenf", "eread", "epread", "estat", "elstat", "eaccess", "ereadlink", "eopendir", "efdopendir", "escandir", "echdir", "egetcwd", "elseek", "efstat"}
  /\ IF e.x \in {"emkdir", "eopenf"} /\ ToImg(P(e))
     THEN \E m \in { mat, mat \cup { q \in ImgAncestors(NP(P(e))) : ImgDir(q) } } : mat' = m
     ELSE UNCHANGED mat
  /\ UNCHANGED <<vars, ovars, shd, shf, shs>>
(* a listing or a vectored read cut short by one has delivered what came before *)
FaultCut(e) ==
  /\ Fld(e, "hit", 0) = 1
  /\ \/ /\ e.x = "ereaddirs" /\ e.s \in DOMAIN dst /\ e.err # 0
        /\ \A i \in 1..Len(e.list) : EntryOK(dst[e.s].h, dst[e.s].n, dst[e.s].loc + i, e.list[i])
        /\ dst' = [dst EXCEPT ![e.s].loc = @ + Len(e.list)]
        /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm, ovars>>
     \/ /\ e.x = "ereadv" /\ e.fd \in DOMAIN fds
        /\ \/ e.ret = -1 /\ e.err # 0 /\ UNCHANGED fds
           \/ LET f == fds[e.fd]  nd == Node(f.h, f.n) IN
              /\ nd.kind = "reg" /\ e.ret > 0 /\ e.ret <= WClip(WSub(nd.size, f.pos), e.n)
              /\ e.data = Pieces(nd.segs, f.pos, e.ret)
              /\ fds' = [fds EXCEPT ![e.fd].pos = WAdd(@, W(e.ret))]
        /\ UNCHANGED <<hnd, als, dst, sysf, trv, lcur, ext, warm, ovars>>
  /\ KeepS
TraceInit == SInit /\ l = 1 /\ tried = 0
TraceNext ==
  /\ l <= Len(Trace)
  /\ SConsistent
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.x = "S"
     THEN /\ hnd' = Empty /\ als' = Empty /\ fds' = Empty /\ dst' = Empty /\ sysf' = Empty
          /\ trv' = Empty /\ lcur' = Empty /\ ext' = {} /\ warm' = -1
          /\ cwd' = [side |-> "os", stk |-> <<Root>>, cs |-> <<>>] /\ osf' = Empty /\ osd' = Empty
          /\ shd' = Empty /\ mat' = {} /\ shf' = Empty /\ shs' = Empty /\ tried' = 0
     ELSE /\ tried' = IF tried = 1 THEN 1 ELSE Fld(e, "wd", 0)
          /\ (Normal(e) \/ Faulted(e) \/ FaultCut(e)) /\ Resources(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
