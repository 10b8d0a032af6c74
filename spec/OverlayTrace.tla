----------------------------- MODULE OverlayTrace -----------------------------
(* Trace validation for the sample's layer (see SquashTrace).                  *)
EXTENDS Overlay
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<vars, ovars, l>>
Fld(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Resources(e) ==
  /\ e.held = 0
  /\ e.nfd = Cardinality(DOMAIN fds') + Cardinality(DOMAIN sysf') + Cardinality(DOMAIN osf')
  /\ ("ntmp" \in DOMAIN e => e.ntmp = Cardinality(TmpFiles'))
  /\ (e.x # "quiesce" => CacheBound(e.live, warm', hnd', fds', trv', ext'))
  /\ ("valid" \in DOMAIN e => ToSet(e.valid) = DOMAIN fds')
Stt(e) == Fld(e, "st", [mode |-> -1])
P(e) == [k |-> e.pk, cs |-> e.path]
Normal(e) ==
  CASE e.x = "img" -> OpenImage(e.h, e.img, e.ret, Fld(e, "ver", <<>>)) /\ UNCHANGED ovars
    [] e.x = "emount" -> 0 \in DOMAIN hnd /\ UNCHANGED <<vars, ovars>>
    [] e.x = "echdir" -> EChdir(P(e), e.ret, e.err)
    [] e.x = "egetcwd" -> EGetcwd(e.size, e.mode, 0, e.ret, e.err, Fld(e, "room", 0), Fld(e, "kcwd", ""), Fld(e, "cwd", <<>>)) /\ (e.ret = 0 => e.own = 1)
    [] e.x = "eif" -> EIf(P(e), e.ret)
    [] e.x \in {"eopen", "eopenat"} -> EOpen(P(e), Fld(e, "dfd", -100), e.ret, e.err, e.virt)
    [] e.x = "eclose" -> EClose(e.fd, e.ret, e.err)
    [] e.x = "eread" -> ERead(e.fd, e.n, e.ret, e.err, e.data)
    [] e.x = "epread" -> EPread(e.fd, e.n, e.off, e.ret, e.err, e.data)
    [] e.x = "ereadv" -> EReadv(e.fd, e.n, e.ret, e.err, e.data, e.clean)
    [] e.x = "elseek" -> ESeek(e.fd, e.off, e.whence, e.ret, <<e.rhi, e.rlo>>, e.err)
    [] e.x = "efstat" -> EFstat(e.fd, e.ret, e.err, Stt(e))
    [] e.x = "estat" -> EStat(P(e), TRUE, e.ret, e.err, Stt(e))
    [] e.x = "elstat" -> EStat(P(e), FALSE, e.ret, e.err, Stt(e))
    [] e.x = "eaccess" -> EAccess(P(e), e.ret, e.err)
    [] e.x = "ereadlink" -> EReadlink(P(e), e.bufsize, e.ret, e.err, Fld(e, "target", <<>>))
    [] e.x = "eopendir" -> EOpenDir(e.s, P(e), e.ret, e.err, Fld(e, "fd", -1), Fld(e, "virt", -1))
    [] e.x = "efdopendir" -> EFdOpenDir(e.s, e.fd, e.ret, e.err, Fld(e, "virt", -1), Fld(e, "same", -1))
    [] e.x = "ereaddirs" -> EReadDirs(e.s, e.k, e.list, e.ret, e.err)
    [] e.x = "etelldir" -> ETell(e.s, e.t)
    [] e.x = "eseekdir" -> ESeekDir(e.s, e.t)
    [] e.x = "erewinddir" -> ERewind(e.s)
    [] e.x = "edirfd" -> EDirFd(e.s, e.ret)
    [] e.x = "eclosedir" -> ECloseDir(e.s, e.ret)
    [] e.x = "escandir" -> EScandir(P(e), e.sel, e.cmp, e.ret, e.err, e.list)
    [] e.x = "eifextract" -> EExtract(P(e), e.path, e.spelt, e.ret, e.err, Fld(e, "kgot", ""), Fld(e, "got", <<>>), Fld(e, "exists", 0), Fld(e, "data", <<>>))
    [] e.x = "edlopen" -> /\ EExtract(P(e), e.path, e.spelt, e.ret, e.err, Fld(e, "kgot", ""), Fld(e, "got", <<>>), Fld(e, "exists", 0), Fld(e, "data", <<>>))
                          /\ e.called = (IF e.ret = 0 THEN 1 ELSE 0)
    [] e.x = "eexec" -> EExec(P(e), e.ret, e.called, e.self, Fld(e, "kgot", ""), Fld(e, "got", <<>>), Fld(e, "argc", 0), Fld(e, "ka1", ""), Fld(e, "a1", <<>>))
    [] e.x = "skip" -> UNCHANGED <<vars, ovars>>
    [] e.x = "warm" -> warm' = e.live /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, lcur, ext, ovars>>
    [] e.x = "quiesce" -> Quiesce(e.live) /\ osf' = Empty /\ osd' = Empty /\ UNCHANGED cwd
    [] OTHER -> FALSE
(* a call hit by an injected failure may fail instead, and then changes nothing *)
Faulted(e) ==
  /\ Fld(e, "hit", 0) = 1 /\ "err" \in DOMAIN e /\ e.ret = -1 /\ e.err # 0
  /\ e.x \in {"eopen", "eopenat", "eread", "epread", "estat", "elstat", "eaccess", "ereadlink", "eopendir", "efdopendir", "escandir", "echdir", "egetcwd", "eifextract", "edlopen", "eexec", "elseek", "efstat"}
  /\ (e.x \in {"edlopen", "eexec"} => e.called = 0)
  /\ UNCHANGED <<vars, ovars>>
(* a listing or a vectored read cut short by one has delivered what came before *)
FaultCut(e) ==
  /\ Fld(e, "hit", 0) = 1
  /\ \/ /\ e.x = "ereaddirs" /\ e.s \in DOMAIN dst /\ e.err # 0
        /\ \A i \in 1..Len(e.list) : EntryOK(dst[e.s].h, dst[e.s].n, dst[e.s].loc + i, e.list[i])
        /\ dst' = [dst EXCEPT ![e.s].loc = @ + Len(e.list)]
        /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm, ovars>>
     \/ /\ e.x = "ereadv" /\ e.fd \in DOMAIN fds
        /\ \/ e.ret = -1 /\ e.err # 0 /\ UNCHANGED fds
           \/ LET f == fds[e.fd]  nd == Node(f.h, f.n) IN
              /\ nd.kind = "reg" /\ e.ret > 0 /\ e.ret <= WClip(WSub(nd.size, f.pos), e.n)
              /\ e.data = Pieces(nd.segs, f.pos, e.ret)
              /\ fds' = [fds EXCEPT ![e.fd].pos = WAdd(@, W(e.ret))]
        /\ UNCHANGED <<hnd, als, dst, sysf, trv, lcur, ext, warm, ovars>>
TraceInit == OInit /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.x = "S"
     THEN /\ hnd' = Empty /\ als' = Empty /\ fds' = Empty /\ dst' = Empty /\ sysf' = Empty
          /\ trv' = Empty /\ lcur' = Empty /\ ext' = {} /\ warm' = -1
          /\ cwd' = [side |-> "os", stk |-> <<Root>>, cs |-> <<>>] /\ osf' = Empty /\ osd' = Empty
     ELSE (Normal(e) \/ Faulted(e) \/ FaultCut(e)) /\ Resources(e) /\ OConsistent'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
