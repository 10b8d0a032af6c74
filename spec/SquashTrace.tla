----------------------------- MODULE SquashTrace -----------------------------
(* Trace validation: is the recorded sequence of calls and results a behaviour *)
(* of SquashAPI?  Events carry every argument and result, so the search is     *)
(* linear.  Each event also carries what the process holds after the call.     *)
EXTENDS SquashAPI
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<vars, l>>

Has(e, f) == f \in DOMAIN e
(* Resources after the call: system descriptors, held locks, temporary files,  *)
(* and the set of numbers the library accepts.                                 *)
Resources(e) ==
  /\ e.held = 0
  /\ e.nfd = Cardinality(DOMAIN fds') + Cardinality(DOMAIN sysf')
  /\ (Has(e, "ntmp") => e.ntmp = Cardinality(TmpFiles'))
  /\ (e.x # "quiesce" => CacheBound(e.live, warm', hnd', fds', trv', ext'))
  /\ (Has(e, "valid") => ToSet(e.valid) = DOMAIN fds')

Stt(e) == IF Has(e, "st") THEN e.st ELSE [mode |-> -1]
Str(e, f) == IF Has(e, f) THEN e[f] ELSE "-"
Fld(e, f, d) == IF Has(e, f) THEN e[f] ELSE d

Normal(e) ==
  CASE e.x = "img" -> OpenImage(e.h, e.img, e.ret, Fld(e, "ver", <<>>))
    [] e.x = "imgclose" -> CloseImage(e.h)
    [] e.x = "alias" -> SetAlias(e.h, e.comps)
    [] e.x = "open" -> Open(e.h, e.path, TRUE, e.ret, e.err)
    [] e.x = "opennf" -> Open(e.h, e.path, FALSE, e.ret, e.err)
    [] e.x \in {"close", "closen"} -> Close(e.fd, e.ret, e.err)
    [] e.x \in {"read", "readn"} -> Read(e.fd, e.n, e.ret, e.err, e.data)
    [] e.x \in {"lseek", "lseekn"} -> Seek(e.fd, e.off, e.whence, e.ret, <<e.rhi, e.rlo>>, e.err)
    [] e.x \in {"fstat", "fstatn"} -> Fstat(e.fd, e.ret, e.err, Stt(e))
    [] e.x = "stat" -> Stat(e.h, e.path, TRUE, e.ret, e.err, Stt(e))
    [] e.x = "lstat" -> Stat(e.h, e.path, FALSE, e.ret, e.err, Stt(e))
    [] e.x = "readlink" -> Readlink(e.h, e.path, e.bufsize, e.ret, e.err, Fld(e, "target", <<>>))
    [] e.x = "opendir" -> OpenDir(e.s, e.h, e.path, TRUE, e.ret, e.err, Fld(e, "fd", -1)) /\ (e.ret = 0 => e.found = 1)
    [] e.x = "opendirnf" -> OpenDir(e.s, e.h, e.path, FALSE, e.ret, e.err, Fld(e, "fd", -1)) /\ (e.ret = 0 => e.found = 1)
    [] e.x = "readdir" -> ReadDir(e.s, e.ret, e, e.err, e.prior)
    [] e.x = "readdirs" -> ReadDirs(e.s, e.k, e.list, e.ret, e.err)
    [] e.x = "telldir" -> TellDir(e.s, e.t)
    [] e.x = "seekdir" -> SeekDir(e.s, e.t)
    [] e.x = "rewinddir" -> RewindDir(e.s)
    [] e.x = "dirfd" -> DirFd(e.s, e.ret)
    [] e.x = "closedir" -> CloseDir(e.s, e.ret)
    [] e.x = "scandir" -> Scandir(e.h, e.path, e.sel, e.cmp, e.ret, e.err, e.list)
    [] e.x = "extract" -> Extract(e.h, e.p, e.path, e.ret, e.err, Str(e, "tmp"), Fld(e, "exists", 0), Fld(e, "intmp", 0), Fld(e, "hasext", 0), Fld(e, "data", <<>>))
    [] e.x = "clear" -> Clear
    [] e.x = "halt" -> e.ret = 0 /\ e.ntmp = 0 /\ Clear
    [] e.x = "topen" -> TrvOpen(e.t, e.h, e.path, e.ret)
    [] e.x = "tnext" -> TrvNext(e.t, e.ret, e.terr, e)
    [] e.x = "tprune" -> TrvPrune(e.t, e.ret)
    [] e.x = "tclose" -> TrvClose(e.t)
    [] e.x = "dopen" -> CurOpen(e.c, e.h, e.path, e.off, e.ret)
    [] e.x = "dnext" -> CurNext(e.c, e.ret, e.terr, e)
    [] e.x = "export" -> Export(e.h, e.num, e.ok, e.ret, Fld(e, "ino", -1), Stt(e))
    [] e.x = "idget" -> IdGet(e.h, e.ix, e.ret, <<e.hi, e.lo>>)
    [] e.x = "owner" -> Owner(e.h, e.path, e.ret, e.u, e.g)
    [] e.x = "lookat" -> LookAt(e.h, e.dir, e.path, e.follow, e.ret, Fld(e, "ino", -1), Stt(e))
    [] e.x = "dlook" -> DirLook(e.h, e.dir, e.nm, e.ret, Fld(e, "found", 0), Str(e, "name"), Fld(e, "ino", -1), Str(e, "type"))
    [] e.x = "rr" -> RangeRead(e.h, e.path, e.off, e.n, e.ret, e.got, e.data)
    [] e.x = "rlk" -> RawLink(e.h, e.path, e.size, e.ret, e.need, Fld(e, "target", <<>>))
    [] e.x = "sysopen" -> SysOpen(e.s, e.ret)
    [] e.x = "sysclose" -> SysClose(e.s)
    [] e.x = "neg" -> /\ e.fd \notin DOMAIN fds /\ e.v = 0
                      /\ \A i \in 1..4 : e.rs[i] = -1 /\ e.es[i] = EBADF
                      /\ UNCHANGED vars
    [] e.x = "findent" -> e.ret = 0 /\ UNCHANGED vars
    [] e.x = "skip" -> UNCHANGED vars      \* the slot it names is not in use
    [] e.x = "probe" -> UNCHANGED vars
    [] e.x = "warm" -> warm' = e.live /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, lcur, ext>>
    [] e.x = "quiesce" -> Quiesce(e.live)
    [] OTHER -> FALSE

(* A call during which an injected allocation or descriptor failure happened   *)
(* may fail instead of succeeding, and then changes nothing.                   *)
FaultFailed(e) ==
  CASE e.x \in {"img", "topen", "dopen", "rr", "lookat", "dlook", "rlk", "export", "owner", "idget"} -> e.ret # 0
    [] e.x \in {"open", "opennf", "read", "stat", "lstat", "readlink", "opendir", "opendirnf", "scandir", "extract", "lseek", "fstat"} -> e.ret = -1 /\ e.err # 0
    [] e.x = "readdir" -> e.ret = 0
    [] e.x = "tnext" -> e.ret = 0 /\ e.terr # 0
    [] OTHER -> FALSE
Faulted(e) ==
  /\ Has(e, "hit") /\ e.hit = 1
  /\ FaultFailed(e)
  /\ CASE e.x = "tnext" -> trv' = [trv EXCEPT ![e.t].st = "error"] /\ UNCHANGED <<hnd, als, fds, dst, sysf, lcur, ext, warm>>
       [] e.x = "dopen" -> lcur' = [y \in DOMAIN lcur \ {e.c} |-> lcur[y]] /\ UNCHANGED <<hnd, als, fds, dst, sysf, trv, ext, warm>>
       [] OTHER -> UNCHANGED vars
\* a listing cut short by an injected failure may have delivered a prefix
FaultPrefix(e) ==
  /\ Has(e, "hit") /\ e.hit = 1 /\ e.x = "readdirs"
  /\ \A i \in 1..Len(e.list) : EntryOK(dst[e.s].h, dst[e.s].n, dst[e.s].loc + i, e.list[i])
  /\ dst' = [dst EXCEPT ![e.s].loc = @ + Len(e.list)]
  /\ UNCHANGED <<hnd, als, fds, sysf, trv, lcur, ext, warm>>

TraceInit == Init /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.x = "S"
     THEN /\ hnd' = Empty /\ als' = Empty /\ fds' = Empty /\ dst' = Empty /\ sysf' = Empty
          /\ trv' = Empty /\ lcur' = Empty /\ ext' = {} /\ warm' = -1
     ELSE /\ Normal(e) \/ Faulted(e) \/ FaultPrefix(e)
          /\ Resources(e)
          /\ Consistent'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
TraceView == <<l, fds, ext, dst, trv>>
==============================================================================
