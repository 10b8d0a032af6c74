------------------------------ MODULE ContTrace ------------------------------
(* Trace validation for the containers. *)
EXTENDS Containers, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
CNormal(e) ==
  CASE e.x = "hinit" -> HInit(e.t, e.cap, e.ret)
    [] e.x = "hadd" -> HAdd(e.t, e.k, e.val, e.ret)
    [] e.x = "hget" -> HGet(e.t, e.k, e.ret, e.v)
    [] e.x = "hput" -> HPut(e.t, e.k, e.ret, e.v, e.val)
    [] e.x = "hdel" -> HDel(e.t, e.k, e.ret)
    [] e.x = "hfree" -> HFree(e.t)
    [] e.x = "sinit" -> SInit(e.t, e.fr, e.cap = -1, e.ret)
    [] e.x = "spush" -> SPush(e.t, e.val, e.ret, e.size)
    [] e.x = "spop" -> SPop(e.t, e.ret, e.size, e.freed)
    [] e.x = "stop" -> SAt(e.t, -1, e.ret, e.v, e.size)
    [] e.x = "sat" -> SAt(e.t, e.i, e.ret, e.v, e.size)
    [] e.x = "sfree" -> SFree(e.t, e.size, e.freed)
    [] e.x = "skip" -> UNCHANGED cvars
    [] OTHER -> FALSE
\* an injected allocation failure: the call fails and nothing changes
CFault(e) == "hit" \in DOMAIN e /\ e.hit = 1 /\ e.x \in {"hinit", "hadd", "sinit", "spush"} /\ e.ret # 0 /\ UNCHANGED cvars
\* what is held: nothing once every table and stack is gone, and never more
\* than the entries need
RECURSIVE SumTabs(_)
SumTabs(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Cardinality(DOMAIN tabs'[t]) + 1 + SumTabs(S \ {t})
CHeld(e) == e.live <= SumTabs(DOMAIN tabs') + Cardinality(DOMAIN stks') /\ e.held = 0 /\ e.nfd = 0
TraceInit == CInit /\ l = 1
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.x = "S" THEN tabs' = CEmpty /\ stks' = CEmpty
     ELSE (CNormal(e) \/ CFault(e)) /\ CHeld(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
TraceAccepted == /\ PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
                 /\ TLCGet("stats").diameter - 1 = Len(Trace)
TraceView == <<l, tabs, stks>>
==============================================================================
