------------------------------ MODULE LinTrace ------------------------------
(* Concurrent histories: between its call and its return every call takes      *)
(* effect at one moment, as the corresponding step of SquashAPI.  The search   *)
(* chooses the moments; the history is accepted if some choice explains it.    *)
EXTENDS SquashTrace
VARIABLE pend      \* thread -> [e: its call with its results, done: it has taken effect]
lvars == <<tvars, pend>>
LinInit == TraceInit /\ pend = Empty
Mark(n) == IF n > TLCGet(7) THEN TLCSet(7, n) ELSE TRUE
Advance == l' = l + 1
Keep == UNCHANGED <<hnd, als, fds, dst, sysf, trv, lcur, ext, warm>>
LinNext ==
  \/ /\ l <= Len(Trace)
     /\ LET e == Trace[l] IN
        \/ /\ e.x = "S" /\ Advance /\ pend' = Empty
           /\ hnd' = Empty /\ als' = Empty /\ fds' = Empty /\ dst' = Empty /\ sysf' = Empty
           /\ trv' = Empty /\ lcur' = Empty /\ ext' = {} /\ warm' = -1
        \/ /\ e.x = "call" /\ e.th \notin DOMAIN pend /\ Advance
           /\ pend' = Put(pend, e.th, [e |-> e.e, done |-> FALSE]) /\ Keep
        \/ /\ e.x = "ret" /\ e.th \in DOMAIN pend /\ pend[e.th].done /\ Advance
           /\ pend' = Drop(pend, e.th) /\ Keep
        \/ /\ e.x \notin {"S", "call", "ret"} /\ pend = Empty /\ Advance
           /\ Normal(e) /\ Resources(e) /\ Consistent' /\ UNCHANGED pend
     /\ Mark(l')          \* last: only a step that is possible counts
  \/ \E t \in DOMAIN pend :
        /\ ~ pend[t].done
        /\ Normal(pend[t].e)
        /\ pend' = [pend EXCEPT ![t].done = TRUE] /\ UNCHANGED l
        /\ Consistent'
LinSpec == LinInit /\ [][LinNext]_lvars
ASSUME TLCSet(7, 1)
LinAccepted == /\ PrintT(<<"MATCHED", TLCGet(7) - 1, Len(Trace)>>)
               /\ TLCGet(7) = Len(Trace) + 1
==============================================================================
