---------------------------- MODULE AsyncSubTrace ----------------------------
(* Recorded runs of the real library, with times in milliseconds, against AsyncSub. *)
EXTENDS AsyncSub, TraceBase
VARIABLES t, l
tvars == <<avars, t, l>>
ev == Traces[t][l]
Step(e) ==
  CASE e.op = "setup"   -> slow' = e.slow /\ hs' = e.lims /\ now' = e.t0 /\ UNCHANGED <<ans, pend, subs, ended, odd, pubs>>
    [] e.op = "async"   -> Async(e.c, e.xs, IF e.lim > 0 THEN e.lim ELSE hs[e.c], e.rc, e.t0, e.t1)
    [] e.op = "sync"    -> Sync(e.c, e.x, e.rc, e.t0, e.t1)
    [] e.op = "unsub"   -> Unsub(e.c, e.x, e.how, e.rc, e.t0, e.t1)
    [] e.op = "close"   -> Close(e.c, e.t0, e.t1)
    [] e.op = "open"    -> Open(e.c, e.lim, e.t0)
    [] e.op = "kill"    -> Kill(e.k, e.t0, e.t1)
    [] e.op = "change"  -> Change(e.a, e.t0, e.t1)
    [] e.op = "publish" -> Publish(e.n, e.d, e.t0, e.t1)
    [] e.op = "resp"    -> Resp(e, e.t0)
    [] e.op = "event"   -> Event(e, e.t0)
    [] e.op \in {"wait", "end"} -> Wait(e.t0)
    [] OTHER -> FALSE
RcOK(e) ==
  CASE e.op \in {"died", "stuck"} -> FALSE
    [] e.op = "async"   -> e.rc \in AsyncRcs(e.c, e.xs, e.t1)
    [] e.op = "sync"    -> e.rc \in SyncRcs(e.c, e.x, e.t1)
    [] e.op = "unsub"   -> e.rc \in UnsubRcs(e.c, e.x, e.how, e.t1)
    [] e.op = "publish" -> e.rc \in PubRcs(e.n, e.t1)
    [] e.op \in {"event", "resp"} -> TRUE
    [] OTHER -> e.rc = 0
TInit == Init /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ \/ RcOK(ev) /\ Step(ev)
            \/ ~(RcOK(ev) /\ ENABLED Step(ev)) /\ PrintT(<<"MISMATCH", t, l, now, pend, subs, ans, ended, pubs, odd>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
