----------------------------- MODULE WatchTrace -----------------------------
(* Recorded runs of the real library, with times in milliseconds, against Watch. *)
EXTENDS Watch, TraceBase
VARIABLES t, l
tvars == <<wvars, t, l>>
ev == Traces[t][l]
Step(e) ==
  CASE e.op = "setup"   -> slow' = e.slow /\ now' = e.t0 /\ UNCHANGED <<okq, hist, rows, gone, subs, ended, hs>>
    [] e.op = "sub"     -> Subscribe(e.c, e.x, e.t0, e.t1)
    [] e.op = "unsub"   -> Unsubscribe(e.c, e.x, e.t0, e.t1)
    [] e.op = "val"     -> Value(e.n, e.v, "P", e.t0, e.t1)
    [] e.op = "set"     -> Value(e.n, e.v, e.c, e.t0, e.t1)
    [] e.op = "addrow"  -> AddRow(e.r, e.t0, e.t1)
    [] e.op = "delrow"  -> DelRow(e.r, e.t0, e.t1)
    [] e.op = "close"   -> Close(e.c, e.t0, e.t1)
    [] e.op = "kill"    -> Kill(e.k, e.t0, e.t1)
    [] e.op = "fail"    -> Fail(e.on = 1, e.t0, e.t1)
    [] e.op = "open"    -> Open(e.c, e.t0)
    [] e.op = "restart" -> Restart(e.t0, e.t1)
    [] e.op = "wait"    -> Wait(e.t0)
    [] e.op = "event"   -> Event(e, e.t0)
    [] e.op = "asked"   -> Asked(e.n, e.t0)
    [] e.op = "end"     -> Wait(e.t0)
    [] OTHER -> FALSE
RcOK(e) ==
  CASE e.op \in {"died", "stuck"} -> FALSE
    [] e.op = "sub"   -> e.rc = SubRc(e.c, e.x)
    [] e.op = "unsub" -> LET want == UnsubRc(e.c, e.x) IN e.rc = want \/ (want = -1 /\ e.rc \in {0, 1})
    [] e.op \in {"event", "asked"} -> TRUE
    [] OTHER -> e.rc = 0
TInit == Init /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ \/ RcOK(ev) /\ Step(ev)
            \/ ~(RcOK(ev) /\ ENABLED Step(ev)) /\ PrintT(<<"MISMATCH", t, l, now, [i \in {j \in DOMAIN subs : Overdue(subs[j], ev.t0)} |-> subs[i]], subs, hist, rows, gone, ended>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
