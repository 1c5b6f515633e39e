--------------------------- MODULE ThreadPoolTrace ---------------------------
(* Logs of the real pool against ThreadPool; when tasks are accepted, taken and let go, and when the pool stops, is not logged. *)
EXTENDS ThreadPool, TraceBase
VARIABLES t, l, late
tvars == <<pvars, t, l, late>>
ev == Traces[t][l]
Step(e) ==
  CASE e.op = "new" -> New(e.n)
    [] e.op = "ask" -> Ask(e.k)
    [] e.op = "asked" -> /\ e.k \in DOMAIN asked /\ UNCHANGED pvars
                         /\ asked[e.k] = (IF e.rc \in {0, 1} THEN "queued" ELSE "refused")
    [] e.op = "fail" -> nofail' = FALSE /\ UNCHANGED <<mx, asked, queue, taken, busy, leaving, phase, cancelled>>
    [] e.op = "start" -> Start(e.k)
    [] e.op = "end" -> End(e.k)
    [] e.op = "settle" -> Settled /\ UNCHANGED pvars
    [] e.op = "destroy" -> Destroying
    [] e.op = "destroyed" -> Destroyed /\ e.rc = (IF cancelled > 0 THEN 2 ELSE 0)
    [] e.op = "bye" -> phase \in {"none", "up", "gone"} /\ (phase = "gone" => e.left = 0) /\ busy = {} /\ taken = {} /\ UNCHANGED pvars
    [] OTHER -> FALSE
Hidden == Take \/ Leave \/ Stop(late) \/ \E k \in DOMAIN asked : Enqueue(k) \/ Refuse(k)
TInit == Init /\ late = FALSE /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t]) /\ t' = t
         /\ \/ Step(ev) /\ l' = l + 1 /\ late' = (IF ev.op = "destroy" THEN ev.late ELSE late) /\ Note(t, l + 1)
            \/ Hidden /\ UNCHANGED <<l, late>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
