---------------------------- MODULE ThreadPoolMC ----------------------------
(* The pool's threads step by step (one step per stretch under its lock): submissions, threads that are created, wait, expire,
   fail to be created, and the destruction, by whoever is last. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max, T, N, Wait, Fail     \* limit, threads that are ever created, tasks; "forever" | "limited"; thread creation can fail
Thread == 1..T
Task == 1..N
VARIABLES q, cnt, busyCnt, pc, task, running, shutdown, freed, sub, acc, started, ended, dpc, dropped
vars == <<q, cnt, busyCnt, pc, task, running, shutdown, freed, sub, acc, started, ended, dpc, dropped>>
Init == /\ q = <<>> /\ cnt = 0 /\ busyCnt = 0 /\ pc = [t \in Thread |-> "none"] /\ task = [t \in Thread |-> 0]
        /\ running = TRUE /\ shutdown = FALSE /\ freed = FALSE /\ sub = 0 /\ acc = <<>> /\ started = <<>> /\ ended = {} /\ dpc = "up" /\ dropped = {}
Signal(p) == IF \E t \in Thread : p[t] = "wait" THEN \E t \in {t \in Thread : p[t] = "wait"} : pc' = [p EXCEPT ![t] = "woken"] ELSE pc' = p
(* rtThreadPool_RunTask *)
Submit == LET k == sub + 1 n == Len(q) + 1 IN
  /\ dpc = "up" /\ sub < N /\ sub' = k /\ UNCHANGED <<busyCnt, task, running, shutdown, freed, started, ended, dpc, dropped>>
  /\ IF busyCnt + n <= cnt THEN q' = Append(q, k) /\ acc' = Append(acc, k) /\ Signal(pc) /\ UNCHANGED cnt
     ELSE IF cnt < Max
     THEN \/ \E t \in {t \in Thread : pc[t] = "none"} : /\ \A u \in Thread : u < t => pc[u] # "none"
                                                        /\ pc' = [pc EXCEPT ![t] = "starting"] /\ cnt' = cnt + 1 /\ q' = Append(q, k) /\ acc' = Append(acc, k)
          \/ Fail /\ IF cnt > 0 THEN q' = Append(q, k) /\ acc' = Append(acc, k) /\ UNCHANGED <<pc, cnt>>   \* the thread could not be created
             ELSE UNCHANGED <<q, acc, pc, cnt>>
     ELSE q' = Append(q, k) /\ acc' = Append(acc, k) /\ UNCHANGED <<pc, cnt>>
(* a worker with the lock *)
Step(t) == /\ pc[t] \in {"starting", "woken", "timedout", "after"}
           /\ UNCHANGED <<sub, acc, ended, dpc, running, shutdown, dropped>>
           /\ LET b == IF pc[t] = "after" THEN busyCnt - 1 ELSE busyCnt IN
              IF running /\ q # <<>>
              THEN q' = Tail(q) /\ task' = [task EXCEPT ![t] = Head(q)] /\ started' = Append(started, Head(q)) /\ busyCnt' = b + 1 /\ pc' = [pc EXCEPT ![t] = "run"] /\ UNCHANGED <<cnt, freed>>
              ELSE IF running /\ pc[t] # "timedout" THEN pc' = [pc EXCEPT ![t] = "wait"] /\ busyCnt' = b /\ UNCHANGED <<q, cnt, task, started, freed>>
              ELSE /\ pc' = [pc EXCEPT ![t] = "gone"] /\ cnt' = cnt - 1 /\ busyCnt' = b /\ UNCHANGED <<q, task, started>>
                   /\ freed' = (freed \/ (cnt = 1 /\ shutdown))
Finish(t) == pc[t] = "run" /\ pc' = [pc EXCEPT ![t] = "after"] /\ ended' = ended \cup {task[t]} /\ UNCHANGED <<q, cnt, busyCnt, task, running, shutdown, freed, sub, acc, started, dpc, dropped>>
Expire(t) == pc[t] = "wait" /\ pc' = [pc EXCEPT ![t] = "timedout"] /\ UNCHANGED <<q, cnt, busyCnt, task, running, shutdown, freed, sub, acc, started, ended, dpc, dropped>>
(* rtThreadPool_Destroy, after everything was submitted *)
DStop == /\ dpc = "up" /\ sub = N /\ (Wait = "limited" \/ (busyCnt = 0 /\ q = <<>>))
         /\ dpc' = "stopped" /\ running' = FALSE /\ pc' = [t \in Thread |-> IF pc[t] = "wait" THEN "woken" ELSE pc[t]]
         /\ dropped' = {q[i] : i \in DOMAIN q} /\ UNCHANGED <<q, cnt, busyCnt, task, shutdown, freed, sub, acc, started, ended>>
DFree == dpc = "stopped" /\ dpc' = "done" /\ shutdown' = TRUE /\ freed' = (freed \/ cnt = 0) /\ UNCHANGED <<q, cnt, busyCnt, pc, task, running, sub, acc, started, ended, dropped>>
Work == \E t \in Thread : Step(t)
Next == Submit \/ DStop \/ DFree \/ \E t \in Thread : Step(t) \/ Finish(t) \/ Expire(t)
Fair == WF_vars(DFree) /\ \A t \in Thread : WF_vars(Step(t)) /\ WF_vars(Finish(t))
Spec == Init /\ [][Next]_vars /\ Fair
(* tasks need not end here *)
SpecLong == Init /\ [][Next]_vars /\ \A t \in Thread : WF_vars(Step(t))
Limit == Cardinality({t \in Thread : pc[t] \notin {"none", "gone"}}) <= Max
InOrder == \A i, j \in DOMAIN started : i < j => started[i] < started[j]
NotUsedWhenFreed == freed => \A t \in Thread : pc[t] \in {"none", "gone"}
DroppedNeverRun == dropped \cap {started[i] : i \in DOMAIN started} = {}
Count == cnt = Cardinality({t \in Thread : pc[t] \notin {"none", "gone"}}) /\ busyCnt = Cardinality({t \in Thread : pc[t] \in {"run", "after"}})
Waited == Wait = "forever" /\ dpc # "up" => ended = {acc[i] : i \in DOMAIN acc}
AllRun == \A k \in Task : ((\E i \in DOMAIN acc : acc[i] = k) ~> (k \in ended \cup dropped))
FreedOnce == (dpc = "done") ~> freed
(* a task waits only while as many tasks as are allowed are running, or threads could not be created *)
NoneForgotten == (q # <<>> /\ running) ~> (q = <<>> \/ ~running \/ \E t \in Thread : pc[t] \in {"run", "after"})
Busy == Cardinality({t \in Thread : pc[t] = "run"})
Prompt == (q # <<>> /\ running) ~> (q = <<>> \/ ~running \/ Busy = Max)
=============================================================================
