----------------------------- MODULE ThreadPool -----------------------------
(* A pool that runs tasks on at most Max threads at a time. Tasks are started in the order in which they were accepted.
   Destroying it waits, for ever or up to a limit, until nothing is running or waiting; what waits after that is never run. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  mx,       \* the limit
  asked,    \* submissions under way: task -> "asked" | "queued" | "refused"
  queue,    \* accepted tasks that no thread has taken
  taken,    \* taken by a thread, not seen starting yet
  busy,     \* running
  leaving,  \* ended, whose thread is not free yet
  nofail,   \* no thread could not be created
  phase,    \* "none" | "up" | "ending" | "stopped" | "gone"
  cancelled \* how many tasks were still queued when it stopped
pvars == <<mx, asked, queue, taken, busy, leaving, nofail, phase, cancelled>>
Init == mx = 0 /\ asked = [x \in {} |-> ""] /\ queue = <<>> /\ taken = {} /\ busy = {} /\ leaving = {} /\ nofail = TRUE /\ phase = "none" /\ cancelled = 0
Load == Cardinality(taken) + Cardinality(busy) + Cardinality(leaving)
New(n) == phase = "none" /\ mx' = n /\ phase' = "up" /\ UNCHANGED <<asked, queue, taken, busy, leaving, nofail, cancelled>>
Ask(k) == phase # "none" /\ k \notin DOMAIN asked /\ asked' = (k :> "asked") @@ asked /\ UNCHANGED <<mx, queue, taken, busy, leaving, nofail, phase, cancelled>>
Enqueue(k) == /\ k \in DOMAIN asked /\ asked[k] = "asked"
              \* a task that submits another can outlive the pool
              /\ asked' = [asked EXCEPT ![k] = "queued"] /\ queue' = (IF phase \in {"stopped", "gone"} THEN queue ELSE Append(queue, k))
              /\ UNCHANGED <<mx, taken, busy, leaving, nofail, phase, cancelled>>
(* refusing needs a thread that could not be created and no other to do it *)
Refuse(k) == /\ k \in DOMAIN asked /\ asked[k] = "asked" /\ ~nofail
             /\ asked' = [asked EXCEPT ![k] = "refused"] /\ UNCHANGED <<mx, queue, taken, busy, leaving, nofail, phase, cancelled>>
Take == /\ queue # <<>> /\ Load < mx /\ phase \in {"up", "ending"}
        /\ taken' = taken \cup {Head(queue)} /\ queue' = Tail(queue)
        /\ UNCHANGED <<mx, asked, busy, leaving, nofail, phase, cancelled>>
Start(k) == k \in taken /\ taken' = taken \ {k} /\ busy' = busy \cup {k} /\ UNCHANGED <<mx, asked, queue, leaving, nofail, phase, cancelled>>
End(k) == k \in busy /\ busy' = busy \ {k} /\ leaving' = leaving \cup {k} /\ UNCHANGED <<mx, asked, queue, taken, nofail, phase, cancelled>>
Leave == leaving # {} /\ \E k \in leaving : leaving' = leaving \ {k} /\ UNCHANGED <<mx, asked, queue, taken, busy, nofail, phase, cancelled>>
Quiet == Load = 0 /\ queue = <<>>
Destroying == phase = "up" /\ phase' = "ending" /\ UNCHANGED <<mx, asked, queue, taken, busy, leaving, nofail, cancelled>>
Stop(mayTimeOut) == /\ phase = "ending" /\ (Quiet \/ mayTimeOut) /\ phase' = "stopped" /\ cancelled' = Len(queue) /\ queue' = <<>>
                    /\ UNCHANGED <<mx, asked, taken, busy, leaving, nofail>>
Destroyed == phase = "stopped" /\ phase' = "gone" /\ UNCHANGED <<mx, asked, queue, taken, busy, leaving, nofail, cancelled>>
(* nothing more would happen by itself: every task that can run is running *)
Settled == taken = {} /\ leaving = {} /\ (phase \in {"stopped", "gone"} \/ queue = <<>> \/ Load = mx \/ (~nofail /\ Load > 0))
Limit == mx > 0 => Load <= mx
=============================================================================
