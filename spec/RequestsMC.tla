----------------------------- MODULE RequestsMC -----------------------------
(* Requests of several threads over one connection as built: a list of pending entries shared with the reader thread under a mutex, a
   semaphore per entry, deadlines, and a daemon that answers any request at any time, twice, late, or never. Entries live on the stack of
   their thread: Locked = FALSE is the library as it was, which removed an entry whose time was up without the mutex. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S, Each, Answers, Locked
VARIABLES pc, seq, next, left, list, live, resp, sem, net, mtx, rd, out, bad
vars == <<pc, seq, next, left, list, live, resp, sem, net, mtx, rd, out, bad>>
None == 0
Init == /\ pc = [s \in S |-> "idle"] /\ seq = [s \in S |-> 0] /\ next = 1 /\ left = [s \in S |-> Each]
        /\ list = {} /\ live = {} /\ resp = [q \in 1..Each * Cardinality(S) |-> 0] /\ sem = {} /\ net = <<>> /\ mtx = "free"
        /\ rd = 0 /\ out = {} /\ bad = FALSE
(* the request is entered and sent with the mutex held *)
Send(s) == /\ pc[s] = "idle" /\ left[s] > 0 /\ mtx = "free" /\ left' = [left EXCEPT ![s] = @ - 1]
           /\ seq' = [seq EXCEPT ![s] = next] /\ next' = next + 1 /\ list' = list \cup {next} /\ live' = live \cup {next}
           /\ pc' = [pc EXCEPT ![s] = "wait"] /\ UNCHANGED <<resp, sem, net, mtx, rd, out, bad>>
(* the daemon sends a response: the n-th copy for request q *)
Copies(q) == Cardinality({i \in DOMAIN net : net[i] = q})
Answer == /\ Len(net) < Answers /\ \E q \in 1..next - 1 : net' = Append(net, q) /\ UNCHANGED <<pc, seq, next, left, list, live, resp, sem, mtx, rd, out, bad>>
(* the reader takes the next response (rd: how many it has handled), locks, finds the entry, completes it, unlocks *)
Lock == /\ rd < Len(net) /\ mtx = "free" /\ mtx' = (IF net[rd + 1] \in list THEN "found" ELSE "free") /\ rd' = (IF net[rd + 1] \in list THEN rd ELSE rd + 1)
        /\ UNCHANGED <<pc, seq, next, left, list, live, resp, sem, net, out, bad>>
Post == /\ mtx = "found" /\ LET q == net[rd + 1] IN
             /\ bad' = (bad \/ q \notin live)
             /\ resp' = (IF resp[q] = 0 THEN [resp EXCEPT ![q] = rd + 1] ELSE resp)
             /\ sem' = (IF resp[q] = 0 THEN sem \cup {q} ELSE sem)
        /\ mtx' = "free" /\ rd' = rd + 1 /\ UNCHANGED <<pc, seq, next, left, list, live, net, out>>
Woken(s) == /\ pc[s] = "wait" /\ seq[s] \in sem /\ pc' = [pc EXCEPT ![s] = "woken"] /\ UNCHANGED <<seq, next, left, list, live, resp, sem, net, mtx, rd, out, bad>>
Expired(s) == /\ pc[s] = "wait" /\ pc' = [pc EXCEPT ![s] = "expired"] /\ UNCHANGED <<seq, next, left, list, live, resp, sem, net, mtx, rd, out, bad>>
Leave(s) == /\ pc[s] \in {"woken", "expired"} /\ (mtx = "free" \/ (~Locked /\ pc[s] = "expired"))
            /\ LET q == seq[s] IN
                 /\ out' = out \cup {[s |-> s, q |-> q, r |-> IF resp[q] # 0 /\ (Locked \/ pc[s] = "woken") THEN net[resp[q]] ELSE None]}
                 /\ list' = list \ {q} /\ live' = live \ {q} /\ sem' = sem \ {q}
            /\ pc' = [pc EXCEPT ![s] = "idle"] /\ UNCHANGED <<seq, next, left, resp, net, mtx, rd, bad>>
Next == Answer \/ Lock \/ Post \/ \E s \in S : Send(s) \/ Woken(s) \/ Expired(s) \/ Leave(s)
Fair == WF_vars(Lock) /\ WF_vars(Post) /\ \A s \in S : WF_vars(Woken(s) \/ Expired(s)) /\ WF_vars(Leave(s))
Spec == Init /\ [][Next]_vars /\ Fair
OwnOrTimeout == \A o \in out : o.r \in {None, o.q}
Once == \A a, b \in out : a.q = b.q => a = b
NoStale == ~bad
(* a response that was there before the thread gave up is not lost *)
Ends == \A s \in S : pc[s] # "idle" ~> pc[s] = "idle"
=============================================================================
