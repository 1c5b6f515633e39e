----------------------------- MODULE HandlesMC ------------------------------
(* Closing handles of one process as built: a table of listeners, the list of handles, the thread that runs handlers of whatever arrives, and
   callers that open and close. A handle under a name that is open replaces the one there is. Waits = FALSE is the library as it was, which
   did not wait for handlers that run. A handler may itself close a handle (Inside). *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Names, Callers, Ops, Arrivals, Waits, Inside
VARIABLES cur, st, nxt, lst, d, pc, left, arr, conn, bad
(* cur: handle open under a name, 0: none. st: of each handle ever made. lst: handles in the table of listeners. d: what the callback thread does *)
vars == <<cur, st, nxt, lst, d, pc, left, arr, conn, bad>>
Max == Ops * Cardinality(Callers) + 2
Hs == 1..Max
Idle == [s |-> "idle", h |-> 0]
Init == /\ cur = [n \in Names |-> 0] /\ st = [h \in Hs |-> "none"] /\ nxt = 1 /\ lst = {} /\ d = Idle /\ pc = [c \in Callers |-> [s |-> "idle", h |-> 0, n |-> "", re |-> FALSE]]
        /\ left = [c \in Callers |-> Ops] /\ arr = Arrivals /\ conn = FALSE /\ bad = FALSE
(* the name of a handle is used by one caller at a time: that is up to the application *)
Busy == {pc[c].n : c \in Callers} \cup (IF d.s \in {"wants", "closes"} THEN {d.n} ELSE {})
(* open, or open again *)
Begin(c) == /\ pc[c].s = "idle" /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1]
            /\ \E n \in Names \ Busy : \E re \in BOOLEAN :
                 IF cur[n] = 0 THEN /\ re /\ nxt <= Max /\ nxt' = nxt + 1 /\ cur' = [cur EXCEPT ![n] = nxt] /\ st' = [st EXCEPT ![nxt] = "open"] /\ lst' = lst \cup {nxt} /\ conn' = TRUE /\ UNCHANGED pc
                 ELSE pc' = [pc EXCEPT ![c] = [s |-> "mark", h |-> cur[n], n |-> n, re |-> re]] /\ UNCHANGED <<nxt, cur, st, lst, conn>>
            /\ UNCHANGED <<d, arr, bad>>
Mark(c) == /\ pc[c].s = "mark" /\ st' = [st EXCEPT ![pc[c].h] = "closing"] /\ pc' = [pc EXCEPT ![c].s = "wait"] /\ UNCHANGED <<cur, nxt, lst, d, left, arr, conn, bad>>
Runs(h) == d.h = h /\ d.s \in {"runs", "wants", "closes"}
Unlist(c) == /\ pc[c].s = "wait" /\ (Waits => ~Runs(pc[c].h)) /\ lst' = lst \ {pc[c].h} /\ pc' = [pc EXCEPT ![c].s = "free"] /\ UNCHANGED <<cur, st, nxt, d, left, arr, conn, bad>>
Free(c) == /\ pc[c].s = "free" /\ (Waits => ~Runs(pc[c].h)) /\ LET h == pc[c].h IN
             /\ st' = [st EXCEPT ![h] = "gone"] /\ cur' = [cur EXCEPT ![pc[c].n] = 0]
             /\ pc' = [pc EXCEPT ![c] = IF pc[c].re THEN [@ EXCEPT !.s = "again"] ELSE [s |-> "idle", h |-> 0, n |-> "", re |-> FALSE]]
             /\ conn' = (\E n \in Names : n # pc[c].n /\ cur[n] # 0)
           /\ UNCHANGED <<nxt, lst, d, left, arr, bad>>
Again(c) == /\ pc[c].s = "again" /\ nxt <= Max /\ nxt' = nxt + 1 /\ cur' = [cur EXCEPT ![pc[c].n] = nxt] /\ st' = [st EXCEPT ![nxt] = "open"] /\ lst' = lst \cup {nxt} /\ conn' = TRUE
            /\ pc' = [pc EXCEPT ![c] = [s |-> "idle", h |-> 0, n |-> "", re |-> FALSE]] /\ UNCHANGED <<d, left, arr, bad>>
(* something arrives for a handle of the table; its handler is found, then called unless the handle is closing *)
Arrive == d.s = "idle" /\ arr > 0 /\ arr' = arr - 1 /\ (\E h \in lst : d' = [s |-> "found", h |-> h]) /\ UNCHANGED <<cur, st, nxt, lst, pc, left, conn, bad>>
Call == /\ d.s = "found"
        /\ IF Waits /\ st[d.h] # "open" THEN d' = Idle /\ UNCHANGED bad ELSE d' = [s |-> "runs", h |-> d.h] /\ bad' = (bad \/ st[d.h] = "gone")
        /\ UNCHANGED <<cur, st, nxt, lst, pc, left, arr, conn>>
Return == d.s = "runs" /\ d' = Idle /\ bad' = (bad \/ st[d.h] = "gone") /\ UNCHANGED <<cur, st, nxt, lst, pc, left, arr, conn>>
(* the handler closes another handle, or its own *)
Wants == /\ Inside /\ d.s = "runs" /\ \E n \in Names \ Busy : cur[n] # 0 /\ d' = [s |-> "wants", h |-> d.h, n |-> n] /\ st' = [st EXCEPT ![cur[n]] = "closing"]
         /\ UNCHANGED <<cur, nxt, lst, pc, left, arr, conn, bad>>
Closes == /\ d.s = "wants" /\ LET h == cur[d.n] IN st' = [st EXCEPT ![h] = "gone"] /\ lst' = lst \ {h} /\ cur' = [cur EXCEPT ![d.n] = 0] /\ d' = Idle
          /\ conn' = (\E n \in Names : n # d.n /\ cur[n] # 0) /\ UNCHANGED <<nxt, pc, left, arr, bad>>
Next == Arrive \/ Call \/ Return \/ Wants \/ Closes \/ \E c \in Callers : Begin(c) \/ Mark(c) \/ Unlist(c) \/ Free(c) \/ Again(c)
Fair == WF_vars(Call) /\ WF_vars(Return) /\ WF_vars(Closes) /\ \A c \in Callers : WF_vars(Mark(c)) /\ WF_vars(Unlist(c)) /\ WF_vars(Free(c)) /\ WF_vars(Again(c))
Spec == Init /\ [][Next]_vars /\ Fair
(* no handler of a handle that is gone is called, or uses it *)
NoUse == ~bad
(* what a closed handle has made is withdrawn, and the connection is there while a handle is *)
Withdrawn == \A h \in Hs : st[h] = "gone" => h \notin lst
Connected == conn <=> \E n \in Names : cur[n] # 0
(* other handles stay as they are *)
Kept == \A n \in Names : cur[n] # 0 /\ st[cur[n]] = "open" => cur[n] \in lst
Ends == \A c \in Callers : pc[c].s # "idle" ~> pc[c].s = "idle"
=============================================================================
