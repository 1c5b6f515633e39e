------------------------------ MODULE AsyncSubMC -----------------------------
(* How asynchronous subscriptions are meant to work: one thread of the consumer makes the attempts, one request at a time;
   a request is cancelled, its handle is closed, or time runs out at any moment, also during its attempt, and the provider comes,
   goes, accepts or refuses. Requests are 1..N, the first half of one handle, the others of another. *)
EXTENDS Integers, FiniteSets
CONSTANTS N, Restarts
VARIABLES
  st,      \* request -> "new", "pending", "done", "gone"
  cur,     \* the request being attempted, or 0
  msg,     \* what is under way: "none", "ask", "yes", "no", "lost" (of the attempt), "undo" (its withdrawal)
  removed, \* the one being attempted has been cancelled
  calls,   \* request -> times its handler ran
  quiet,   \* requests whose cancelling call has returned
  known,   \* requests that the provider has accepted
  mine,    \* subscriptions that the consumer has
  up, accept, starts, broken
vars == <<st, cur, msg, removed, calls, quiet, known, mine, up, accept, starts, broken>>
Req == 1..N
Half(r) == IF 2 * r <= N THEN 1 ELSE 2
Init == /\ st = [r \in Req |-> "new"] /\ cur = 0 /\ msg = "none" /\ removed = FALSE /\ calls = [r \in Req |-> 0] /\ quiet = {}
        /\ known = {} /\ mine = {} /\ up = FALSE /\ accept = TRUE /\ starts = 0 /\ broken = {}
Call(r) == st[r] = "new" /\ st' = [st EXCEPT ![r] = "pending"] /\ UNCHANGED <<cur, msg, removed, calls, quiet, known, mine, up, accept, starts, broken>>
Try(r) == /\ cur = 0 /\ st[r] = "pending" /\ cur' = r /\ removed' = FALSE /\ msg' = IF up THEN "ask" ELSE "lost"
          /\ UNCHANGED <<st, calls, quiet, known, mine, up, accept, starts, broken>>
Answer == /\ msg = "ask" /\ up
          /\ IF accept THEN known' = known \cup {cur} /\ msg' = "yes" ELSE msg' = "no" /\ UNCHANGED known
          /\ UNCHANGED <<st, cur, removed, calls, quiet, mine, up, accept, starts, broken>>
Undo == /\ msg = "undo" /\ IF up THEN known' = known \ {cur} /\ UNCHANGED broken ELSE broken' = broken \cup {cur} /\ UNCHANGED known
        /\ cur' = 0 /\ msg' = "none" /\ UNCHANGED <<st, removed, calls, quiet, mine, up, accept, starts>>
Ran(r) == calls' = [calls EXCEPT ![r] = @ + 1]
(* the attempt is over: a request that is cancelled has no outcome, and the provider's acceptance is withdrawn *)
Finish ==
  /\ cur # 0 /\ msg \in {"yes", "no", "lost"}
  /\ IF removed THEN
       /\ IF msg = "yes" THEN msg' = "undo" /\ UNCHANGED <<cur, broken>>
          ELSE cur' = 0 /\ msg' = "none" /\ UNCHANGED broken
       /\ UNCHANGED <<st, calls, mine>>
     ELSE
       /\ cur' = 0 /\ msg' = "none" /\ UNCHANGED broken
       /\ IF msg = "lost" THEN UNCHANGED <<st, calls, mine>>   \* again later
          ELSE /\ st' = [st EXCEPT ![cur] = "done"] /\ Ran(cur) /\ mine' = IF msg = "yes" THEN mine \cup {cur} ELSE mine
  /\ UNCHANGED <<removed, quiet, known, up, accept, starts>>
(* time runs out between attempts *)
Expire(r) == /\ st[r] = "pending" /\ cur # r /\ st' = [st EXCEPT ![r] = "done"] /\ Ran(r)
             /\ UNCHANGED <<cur, msg, removed, quiet, known, mine, up, accept, starts, broken>>
(* the call removes the request, then waits if it is the one being attempted *)
Remove(S) == st' = [r \in Req |-> IF r \in S /\ st[r] = "pending" THEN "gone" ELSE st[r]] /\ removed' = (removed \/ (cur \in S /\ st[cur] = "pending"))
Cancel(r) == st[r] = "pending" /\ Remove({r}) /\ UNCHANGED <<cur, msg, calls, quiet, known, mine, up, accept, starts, broken>>
CloseHandle(h) == /\ \E r \in Req : Half(r) = h /\ st[r] = "pending"
                  /\ Remove({r \in Req : Half(r) = h}) /\ UNCHANGED <<cur, msg, calls, quiet, known, mine, up, accept, starts, broken>>
Returned(r) == st[r] = "gone" /\ cur # r /\ r \notin quiet /\ quiet' = quiet \cup {r} /\ UNCHANGED <<st, cur, msg, removed, calls, known, mine, up, accept, starts, broken>>
Start == ~up /\ starts < Restarts /\ up' = TRUE /\ starts' = starts + 1 /\ UNCHANGED <<st, cur, msg, removed, calls, quiet, known, mine, accept, broken>>
(* it knows again what it knew when it returns; an answer that is under way can be lost with it *)
Stop == /\ up /\ starts < Restarts /\ up' = FALSE
        /\ IF msg \in {"ask", "yes"} THEN msg' = "lost" /\ broken' = broken \cup {cur} ELSE UNCHANGED <<msg, broken>>
        /\ UNCHANGED <<st, cur, removed, calls, quiet, known, mine, accept, starts>>
Mind == accept' = ~accept /\ UNCHANGED <<st, cur, msg, removed, calls, quiet, known, mine, up, starts, broken>>
Next == \/ \E r \in Req : Call(r) \/ Try(r) \/ Expire(r) \/ Cancel(r) \/ Returned(r)
        \/ \E h \in {1, 2} : CloseHandle(h)
        \/ Answer \/ Undo \/ Finish \/ Start \/ Stop \/ Mind
(* every pending request's turn comes *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Answer) /\ WF_vars(Undo) /\ WF_vars(Finish) /\ WF_vars(Start) /\ \A r \in Req : SF_vars(Try(r)) /\ WF_vars(Returned(r))
-----------------------------------------------------------------------------
AtMostOnce == \A r \in Req : calls[r] <= 1 /\ (st[r] = "done") = (calls[r] = 1)
NothingAfterCancel == \A r \in Req : st[r] = "gone" => calls[r] = 0 /\ r \notin mine
Silence == [][\A r \in quiet : calls'[r] = calls[r] /\ (r \in known' => r \in known) /\ r \notin mine']_vars
Agreed == \A r \in Req : r \in mine => r \in known
NothingLeft == \A r \in Req : r \in quiet /\ r \notin broken => r \notin known
NoLeak == cur = 0 => \A r \in known : r \in mine \/ r \in broken
CancelReturns == \A r \in Req : (st[r] = "gone") ~> (r \in quiet)
Answered == \A r \in Req : (st[r] = "pending") ~> (st[r] # "pending")
=============================================================================
