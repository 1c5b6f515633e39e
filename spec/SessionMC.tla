------------------------------ MODULE SessionMC ------------------------------
(* The session service as built: a manager that answers one request after another, announcing before it answers; each client *)
(* reads one stream of announcements and answers.  It can be lost at any moment and starts again without a session. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, Ids, Calls, Losses
VARIABLES up, cur, queue, stage, req, inbox, told, heard, calls, losses, opened
vars == <<up, cur, queue, stage, req, inbox, told, heard, calls, losses, opened>>
E == INSTANCE Session WITH pend <- <<>>, got <- <<>>
None == [what |-> "none", id |-> 0]
Quiet == [c |-> "", rc |-> 0, s |-> 0]
Init == /\ up = TRUE /\ cur = 0 /\ queue = <<>> /\ stage = Quiet /\ req = [c \in Clients |-> None]
        /\ inbox = [c \in Clients |-> <<>>] /\ told = <<>> /\ heard = [c \in Clients |-> <<>>] /\ calls = 0 /\ losses = 0 /\ opened = 0
Call(c) == \E r \in E!Requests :
  /\ req[c] = None /\ calls < Calls /\ req' = [req EXCEPT ![c] = r] /\ calls' = calls + 1
  /\ IF up THEN queue' = Append(queue, [c |-> c, what |-> r.what, id |-> r.id]) /\ UNCHANGED inbox
     ELSE inbox' = [inbox EXCEPT ![c] = Append(@, [k |-> "ans", v |-> E!DOWN, s |-> 0])] /\ UNCHANGED queue
  /\ UNCHANGED <<up, cur, stage, told, heard, losses, opened>>
(* the manager handles the next request: it changes, then announces ... *)
Handle == /\ up /\ stage = Quiet /\ queue # <<>>
          /\ LET r == Head(queue) e == E!Effect(cur, r.what, r.id) IN
             /\ cur' = e.cur /\ queue' = Tail(queue) /\ stage' = [c |-> r.c, rc |-> e.rc, s |-> e.s]
             /\ opened' = opened + (e.cur - cur)
             /\ IF e.ann = "no" THEN UNCHANGED <<told, inbox>>
                ELSE told' = Append(told, e.cur) /\ inbox' = [c \in Clients |-> Append(inbox[c], [k |-> "ev", v |-> e.cur, s |-> 0])]
          /\ UNCHANGED <<up, req, heard, calls, losses>>
(* ... and answers *)
Answer == /\ stage # Quiet /\ inbox' = [inbox EXCEPT ![stage.c] = Append(@, [k |-> "ans", v |-> stage.rc, s |-> stage.s])] /\ stage' = Quiet
          /\ UNCHANGED <<up, cur, queue, req, told, heard, calls, losses, opened>>
Read(c) == /\ inbox[c] # <<>>
           /\ LET m == Head(inbox[c]) IN
              /\ inbox' = [inbox EXCEPT ![c] = Tail(@)]
              /\ IF m.k = "ev" THEN heard' = [heard EXCEPT ![c] = Append(@, m.v)] /\ UNCHANGED req
                 ELSE req' = [req EXCEPT ![c] = None] /\ UNCHANGED heard
           /\ UNCHANGED <<up, cur, queue, stage, told, calls, losses, opened>>
(* lost, with the requests it had: their callers are told so *)
Lost == {queue[i].c : i \in DOMAIN queue} \cup (IF stage = Quiet THEN {} ELSE {stage.c})
Lose == /\ up /\ losses < Losses /\ up' = FALSE /\ cur' = 0 /\ queue' = <<>> /\ stage' = Quiet /\ losses' = losses + 1 /\ opened' = 0
        /\ inbox' = [c \in Clients |-> IF c \in Lost THEN Append(inbox[c], [k |-> "ans", v |-> E!DOWN, s |-> 0]) ELSE inbox[c]]
        /\ UNCHANGED <<req, told, heard, calls>>
Start == ~up /\ up' = TRUE /\ UNCHANGED <<cur, queue, stage, req, inbox, told, heard, calls, losses, opened>>
Next == (\E c \in Clients : Call(c) \/ Read(c)) \/ Handle \/ Answer \/ Lose \/ Start
Spec == Init /\ [][Next]_vars /\ WF_vars(Handle) /\ WF_vars(Answer) /\ WF_vars(Start) /\ \A c \in Clients : WF_vars(Read(c))

OneSession == opened \in {0, 1} /\ (cur # 0) = (opened = 1)
EventsOf(q) == LET m == SelectSeq(q, LAMBDA x : x.k = "ev") IN [i \in DOMAIN m |-> m[i].v]
Announced == \A c \in Clients : heard[c] \o EventsOf(inbox[c]) = told
(* an answered caller has heard of the change it made *)
Ended == \A c \in Clients : (req[c] # None) ~> (req[c] = None)

AnswerFor(c) == LET m == SelectSeq(inbox[c], LAMBDA x : x.k = "ans") IN IF m = <<>> THEN [k |-> "none", v |-> 0, s |-> 0] ELSE m[1]
PendOf(c) == IF req[c] = None THEN E!Idle
             ELSE LET a == AnswerFor(c) IN
                  IF a.k = "ans" THEN [st |-> "done", what |-> req[c].what, id |-> req[c].id, rc |-> a.v, s |-> a.s]
                  ELSE IF stage.c = c THEN [st |-> "done", what |-> req[c].what, id |-> req[c].id, rc |-> stage.rc, s |-> stage.s]
                  ELSE [st |-> "called", what |-> req[c].what, id |-> req[c].id, rc |-> 0, s |-> 0]
(* being lost fails several requests at once: those steps of the service are joined, so only steps without a loss refine it *)
A == INSTANCE Session WITH pend <- [c \in Clients |-> PendOf(c)], got <- [c \in Clients |-> Len(heard[c])]
Refines == [][A!SNext \/ Lose \/ (\E c \in Clients : ~up /\ Call(c))]_(A!svars)
=============================================================================
