------------------------------- MODULE Session -------------------------------
(* The session service: at most one session; its id is what every request is judged by. *)
EXTENDS Integers, Sequences, FiniteSets
OK == 0  BAD == 2  HELD == 12  DOWN == 99
Active == 1                      \* the id every session gets
(* what a request does at the moment it takes effect: the new current id, the result, the id returned, and what is announced *)
(* ("yes": the new id; "may": nothing has changed, the current id may be repeated; "no") *)
Effect(cur, what, id) ==
  CASE what = "current" -> [cur |-> cur, rc |-> OK, s |-> cur, ann |-> "no"]
    [] what = "create" /\ cur = 0 -> [cur |-> Active, rc |-> OK, s |-> Active, ann |-> "yes"]
    [] what = "create" -> [cur |-> cur, rc |-> HELD, s |-> 0, ann |-> "may"]
    [] what = "close" /\ id = 0 -> [cur |-> cur, rc |-> OK, s |-> 0, ann |-> "no"]
    [] what = "close" /\ id = cur -> [cur |-> 0, rc |-> OK, s |-> 0, ann |-> "yes"]
    [] OTHER -> [cur |-> cur, rc |-> HELD, s |-> 0, ann |-> "may"]

(* the service as its users see it: each request takes effect at one moment between its call and its return *)
CONSTANTS Clients, Ids
VARIABLES up, cur, pend, told, got
svars == <<up, cur, pend, told, got>>
Idle == [st |-> "idle", what |-> "", id |-> 0, rc |-> 0, s |-> 0]
Requests == {[what |-> w, id |-> 0] : w \in {"create", "current"}} \cup {[what |-> "close", id |-> i] : i \in Ids}
SInit == up = TRUE /\ cur = 0 /\ pend = [c \in Clients |-> Idle] /\ told = <<>> /\ got = [c \in Clients |-> 0]
Call(c, r) == /\ pend[c].st = "idle"
              /\ pend' = [pend EXCEPT ![c] = [st |-> "called", what |-> r.what, id |-> r.id, rc |-> 0, s |-> 0]]
              /\ UNCHANGED <<up, cur, told, got>>
Do(c) == /\ pend[c].st = "called" /\ up
         /\ LET e == Effect(cur, pend[c].what, pend[c].id) IN
            /\ cur' = e.cur
            /\ pend' = [pend EXCEPT ![c] = [@ EXCEPT !.st = "done", !.rc = e.rc, !.s = e.s]]
            /\ told' = IF e.ann = "no" THEN told ELSE Append(told, e.cur)
         /\ UNCHANGED <<up, got>>
Return(c) == pend[c].st = "done" /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<up, cur, told, got>>
(* nobody answers: it may have taken effect before the manager was lost, but then that is lost too *)
Fail(c) == /\ pend[c].st \in {"called", "done"}
           /\ pend' = [pend EXCEPT ![c] = [@ EXCEPT !.st = "done", !.rc = DOWN, !.s = 0]] /\ UNCHANGED <<up, cur, told, got>>
Hear(c) == got[c] < Len(told) /\ got' = [got EXCEPT ![c] = @ + 1] /\ UNCHANGED <<up, cur, pend, told>>
Lose == up /\ up' = FALSE /\ cur' = 0 /\ UNCHANGED <<pend, told, got>>
Start == ~up /\ up' = TRUE /\ cur' = 0 /\ UNCHANGED <<pend, told, got>>
SNext == \/ \E c \in Clients : (\E r \in Requests : Call(c, r)) \/ Do(c) \/ Return(c) \/ Fail(c) \/ Hear(c)
         \/ Lose \/ Start
SSpec == SInit /\ [][SNext]_svars
=============================================================================
