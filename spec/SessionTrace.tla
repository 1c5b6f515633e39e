---------------------------- MODULE SessionTrace ----------------------------
(* Recorded histories of the session service: some order of the requests issued together explains all their results and what each
   subscriber was told. *)
EXTENDS TraceBase, Integers
VARIABLES t, l, isUp, now, subs
tvars == <<t, l, isUp, now, subs>>
S == INSTANCE Session WITH Clients <- {}, Ids <- {}, up <- isUp, cur <- now, pend <- <<>>, told <- <<>>, got <- <<>>
ev == Traces[t][l]
K == {"k1", "k2", "k3", "k4"}
Proc(c) == IF c \in {"k1", "k2"} THEN "K" ELSE IF c = "k3" THEN "L" ELSE "M"
(* announcements heard, against what was to be announced *)
RECURSIVE Heard(_, _)
Heard(h, told) ==
  IF told = <<>> THEN h = <<>>
  ELSE LET m == Head(told) IN \/ h # <<>> /\ Head(h) = m.id /\ Heard(Tail(h), Tail(told))
                              \/ m.ann = "may" /\ Heard(h, Tail(told))
AllHeard(e, told) == \A c \in K : IF c \in subs THEN Heard(e.ann[c], told) ELSE e.ann[c] = <<>>
(* an order of the requests e.calls[i], i in todo, from the session id s *)
RECURSIVE Order(_, _, _, _)
Order(e, todo, s, told) ==
  IF todo = {} THEN now' = s /\ AllHeard(e, told)
  ELSE \E i \in todo : LET x == S!Effect(s, e.calls[i].what, e.calls[i].id) IN
         /\ e.res[i].rc = x.rc /\ e.res[i].s = x.s
         /\ Order(e, todo \ {i}, x.cur, IF x.ann = "no" THEN told ELSE Append(told, [id |-> x.cur, ann |-> x.ann]))
Unheard(e) == \A c \in K : e.ann[c] = <<>>
Calls(e) == /\ UNCHANGED <<isUp, subs>>
            /\ IF isUp THEN Order(e, DOMAIN e.calls, now, <<>>)
               ELSE /\ UNCHANGED now /\ Unheard(e)
                    /\ \A i \in DOMAIN e.calls : /\ e.res[i].s = 0
                                                 /\ IF e.calls[i].what = "close" /\ e.calls[i].id = 0 THEN e.res[i].rc = 0 ELSE e.res[i].rc \notin {0, 12}
Step(e) ==
  CASE e.op = "calls" -> Calls(e)
    [] e.op = "sub" -> /\ Unheard(e) /\ UNCHANGED <<isUp, now>> /\ subs' = subs \cup {e.c} /\ e.rc = (IF e.c \in subs THEN 24 ELSE 0)
    [] e.op = "unsub" -> /\ Unheard(e) /\ UNCHANGED <<isUp, now>> /\ subs' = subs \ {e.c} /\ e.rc = (IF e.c \in subs THEN 0 ELSE 9)
    [] e.op = "stop" -> Unheard(e) /\ isUp' = FALSE /\ now' = 0 /\ UNCHANGED subs
    (* no session; finding out that it has come up may have it repeat that *)
    [] e.op = "start" -> isUp' = TRUE /\ now' = 0 /\ UNCHANGED subs /\ e.rc = 0 /\ \A c \in K : \A i \in DOMAIN e.ann[c] : e.ann[c][i] = 0
    [] e.op = "again" -> Unheard(e) /\ UNCHANGED <<isUp, now>> /\ subs' = {c \in subs : Proc(c) # e.p}
    [] e.op = "set" -> Unheard(e) /\ UNCHANGED <<isUp, now, subs>> /\ e.rc = 0 /\ e.runs = <<[id |-> e.id, commit |-> e.commit, same |-> TRUE]>>
    [] OTHER -> FALSE
TInit == isUp = TRUE /\ now = 0 /\ subs = {} /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ \/ Step(ev)
            \/ ~ENABLED Step(ev) /\ PrintT(<<"MISMATCH", t, l, [up |-> isUp, now |-> now, subs |-> subs]>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
