--------------------------- MODULE MessagesTrace ---------------------------
EXTENDS TraceBase, Messages
VARIABLES t, l, ls, closed
tvars == <<t, l, ls, closed>>
ev == Traces[t][l]
K == {"k1", "k2", "k3", "k4"}
Proc(c) == IF c \in {"k1", "k2"} THEN "K" ELSE IF c = "k3" THEN "L" ELSE "M"
(* e.got: what handlers were called with, by process, in order: [h, tag, t, id] *)
HeardBy(e, x) == SelectSeq(e.got[Proc(x.k)], LAMBDA g : g.tag = x.tag)
Ids(q) == [i \in DOMAIN q |-> q[i].id]
Heard(e, L, tp, ids, going, coming) ==
  /\ \A x \in L : LET q == HeardBy(e, x) IN (\A i \in DOMAIN q : q[i].h = x.k /\ q[i].t = x.t) /\ Hears(Ids(q), x, tp, ids, going, coming)
  /\ \A p \in {"K", "L", "M"} : LET q == e.got[p] IN \A i \in DOMAIN q : /\ \E x \in L : x.tag = q[i].tag /\ Proc(x.k) = p
                                                                         /\ i > 1 => q[i - 1].id <= q[i].id
Quiet(e) == \A p \in {"K", "L", "M"} : e.got[p] = <<>>
New(e, k) == [k |-> k, t |-> e.t, s |-> e.s, tag |-> e.tag]
One(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}
Going(e) == CASE e.what = "rm" -> Known(ls, e.r, e.t, e.s) [] e.what \in {"rmall", "close"} -> Of(ls, e.r) [] OTHER -> {}
Step(e) ==
  CASE e.op = "add" -> Quiet(e) /\ e.rc = 0 /\ ls' = ls \cup {New(e, e.k)} /\ UNCHANGED closed
    [] e.op = "rm" -> Quiet(e) /\ e.rc = (IF Known(ls, e.k, e.t, e.s) = {} THEN 1 ELSE 0) /\ ls' = ls \ Known(ls, e.k, e.t, e.s) /\ UNCHANGED closed
    [] e.op = "rmall" -> Quiet(e) /\ e.rc = 0 /\ ls' = ls \ Of(ls, e.k) /\ UNCHANGED closed
    [] e.op = "has" -> Quiet(e) /\ e.rc = (IF On(Of(ls, e.k), e.t) = {} THEN 0 ELSE 1) /\ UNCHANGED <<ls, closed>>
    [] e.op = "send" -> /\ Heard(e, ls, e.t, e.ids, {}, {}) /\ UNCHANGED <<ls, closed>>
                        /\ \A i \in DOMAIN e.rcs : e.rcs[i] \in (IF e.confirm THEN Confirms(ls, e.t, {}, {}) ELSE {OK})
    (* the processes of some listeners are stopped while the messages are sent, and go on later *)
    [] e.op = "stall" -> /\ Heard(e, ls, e.t, e.ids, {}, {}) /\ UNCHANGED <<ls, closed>>
                         /\ \A i \in DOMAIN e.rcs : e.rcs[i] = (CASE ~e.confirm -> OK [] On(ls, e.t) = {} -> NODEST [] \A x \in On(ls, e.t) : Proc(x.k) = e.p -> FAILED [] OTHER -> OK)
    [] e.op = "race" /\ e.what = "add" -> LET c == {New(e, e.r)} IN
                        /\ e.rc = 0 /\ ls' = ls \cup c /\ UNCHANGED closed /\ Heard(e, ls \cup c, e.t, e.ids, {}, c)
                        /\ \A i \in DOMAIN e.rcs : e.rcs[i] \in (IF e.confirm THEN Confirms(ls \cup c, e.t, {}, c) ELSE {OK})
    [] e.op = "race" -> /\ e.rc = 0 /\ ls' = ls \ Going(e) /\ closed' = (IF e.what = "close" THEN closed \cup {e.r} ELSE closed)
                        /\ Heard(e, ls, e.t, e.ids, Going(e), {})
                        /\ \A i \in DOMAIN e.rcs : e.rcs[i] \in (IF e.confirm THEN Confirms(ls, e.t, Going(e), {}) ELSE {OK})
    [] e.op = "close" -> Quiet(e) /\ e.rc = 0 /\ ls' = ls \ Of(ls, e.k) /\ closed' = closed \cup {e.k}
    [] e.op = "open" -> Quiet(e) /\ e.rc = 0 /\ UNCHANGED ls /\ closed' = closed \ {e.k}
    [] e.op = "again" -> Quiet(e) /\ ls' = {x \in ls : Proc(x.k) # e.p} /\ closed' = {k \in closed : Proc(k) # e.p}
    [] OTHER -> FALSE
TInit == ls = {} /\ closed = {} /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ \/ Step(ev)
            \/ ~ENABLED Step(ev) /\ PrintT(<<"MISMATCH", t, l, ls>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
