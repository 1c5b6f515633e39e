-------------------------------- MODULE Conn --------------------------------
(* One connection to the routing daemon: its requests and their outcomes, its listeners and what they hear. *)
EXTENDS Integers, Sequences, FiniteSets
OK == 0  EXPIRED == 1  GONE == 2  FAILED == 3
Slack == 2500 \* ms of accelerated time by which an outcome may be late
(* answers: [k: ok|undeliv|unknown, r]. What ends a request is the first answer to it. *)
Answers(as, r) == SelectSeq(as, LAMBDA a : a.r = r /\ a.k \in {"ok", "undeliv"})
Ended(as, pend) == {r \in pend : Answers(as, r) # <<>>}
Outcome(as, r) == IF Answers(as, r)[1].k = "ok" THEN OK ELSE GONE
Expires(o, to) == o.res = EXPIRED /\ o.el >= to - 1 /\ o.el <= to + Slack
(* an answer that comes around or after the deadline may be too late *)
Storms(o) == CASE o.mode \in {"early", "twice"} -> o.res = OK
               [] o.mode = "undeliv" -> o.res = GONE
               [] o.mode = "never" -> Expires(o, o.to)
               [] o.mode \in {"late", "edge"} -> o.res = OK \/ Expires(o, o.to)
               [] OTHER -> FALSE
(* listeners: [id, t, tag]; what they hear of the messages ms: [id, n] *)
With(L, id) == {x \in L : x.id = id}
RECURSIVE Hears(_, _)
Hears(L, ms) == IF ms = <<>> THEN <<>>
                ELSE LET h == IF With(L, Head(ms).id) = {} THEN <<>> ELSE <<[tag |-> (CHOOSE x \in With(L, Head(ms).id) : TRUE).tag, n |-> Head(ms).n]>> IN h \o Hears(L, Tail(ms))
Not(q, tag) == SelectSeq(q, LAMBDA h : h.tag # tag)
Only(q, tag) == SelectSeq(q, LAMBDA h : h.tag = tag)
IsPre(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
IsSuf(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, Len(q) - Len(p) + 1, Len(q))
(* requests to the daemon: [add, t, id] *)
Told(add, x) == [add |-> add, t |-> x.t, id |-> x.id]
Times(q, m) == Cardinality({i \in DOMAIN q : q[i] = m})
(* after the connection was lost: every listener is announced once, nothing else is; one that is added or removed meanwhile may be announced besides *)
Again(q, L, chg) == /\ \A x \in L : Times(q, Told(1, x)) = 1
                    /\ \A i \in DOMAIN q : \E x \in L \cup chg : q[i].t = x.t /\ q[i].id = x.id /\ (x \in L => q[i].add = 1)
=============================================================================
