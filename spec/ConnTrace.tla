----------------------------- MODULE ConnTrace ------------------------------
EXTENDS TraceBase, Conn
VARIABLES t, l, ls, pend, used
tvars == <<t, l, ls, pend, used>>
ev == Traces[t][l]
Inbox(tag) == [id |-> 1, t |-> "inbox", tag |-> tag]
Set(q) == {q[i] : i \in DOMAIN q}
Rs(q) == {q[i].r : i \in DOMAIN q}
Strip(q) == [i \in DOMAIN q |-> [tag |-> q[i].tag, n |-> q[i].n]]
(* a default listener that is not set (tag 0) hears nothing *)
Hear(L) == {x \in L : x.tag # 0}
Fine(q) == \A i \in DOMAIN q : q[i].ok /\ q[i].busy = 0
Fresh(q) == /\ \A i \in DOMAIN q : q[i].ok /\ q[i].seq \notin used
            /\ \A i, j \in DOMAIN q : i # j => q[i].seq # q[j].seq
Seqs(q) == {q[i].seq : i \in DOMAIN q}
(* requests that were heard are answered, in order *)
Resp(e, got) == LET R == {e.ms[i].n : i \in {j \in DOMAIN e.ms : e.ms[j].kind = "req"}}
                    want == SelectSeq(got, LAMBDA h : h.n \in R) IN
                /\ Len(e.resp) = Len(want) /\ \A i \in DOMAIN want : e.resp[i].ok /\ e.resp[i].n = want[i].n
New(e) == [id |-> e.id, t |-> e.t, tag |-> e.tag]
Step(e) ==
  /\ e.op # "lost" /\ e.op # "setup failed" /\ e.early = 0
  /\ CASE e.op = "req" -> Fresh(e.frames) /\ used' = used \cup Seqs(e.frames) /\ pend' = pend \cup Rs(e.rs) /\ UNCHANGED ls
       [] e.op = "answer" -> /\ e.strange = 0 /\ Rs(e.ended) = Ended(e.as, pend) /\ Len(e.ended) = Cardinality(Ended(e.as, pend))
                             /\ \A i \in DOMAIN e.ended : e.ended[i].same /\ e.ended[i].res = Outcome(e.as, e.ended[i].r)
                             /\ pend' = pend \ Rs(e.ended) /\ UNCHANGED <<ls, used>>
       [] e.op = "storm" -> /\ Fresh(e.res) /\ \A i \in DOMAIN e.res : e.res[i].same /\ Storms(e.res[i])
                            /\ used' = used \cup Seqs(e.res) /\ UNCHANGED <<ls, pend>>
       [] e.op = "in" -> /\ Fine(e.got) /\ Strip(e.got) = Hears(Hear(ls), e.ms) /\ Resp(e, e.got) /\ e.subs = <<>> /\ UNCHANGED <<ls, pend, used>>
       [] e.op = "race" -> LET c == IF e.what = "add" THEN {New(e)} ELSE With(ls, e.id)
                               all == ls \cup c  h == Hears(Hear(all), e.ms)  g == Strip(e.got)  tag == (CHOOSE x \in c : TRUE).tag IN
                           /\ e.rc = 0 /\ Fine(e.got) /\ Resp(e, e.got)
                           /\ Not(g, tag) = Not(h, tag) /\ (IF e.what = "add" THEN IsSuf(Only(g, tag), Only(h, tag)) ELSE IsPre(Only(g, tag), Only(h, tag)))
                           /\ e.subs = <<Told(IF e.what = "add" THEN 1 ELSE 0, CHOOSE x \in c : TRUE)>>
                           /\ ls' = (IF e.what = "add" THEN all ELSE ls \ c) /\ UNCHANGED <<pend, used>>
       [] e.op = "add" -> e.rc = 0 /\ e.strange = 0 /\ e.subs = <<Told(1, New(e))>> /\ ls' = ls \cup {New(e)} /\ UNCHANGED <<pend, used>>
       [] e.op = "rm" -> LET c == With(ls, e.id) IN
                         /\ e.strange = 0 /\ UNCHANGED <<pend, used>> /\ ls' = ls \ c
                         /\ IF c = {} THEN e.rc # 0 /\ e.subs = <<>> ELSE e.rc = 0 /\ e.subs = <<Told(0, CHOOSE x \in c : TRUE)>>
       [] e.op = "age" -> e.rc = 0 /\ UNCHANGED <<ls, pend, used>> \* messages nobody listens to
       [] e.op = "def" -> e.rc = 0 /\ ls' = (ls \ With(ls, 1)) \cup {Inbox(e.tag)} /\ UNCHANGED <<pend, used>>
       [] e.op = "lose" -> LET c == CASE e.chg = "add" -> {New(e)} [] e.chg = "rm" -> With(ls, e.id) [] OTHER -> {}
                               keep == ls \ c IN
                           /\ e.rc = 0 /\ e.again = 0 /\ Fresh(e.frames)
                           /\ Len(e.ended) = Len(e.during) /\ \A i \in DOMAIN e.ended : e.ended[i].res = OK /\ e.ended[i].same
                           /\ \A i \in DOMAIN e.doomed : Expires(e.doomed[i], 800)
                           /\ Fine(e.got) /\ \E k \in 0..Len(e.ms) : IsPre(Strip(e.got), Hears(Hear(ls), SubSeq(e.ms, 1, k)) \o Hears(Hear(IF e.chg = "add" THEN ls \cup c ELSE keep), SubSeq(e.ms, k + 1, Len(e.ms))))
                           /\ Again(e.subs, keep, c)
                           /\ e.chg = "add" => \E i \in DOMAIN e.subs : e.subs[i] = Told(1, New(e))
                           /\ e.chg = "rm" /\ c # {} => \E i \in DOMAIN e.subs : e.subs[i] = Told(0, CHOOSE x \in c : TRUE) /\ \A j \in i + 1..Len(e.subs) : e.subs[j].id # e.id
                           /\ ls' = (IF e.chg = "add" THEN ls \cup c ELSE keep) /\ used' = used \cup Seqs(e.frames) /\ UNCHANGED pend
       [] e.op = "destroy" -> /\ e.rc = 0 /\ e.strange = 0 /\ Rs(e.ended) = pend \cup Rs(e.rs)
                              /\ \A i \in DOMAIN e.ended : e.ended[i].res = FAILED
                              /\ ls' = {Inbox(0)} /\ pend' = {} /\ used' = {}
       [] OTHER -> FALSE
TInit == ls = {Inbox(0)} /\ pend = {} /\ used = {} /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ \/ Step(ev)
            \/ ~ENABLED Step(ev) /\ PrintT(<<"MISMATCH", t, l, ls, pend>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
