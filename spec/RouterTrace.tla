---------------------------- MODULE RouterTrace ----------------------------
(* Recorded runs of the real daemon against Router: every recorded step must be a step of Router
   whose deliveries and answer are exactly those observed. *)
EXTENDS Router, TraceBase
CONSTANT Focus    \* the property whose observations are compared
VARIABLES t, l
tvars == <<up, routes, inbox, out, ans, t, l>>
TClient == UNION {ToSet(Traces[1][1].clients)}
ev == Traces[t][l]
Nm(x) == [s |-> x.s, p |-> x.p, dot |-> x.dot]
Step(e) ==
  CASE e.op = "connect" -> Connect(e.c)
    [] e.op = "sub"     -> Sub(e.c, e.rid, Nm(e.n), e.bad, e.isInbox, e.seq, Nm(e.reply))
    [] e.op = "unsub"   -> Unsub(e.c, e.rid, Nm(e.n), e.bad, e.seq, Nm(e.reply))
    [] e.op = "send"    -> Send(e.c, Nm(e.n), e.flags, e.seq, Nm(e.reply), e.body)
    [] e.op = "query"   -> Query(e.c, e.kind, Nm(e.n), ToSet(e.visible), e.seq, Nm(e.reply))
    [] e.op = "close"   -> Close(e.c)
    [] e.op = "reset"   -> /\ up' = {} /\ routes' = <<>> /\ inbox' = [c \in Client |-> ""] /\ out' = {} /\ ans' = NoAns
    [] OTHER -> FALSE
SameBag(x, y) == Len(x) = Len(y) /\ \A v \in ToSet(x) : Cardinality({k \in DOMAIN x : x[k] = v}) = Cardinality({k \in DOMAIN y : y[k] = v})
(* observed deliveries: no duplicates, same set; observed answer: same fields *)
AnsOK(a, e) ==
  IF "result" \in DOMAIN a THEN e.res.result = a.result
  ELSE IF "items" \in DOMAIN a THEN SameBag(e.res.items, a.items) /\ e.res.count = Len(a.items)
  ELSE IF "set" \in DOMAIN a THEN ToSet(e.res.paths) = a.set /\ Len(e.res.paths) = e.res.count
  ELSE IF "topics" \in DOMAIN a THEN ToSet(e.res.paths) = ToSet(a.topics) /\ Len(e.res.paths) = Len(a.topics) /\ e.res.count = Len(a.topics)
  ELSE IF "owners" \in DOMAIN a THEN e.res.result = OK /\ ToSet(e.res.items) = ToSet(a.owners) /\ Len(e.res.items) = Len(a.owners)
  ELSE TRUE
OutOK == Len(ev.out) = Cardinality(out') /\ ToSet(ev.out) = out'
Closed == \E j \in 1..l : Traces[t][j].op = "close"
Matches == CASE Focus = "R01" -> (ev.op = "send" => OutOK)
             [] Focus = "R02" -> (ev.op \in {"sub", "unsub", "send"} => OutOK) /\ (ev.op \in {"sub", "unsub"} => AnsOK(ans', ev))
             [] Focus = "R03" -> (Closed => OutOK /\ AnsOK(ans', ev))
             [] Focus = "R04" -> (ev.op = "query" => OutOK /\ AnsOK(ans', ev))
             [] OTHER -> OutOK /\ AnsOK(ans', ev)
TInit == Init /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ Step(ev)
         /\ \/ Matches
            \/ PrintT(<<"MISMATCH", t, l, out', ans'>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
