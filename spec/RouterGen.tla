----------------------------- MODULE RouterGen -----------------------------
(* Generator: random behaviours of Router, written out for replay against the real daemon. *)
EXTENDS Router, Json, IOUtils
CONSTANTS Depth, Profile
VARIABLE hist
gvars == <<up, routes, inbox, out, ans, hist>>
N(s, p) == [s |-> s, p |-> p, dot |-> FALSE]
D(s, p) == [s |-> s, p |-> p, dot |-> TRUE]
C == Curly
GClient == {"c1", "c2", "c3", "c4"}
Box(c) == N("_box." \o c, <<"_box", c>>)
Comps  == {N("compA", <<"compA">>), N("compB", <<"compB">>), N("comp", <<"comp">>), N("A", <<"A">>)}
Elems  == {N("A.B", <<"A", "B">>), N("A.B.C", <<"A", "B", "C">>), N("A.B.D", <<"A", "B", "D">>), N("A.E", <<"A", "E">>),
           N("A", <<"A">>), D("T.{i}.", <<"T", C>>), N("T.{i}.x", <<"T", C, "x">>), N("T.{i}.y", <<"T", C, "y">>),
           D("T.{i}.U.{i}.", <<"T", C, "U", C>>), N("T.{i}.U.{i}.z", <<"T", C, "U", C, "z">>), N("T.{i}.q()", <<"T", C, "q()">>),
           N("T.p", <<"T", "p">>), D("A.{i}.", <<"A", C>>), N("Ev!", <<"Ev!">>), N("W", <<"W">>)}
Extra  == {N("T.1.x", <<"T", "1", "x">>), N("T.12.y", <<"T", "12", "y">>), N("T.40961.x", <<"T", "40961", "x">>), N("T.[al].x", <<"T", "[al]", "x">>), N("T.*.x", <<"T", "*", "x">>),
           N("T.1.U.2.z", <<"T", "1", "U", "2", "z">>), N("T.*.U.*.z", <<"T", "*", "U", "*", "z">>), N("T.1.q()", <<"T", "1", "q()">>),
           N("T", <<"T">>), N("T.1", <<"T", "1">>), D("T.", <<"T">>), D("T.1.", <<"T", "1">>), D("T.1.U.", <<"T", "1", "U">>), N("T.3.U", <<"T", "3", "U">>),
           D("A.", <<"A">>), D("A.B.", <<"A", "B">>), N("Nowhere", <<"Nowhere">>), N("A.B.C.D", <<"A", "B", "C", "D">>), N("A.X", <<"A", "X">>),
           D("compA.", <<"compA">>), N("compA", <<"compA">>), N("compB", <<"compB">>), N("A.{i}", <<"A", C>>), N("Ab", <<"Ab">>), D("", <<>>),
           N("MANY", <<"MANY">>), N("A.WIDE", <<"A", "WIDE">>)}
BadNames == {[n |-> N("A..B", <<"A">>), bad |-> "expr"], [n |-> N("LONG", <<"LONG">>), bad |-> "arg"],
             [n |-> N("DEEP", <<"DEEP">>), bad |-> "expr"], [n |-> N("CTRL", <<"CTRL">>), bad |-> "arg"]}
InboxOf(c) == N(c \o ".INBOX.7", <<c, "INBOX", "7">>)
Boxes == {Box(c) : c \in GClient}
Rids == 1..3
Visible == {n.s : n \in Comps \cup Elems} \cup {InboxOf(c).s : c \in GClient} \cup {"A..B", "DEEP"}
R(S) == RandomElement(S)
Ev(r) == hist' = Append(hist, r)
Seq_ == Len(hist) + 1
Base(c) == [op |-> "x", c |-> c, seq |-> Seq_, reply |-> Box(c)]
DoConnect(c) == Connect(c) /\ Ev([op |-> "connect", c |-> c])
DoSub(c, r, n, bad, ib) == Sub(c, r, n, bad, ib, Seq_, Box(c)) /\ Ev([op |-> "sub", c |-> c, rid |-> r, n |-> n, bad |-> bad, isInbox |-> ib, seq |-> Seq_, reply |-> Box(c)])
DoUnsub(c, n, bad) == \E rid \in {R({0, 0} \cup {routes[k].rid : k \in {j \in DOMAIN routes : routes[j].cl = c /\ (routes[j].name = n.s \/ n.p \in {routes[j].topics[i] : i \in DOMAIN routes[j].topics} \/ R(1..4) = 1)}})} :
  Unsub(c, rid, n, bad, Seq_, Box(c)) /\ Ev([op |-> "unsub", c |-> c, rid |-> rid, n |-> n, bad |-> bad, seq |-> Seq_, reply |-> Box(c)])
DoSend(c, n, f, rep) == Send(c, n, f, Seq_, rep, ToString(Seq_)) /\ Ev([op |-> "send", c |-> c, n |-> n, flags |-> f, seq |-> Seq_, reply |-> rep, body |-> ToString(Seq_)])
DoQuery(c, k, n) == Query(c, k, n, Visible, Seq_, Box(c)) /\ Ev([op |-> "query", c |-> c, kind |-> k, n |-> n, visible |-> SetToSeq(Visible), seq |-> Seq_, reply |-> Box(c)])
(* the connection may end at any point of a message the client was sending (cut: bytes of it that were sent) *)
DoClose(c) == Close(c) /\ Ev([op |-> "close", c |-> c, cut |-> IF R(1..3) = 1 THEN 0 ELSE R(1..200)])
(* a client first registers its reply box and one component route *)
NeedBox == {c \in up : ~\E r \in ToSet(routes) : r.cl = c /\ r.rid = 9000}
NeedComp == {c \in up : OwnRoute(c, 1) = {}}
Registered == {q \in UNION {ToSet(r.topics) : r \in ToSet(routes)} : q[1] # "_box"}
Known == {n \in Elems \cup Comps : n.p \in Registered}
(* prefer names that are, or are close to, registered ones *)
PickTarget == IF Known # {} /\ R(1..3) = 1 THEN R(Known) ELSE R(Extra \cup Elems)
(* per cent: subscribe, bad name, inbox, advisory, unsubscribe, close, request, publish, respond, owner, destinations, elements, components *)
Weights == CASE Profile = "crash" -> <<26, 2, 6, 5, 5, 12, 20, 6, 3, 6, 3, 4, 2>>
             [] Profile = "own"   -> <<38, 2, 2, 1, 16, 5, 22, 4, 2, 4, 1, 2, 1>>
             [] Profile = "query" -> <<28, 2, 3, 1, 8, 4, 4, 2, 1, 20, 12, 10, 5>>
             [] OTHER             -> <<30, 3, 3, 2, 6, 4, 21, 8, 4, 8, 4, 5, 2>>
RECURSIVE Pick(_, _)
Pick(k, i) == IF k <= Weights[i] \/ i = Len(Weights) THEN i ELSE Pick(k - Weights[i], i + 1)
Weighted ==
  \E k \in {Pick(R(1..100), 1)} : \E c \in {R(up)} :
    CASE k = 1 -> \E r \in {R(Rids)}, n \in {IF R(1..6) = 1 THEN R(Comps) ELSE R(Elems)} : DoSub(c, r, n, "", FALSE)
      [] k = 2 -> \E b \in {R(BadNames)} : OwnRoute(c, 1) # {} /\ DoSub(c, 1, b.n, b.bad, FALSE)
      [] k = 3 -> DoSub(c, 5, InboxOf(c), "", TRUE)
      [] k = 4 -> DoSub(c, R({6, 7}), AdvisoryName, "", FALSE)
      [] k = 5 -> \E n \in {IF R(1..3) = 1 THEN R(Elems \cup Comps) ELSE PickTarget} : DoUnsub(c, n, "")
      [] k = 6 -> IF up # {c} THEN DoClose(c) ELSE DoQuery(c, "components", N("", <<>>))
      [] k = 7 -> \E n \in {PickTarget} : DoSend(c, n, REQ, Box(c))
      [] k = 8 -> \E n \in {PickTarget} : DoSend(c, n, 0, N("", <<>>))
      [] k = 9 -> \E d \in {R(GClient)} : DoSend(c, Box(d), RSP, Box(c))
      [] k = 10 -> \E n \in {PickTarget} : DoQuery(c, "owner", n)
      [] k = 11 -> \E n \in {PickTarget} : DoQuery(c, "destinations", n)
      [] k = 12 -> \E n \in {R(Comps \cup {InboxOf(c)})} : DoQuery(c, "elements", n)
      [] OTHER -> DoQuery(c, "components", N("", <<>>))
GNext ==
  /\ Len(hist) < Depth
  /\ IF NeedBox # {} THEN \E c \in {CHOOSE x \in NeedBox : TRUE} : DoSub(c, 9000, Box(c), "", FALSE)
     ELSE IF up # GClient /\ (Cardinality(up) < 2 \/ R(1..6) = 1) THEN \E c \in {R(GClient \ up)} : DoConnect(c)
     ELSE IF NeedComp # {} /\ R(1..2) = 1 THEN \E c \in {R(NeedComp)}, n \in {R(Comps)} : DoSub(c, 1, n, "", FALSE)
     ELSE Weighted
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) = Depth => JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
