----------------------------- MODULE RouterMC -----------------------------
(* Exhaustive exploration of Router for small constants, and (with other constants) the generator
   of behaviours that are replayed against the real daemon. *)
EXTENDS Router
N(s, p)  == [s |-> s, p |-> p, dot |-> FALSE]
D(s, p)  == [s |-> s, p |-> p, dot |-> TRUE]
Names    == {N("A", <<"A">>), N("A.B", <<"A", "B">>), N("A.B.C", <<"A", "B", "C">>), N("A.{i}.", <<"A", Curly>>)}
Probes   == Names \cup {N("T", <<"T">>), N("T.1.x", <<"T", "1", "x">>), D("A.", <<"A">>), D("T.", <<"T">>), N("Z", <<"Z">>)}
MCClient == {"c1", "c2"}
Rids     == {1, 2}
Box(c)   == N("_box." \o c, <<"_box", c>>)
MCNext == \E c \in Client :
            \/ Connect(c) \/ Close(c)
            \/ \E r \in Rids, n \in Names : Sub(c, r, n, "", n.s = "A", 0, Box(c))
            \/ \E n \in Names, rid \in {0} \cup {routes[k].rid : k \in DOMAIN routes} : Unsub(c, rid, n, "", 0, Box(c))
            \/ \E n \in {N("A", <<"A">>), N("T.1.x", <<"T", "1", "x">>)} : Send(c, n, REQ, 0, Box(c), "b")
            \/ \E n \in {D("A.", <<"A">>)}, k \in {"components", "destinations", "elements", "owner"} : Query(c, k, n, {"A"}, 0, Box(c))
MCSpec == Init /\ [][MCNext]_vars
CONSTANT MaxRoutes, MaxTopics
Bound == Len(routes) <= MaxRoutes /\ Cardinality(TopicsOf(routes)) <= MaxTopics
View  == <<up, routes, inbox>>
(* design-level facts used by the properties, evaluated in every state *)
ProbesAnswered == \A n \in Probes : \A k \in Receivers(routes, n) : routes[k].cl \in up
EndToEnd == \A k \in DOMAIN routes : \A q \in ToSet(routes[k].topics) :
              IF IsTable(routes, q) THEN TRUE ELSE k \in Receivers(routes, N("", q))
=============================================================================
