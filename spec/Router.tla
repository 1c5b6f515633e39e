------------------------------- MODULE Router -------------------------------
(* The routing daemon as its clients see it (rtrouted.c, rtRoutingTree.c).

   A client opens a connection and adds *routes*: a route has an id chosen by the client, a name
   (a listener, a component, or an inbox) and a list of topics.  Adding a name under a route id
   that the client does not use yet creates a route; under an id in use it adds the name as a
   further topic ("data element") of that route, which is exclusive.  Every topic is a path of
   tokens.  A path token "{i}" stands for any row of a table.

   One action per message the daemon handles (the daemon is single threaded, so each is atomic),
   plus Connect and Close.  Every action is a function of the state and its arguments; what the
   clients receive because of it is `out`, and what the daemon answers is `ans`.                *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Client          \* the clients that may connect

VARIABLES up,             \* clients connected now
          routes,         \* Seq of [cl, rid, name, topics], oldest first
          inbox,          \* client -> its first inbox name, "" if none yet
          out,            \* set of [to, ctl, topic, flags, seq, reply, body] delivered by the last step
          ans             \* the daemon's answer to the last request (a record), NoAns if none

vars == <<up, routes, inbox, out, ans>>

OK == 0   INVALIDARG == 3   INVALIDEXPR == 12   DUPLICATE == 1001   PROTOCOL == 1003
REQ == 1  RSP == 2  UNDELIV == 4  RAW == 16
ConnectEv == 0   DisconnectEv == 1
NoAns == [none |-> TRUE]
Curly == "{i}"
AdvisoryPath == <<"_RTROUTED", "ADVISORY">>

-----------------------------------------------------------------------------
(* The name space.  A node exists exactly if it is a prefix of a registered topic. *)
TopicsOf(rs) == UNION {ToSet(r.topics) : r \in ToSet(rs)}
Below(rs, p) == {q \in TopicsOf(rs) : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p}
Children(rs, p) == {q[Len(p) + 1] : q \in Below(rs, p)}
IsTable(rs, p) == Curly \in Children(rs, p)

(* Where looking up a path ends: rows resolve to the table's placeholder. <<"none">> is returned
   inside a record so that it cannot be confused with a path. *)
RECURSIVE WalkFrom(_, _, _, _)
WalkFrom(rs, p, i, at) ==
  IF i > Len(p) THEN [found |-> TRUE, node |-> at]
  ELSE LET ch == Children(rs, at) IN
       IF p[i] \in ch THEN WalkFrom(rs, p, i + 1, Append(at, p[i]))
       ELSE IF Curly \in ch THEN WalkFrom(rs, p, i + 1, Append(at, Curly))
       ELSE [found |-> FALSE, node |-> at]
Walk(rs, p) == WalkFrom(rs, p, 1, <<>>)

(* Names that may not be registered next to what is there: a plain sibling of "{i}", or "{i}"
   next to plain children. *)
RECURSIVE ConflictFrom(_, _, _)
ConflictFrom(rs, p, i) ==
  IF i > Len(p) THEN FALSE
  ELSE LET ch == Children(rs, SubSeq(p, 1, i - 1)) IN
       \/ (Curly \in ch /\ p[i] # Curly)
       \/ (p[i] = Curly /\ ch # {} /\ Curly \notin ch)
       \/ ConflictFrom(rs, p, i + 1)
Conflict(rs, p) == ConflictFrom(rs, p, 1)

RoutesAt(rs, node)    == {k \in DOMAIN rs : node \in ToSet(rs[k].topics)}
RoutesBelow(rs, node) == {k \in DOMAIN rs : \E q \in ToSet(rs[k].topics) :
                             Len(q) > Len(node) /\ SubSeq(q, 1, Len(node)) = node}

(* n is a name: [s |-> the string, p |-> its tokens, dot |-> ends in "."] *)
Receivers(rs, n) ==
  LET w == Walk(rs, n.p) IN
  IF ~w.found \/ n.p = <<>> THEN {}
  ELSE IF n.dot THEN RoutesBelow(rs, w.node)
  ELSE IF IsTable(rs, w.node) THEN RoutesAt(rs, Append(w.node, Curly))
  ELSE RoutesAt(rs, w.node)

Msg(rs, k, topic, flags, seq, reply, body) ==
  [to |-> rs[k].cl, ctl |-> rs[k].rid, topic |-> topic, flags |-> flags, seq |-> seq, reply |-> reply, body |-> body]

(* the daemon's own answers go wherever the reply topic leads *)
Answer(rs, reply, topic, seq) ==
  {Msg(rs, k, reply.s, RSP, seq, topic, "") : k \in Receivers(rs, reply)}

AdvisoryName == [s |-> "_RTROUTED.ADVISORY", p |-> AdvisoryPath, dot |-> FALSE]
Advise(rs, ev, who, box) ==
  {Msg(rs, k, AdvisoryName.s, 0, 0, "", ToString(ev) \o ":" \o box) :
      k \in {j \in Receivers(rs, AdvisoryName) : rs[j].cl # who}}

-----------------------------------------------------------------------------
Init == /\ up = {} /\ routes = <<>> /\ inbox = [c \in Client |-> ""]
        /\ out = {} /\ ans = NoAns

Connect(c) ==
  /\ c \notin up
  /\ up' = up \cup {c} /\ out' = {} /\ ans' = NoAns
  /\ UNCHANGED <<routes, inbox>>

OwnRoute(c, rid) == {k \in DOMAIN routes : routes[k].cl = c /\ routes[k].rid = rid}

(* What registering n under route id rid does: the result code and the routes afterwards.
   bad: "" for a well-formed name, "arg" if over-long or unprintable, "expr" if it has empty
   tokens or too many of them. *)
SubResult(c, rid, n, bad) ==
  LET own == OwnRoute(c, rid) IN
  IF bad = "arg" THEN [rc |-> INVALIDARG, rs |-> routes]
  ELSE IF own # {} THEN                                    \* a data element of an existing route
    LET k == Min(own) IN
    IF bad = "expr" THEN [rc |-> INVALIDEXPR, rs |-> routes]
    ELSE IF Conflict(routes, n.p) THEN [rc |-> PROTOCOL, rs |-> routes]
    ELSE IF RoutesAt(routes, n.p) # {} /\ n.p # AdvisoryPath THEN [rc |-> DUPLICATE, rs |-> routes]
    ELSE [rc |-> OK, rs |-> [routes EXCEPT ![k].topics = IF n.p \in ToSet(@) THEN @ ELSE Append(@, n.p)]]
  ELSE                                                     \* a new route; always acknowledged
    LET tp == IF bad # "" \/ Conflict(routes, n.p) THEN <<>> ELSE <<n.p>> IN
    [rc |-> OK, rs |-> Append(routes, [cl |-> c, rid |-> rid, name |-> n.s, topics |-> tp])]

Sub(c, rid, n, bad, isInbox, seq, reply) ==
  /\ c \in up
  /\ LET r == SubResult(c, rid, n, bad)
         first == isInbox /\ bad # "arg" /\ OwnRoute(c, rid) = {} /\ inbox[c] = ""
     IN /\ routes' = r.rs
        /\ inbox' = IF first THEN [inbox EXCEPT ![c] = n.s] ELSE inbox
        /\ out' = Answer(r.rs, reply, "_RTROUTED.INBOX.SUBSCRIBE", seq)
                    \cup (IF first THEN Advise(r.rs, ConnectEv, c, n.s) ELSE {})
        /\ ans' = [result |-> r.rc]
  /\ UNCHANGED up

(* Unregistering: the client's route of that name with everything registered through it, or else
   the client's data element of that name.  Nothing of anybody else. *)
UnsubRoutes(c, rid, n, bad) ==
  LET named == {k \in DOMAIN routes : routes[k].cl = c /\ routes[k].name = n.s}
      exact == {k \in named : routes[k].rid = rid} IN     \* a client can listen to the same topic several times
  IF bad # "" THEN routes
  ELSE IF exact # {} THEN RemoveAt(routes, Min(exact))
  ELSE IF named # {} THEN RemoveAt(routes, Min(named))
  ELSE LET holds == {k \in DOMAIN routes : routes[k].cl = c /\ routes[k].rid = rid /\ n.p \in ToSet(routes[k].topics)} IN  \* a further name of that registration
       IF holds = {} THEN routes
       ELSE [routes EXCEPT ![Min(holds)].topics = SelectSeq(@, LAMBDA q : q # n.p)]

Unsub(c, rid, n, bad, seq, reply) ==
  /\ c \in up
  /\ routes' = UnsubRoutes(c, rid, n, bad)
  /\ out' = Answer(routes', reply, "_RTROUTED.INBOX.SUBSCRIBE", seq)
  /\ ans' = [result |-> IF bad = "arg" THEN INVALIDARG ELSE OK]
  /\ UNCHANGED <<up, inbox>>

(* An application message.  flags: 0 a publication, REQ a request, RSP a response. *)
Send(c, n, flags, seq, reply, body) ==
  /\ c \in up
  /\ LET to == Receivers(routes, n) IN
     out' = IF to # {} THEN {Msg(routes, k, n.s, flags, seq, reply.s, body) : k \in to}
            ELSE IF flags = REQ THEN {Msg(routes, k, reply.s, RSP + UNDELIV, seq, reply.s, "") : k \in Receivers(routes, reply)}
            ELSE {}
  /\ ans' = NoAns
  /\ UNCHANGED <<up, routes, inbox>>

(* Discovery.  `visible` tells which names are not internal (do not start with "_"). *)
Query(c, kind, n, visible, seq, reply) ==
  /\ c \in up
  /\ ans' = CASE kind = "components" ->
                 [items |-> LET s == SelectSeq(routes, LAMBDA r : r.name \in visible)
                            IN [k \in DOMAIN s |-> s[k].name]]
              [] kind = "destinations" ->
                 LET w == Walk(routes, n.p) IN
                 [set |-> IF w.found /\ n.p # <<>>
                          THEN {Head(routes[k].topics) : k \in RoutesBelow(routes, w.node)} ELSE {}]
              [] kind = "elements" ->
                 LET named == {k \in DOMAIN routes : routes[k].name = n.s} IN
                 [topics |-> IF named = {} THEN <<>> ELSE routes[Min(named)].topics]
              [] kind = "owner" ->
                 [owners |-> LET ks == SetToSortSeq(Receivers(routes, n), <) IN [j \in DOMAIN ks |-> routes[ks[j]].name]]
  /\ out' = Answer(routes, reply,
               CASE kind = "components" -> "_registered_components" [] kind = "destinations" -> "_RTROUTED.INBOX.QUERY"
                 [] kind = "elements" -> "_enumerate_elements" [] kind = "owner" -> "_trace_origin_object", seq)
  /\ UNCHANGED <<up, routes, inbox>>

Without(c) == SelectSeq(routes, LAMBDA r : r.cl # c)

Close(c) ==
  /\ c \in up
  /\ up' = up \ {c}
  /\ routes' = Without(c)
  /\ inbox' = [inbox EXCEPT ![c] = ""]
  /\ out' = Advise(routes, DisconnectEv, c, inbox[c])
  /\ ans' = NoAns

-----------------------------------------------------------------------------
(* Properties of the design *)
RoutesOfConnected == \A r \in ToSet(routes) : r.cl \in up
NoTableSiblings   == \A p \in UNION {{SubSeq(q, 1, k) : k \in 0..Len(q)} : q \in TopicsOf(routes)} :
                        Curly \in Children(routes, p) => Children(routes, p) = {Curly}
(* a data element (any topic of a route but its first) belongs to one route only *)
ElementsExclusive == \A j, k \in DOMAIN routes : j < k =>
                        \A x \in 2..Len(routes[j].topics), y \in 2..Len(routes[k].topics) :
                           routes[j].topics[x] # routes[k].topics[y] \/ routes[j].topics[x] = AdvisoryPath
(* an element name registered now is reachable under exactly its own name *)
Reachable == \A k \in DOMAIN routes : \A q \in ToSet(routes[k].topics) :
                LET w == Walk(routes, q) IN w.found /\ w.node = q
OutOnlyToConnected == \A m \in out : m.to \in up
(* discovery agrees with routing: whoever owns a name beneath p is reached by "p." *)
PartialAgrees == \A k \in DOMAIN routes : \A q \in ToSet(routes[k].topics) :
                    Len(q) > 1 => k \in Receivers(routes, [s |-> "", p |-> SubSeq(q, 1, Len(q) - 1), dot |-> TRUE])
(* one step never withdraws or changes a topic of another client *)
OthersUntouched == [][\A c \in Client : (c \in up /\ c \in up') =>
                        \/ SelectSeq(routes, LAMBDA r : r.cl = c) = SelectSeq(routes', LAMBDA r : r.cl = c)
                        \/ \A d \in Client \ {c} : SelectSeq(routes, LAMBDA r : r.cl = d) = SelectSeq(routes', LAMBDA r : r.cl = d)]_vars
=============================================================================
