----------------------------- MODULE MessagesMC -----------------------------
(* Topic messages as built: each client has a table of listeners of its own; adding is confirmed by the daemon, removing is not; *)
(* the daemon keeps routes and sends one copy per route, which the client gives to the listener if it still has it.  Messages of one *)
(* sender, which may ask for confirmation: the first listener to get one answers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Clients, Sender, Listeners, Owner, N, Confirm
VARIABLES table, routes, up, down, handled, sent, conf, had, late
vars == <<table, routes, up, down, handled, sent, conf, had, late>>
Init == /\ table = [l \in Listeners |-> "no"] /\ routes = {} /\ up = [c \in Clients |-> <<>>] /\ down = [c \in Clients |-> <<>>]
        /\ handled = [l \in Listeners |-> <<>>] /\ sent = 0 /\ conf = [m \in 1..N |-> "none"] /\ had = [m \in 1..N |-> {}] /\ late = {}
Put(q, c, x) == [q EXCEPT ![c] = Append(@, x)]
M(k, m, l) == [k |-> k, m |-> m, l |-> l]
NoL == CHOOSE l \in Listeners : TRUE
Add(l) == table[l] = "no" /\ table' = [table EXCEPT ![l] = "adding"] /\ up' = Put(up, Owner[l], M("add", 0, l)) /\ UNCHANGED <<routes, down, handled, sent, conf, had, late>>
Remove(l) == table[l] = "on" /\ table' = [table EXCEPT ![l] = "off"] /\ up' = Put(up, Owner[l], M("rem", 0, l)) /\ UNCHANGED <<routes, down, handled, sent, conf, had, late>>
Send == /\ sent < N /\ (Confirm => \A m \in 1..N : conf[m] # "wait")
        /\ sent' = sent + 1 /\ up' = Put(up, Sender, M("msg", sent + 1, NoL))
        /\ conf' = [conf EXCEPT ![sent + 1] = IF Confirm THEN "wait" ELSE "none"]
        /\ had' = [had EXCEPT ![sent + 1] = {l \in Listeners : table[l] = "on"}]
        /\ UNCHANGED <<table, routes, down, handled, late>>
Daemon(c) ==
  /\ up[c] # <<>>
  /\ LET x == Head(up[c]) IN
     /\ up' = [up EXCEPT ![c] = Tail(@)]
     /\ CASE x.k = "add" -> routes' = routes \cup {x.l} /\ down' = Put(down, c, M("ack", 0, x.l))
          [] x.k = "rem" -> routes' = routes \ {x.l} /\ UNCHANGED down
          [] x.k = "resp" -> UNCHANGED routes /\ down' = Put(down, Sender, M("ok", x.m, NoL))
          [] x.k = "msg" -> /\ UNCHANGED routes
                            /\ \E f \in [1..Cardinality(routes) -> routes] :     \* in any order
                                 /\ {f[i] : i \in DOMAIN f} = routes
                                 /\ LET For(d) == SelectSeq([i \in DOMAIN f |-> M("msg", x.m, f[i])], LAMBDA y : Owner[y.l] = d)
                                    IN down' = [d \in Clients |-> down[d] \o For(d) \o (IF routes = {} /\ Confirm /\ d = Sender THEN <<M("nodest", x.m, NoL)>> ELSE <<>>)]
     /\ UNCHANGED <<table, handled, sent, conf, had, late>>
Client(c) ==
  /\ down[c] # <<>>
  /\ LET x == Head(down[c]) IN
     /\ down' = [down EXCEPT ![c] = Tail(@)]
     /\ CASE x.k = "ack" -> table' = [table EXCEPT ![x.l] = "on"] /\ UNCHANGED <<up, handled, conf, late>>
          [] x.k = "msg" /\ table[x.l] \in {"adding", "on"} ->
               handled' = [handled EXCEPT ![x.l] = Append(@, x.m)] /\ up' = (IF Confirm THEN Put(up, c, M("resp", x.m, NoL)) ELSE up) /\ UNCHANGED <<table, conf, late>>
          [] x.k = "msg" -> late' = late \cup {x.m} /\ UNCHANGED <<table, up, handled, conf>>
          [] OTHER -> conf' = [conf EXCEPT ![x.m] = IF @ = "wait" THEN x.k ELSE @] /\ UNCHANGED <<table, up, handled, late>>
     /\ UNCHANGED <<routes, sent, had>>
InFlight(m) == \E c \in Clients : (\E i \in DOMAIN up[c] : up[c][i].m = m) \/ (\E i \in DOMAIN down[c] : down[c][i].m = m)
Timeout(m) == conf[m] = "wait" /\ ~InFlight(m) /\ conf' = [conf EXCEPT ![m] = "timeout"] /\ UNCHANGED <<table, routes, up, down, handled, sent, had, late>>
Next == (\E l \in Listeners : Add(l) \/ Remove(l)) \/ Send \/ (\E c \in Clients : Daemon(c) \/ Client(c)) \/ \E m \in 1..N : Timeout(m)
Spec == Init /\ [][Next]_vars /\ \A c \in Clients : WF_vars(Daemon(c)) /\ WF_vars(Client(c)) /\ \A m \in 1..N : WF_vars(Timeout(m))

Rising(q) == \A i, j \in DOMAIN q : i < j => q[i] < q[j]
InOrderOnce == \A l \in Listeners : Rising(handled[l])
Still == \A c \in Clients : up[c] = <<>> /\ down[c] = <<>>
Has(l, m) == \E i \in DOMAIN handled[l] : handled[l][i] = m
Delivered == Still => \A m \in 1..sent : \A l \in had[m] : table[l] = "on" => Has(l, m)
(* no gaps: a listener hears all of a stretch of messages *)
NoGaps == \A l \in Listeners : \A i \in DOMAIN handled[l] : i > 1 => handled[l][i] = handled[l][i - 1] + 1
NotRemoved == [][\A l \in Listeners : table[l] = "off" => handled'[l] = handled[l]]_vars
Honest == \A m \in 1..N : /\ conf[m] = "ok" => \E l \in Listeners : Has(l, m)
                          /\ conf[m] = "nodest" => \A l \in had[m] : table[l] = "off"
                          /\ conf[m] = "timeout" => m \in late
Ends == \A m \in 1..N : (conf[m] = "wait") ~> (conf[m] \in {"ok", "nodest", "timeout"})
Own == [l \in {1, 2, 3} |-> IF l = 1 THEN "a" ELSE "b"]
=============================================================================
