-------------------------------- MODULE RPC --------------------------------
(* How a request finds its answer: each caller sends requests carrying a number of its connection's
   own count, the provider runs the handler for each request it receives and answers at once or later
   and in any order, the network delivers messages of one sender in order, and the caller matches an
   arriving answer with the waiting request of that number; a request that waits too long gives up, and
   answers that then arrive (and answers nobody asked for) are dropped.  Refines CallOnce. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Conn, Thread, MaxSeq, Stray   \* Stray: answers with numbers never asked for may arrive
VARIABLES next, wait, reqs, resps, inwork, ran, got
rvars == <<next, wait, reqs, resps, inwork, ran, got>>
(* a request is identified by <<connection, number>>; its right answer is that pair itself *)
RInit == /\ next = [c \in Conn |-> 1] /\ wait = [c \in Conn |-> [t \in Thread |-> 0]]
         /\ reqs = <<>> /\ resps = [c \in Conn |-> <<>>] /\ inwork = {} /\ ran = {} /\ got = [c \in Conn |-> <<>>]
Send(c, t) == /\ wait[c][t] = 0 /\ next[c] <= MaxSeq
              /\ wait' = [wait EXCEPT ![c][t] = next[c]] /\ next' = [next EXCEPT ![c] = @ + 1]
              /\ reqs' = Append(reqs, <<c, next[c]>>)
              /\ UNCHANGED <<resps, inwork, ran, got>>
Serve == /\ reqs # <<>> /\ reqs' = Tail(reqs)
         /\ Head(reqs) \notin ran /\ ran' = ran \cup {Head(reqs)}
         /\ inwork' = inwork \cup {Head(reqs)} /\ UNCHANGED <<next, wait, resps, got>>
Answer == \E r \in inwork : /\ inwork' = inwork \ {r}
                            /\ resps' = [resps EXCEPT ![r[1]] = Append(@, [n |-> r[2], v |-> r])]
                            /\ UNCHANGED <<next, wait, reqs, ran, got>>
Odd == Stray /\ \E c \in Conn, n \in 1..MaxSeq : /\ n >= next[c] /\ Len(resps[c]) < 2
                                                 /\ resps' = [resps EXCEPT ![c] = Append(@, [n |-> n, v |-> <<c, 0>>])]
                                                 /\ UNCHANGED <<next, wait, reqs, inwork, ran, got>>
(* the reader hands an arriving answer to the thread that waits for that number *)
Receive(c) == /\ resps[c] # <<>>
              /\ LET a == Head(resps[c])
                     ts == {t \in Thread : wait[c][t] = a.n} IN
                 /\ resps' = [resps EXCEPT ![c] = Tail(@)]
                 /\ IF ts = {} THEN UNCHANGED <<wait, got>>
                    ELSE /\ wait' = [wait EXCEPT ![c] = [t \in Thread |-> IF t \in ts THEN 0 ELSE @[t]]]
                         /\ got' = [got EXCEPT ![c] = Append(@, <<a.n, a.v>>)]
              /\ UNCHANGED <<next, reqs, inwork, ran>>
GiveUp(c, t) == /\ wait[c][t] # 0
                /\ got' = [got EXCEPT ![c] = Append(@, <<wait[c][t], <<"timeout", wait[c][t]>>>>)]
                /\ wait' = [wait EXCEPT ![c][t] = 0] /\ UNCHANGED <<next, reqs, resps, inwork, ran>>
RNext == Serve \/ Answer \/ Odd \/ \E c \in Conn : Receive(c) \/ \E t \in Thread : Send(c, t) \/ GiveUp(c, t)
RSpec == RInit /\ [][RNext]_rvars
RFair == RSpec /\ WF_rvars(Serve) /\ WF_rvars(Answer) /\ \A c \in Conn : WF_rvars(Receive(c)) /\ \A t \in Thread : WF_rvars(GiveUp(c, t))
(* one waiting thread per number *)
Distinct == \A c \in Conn : \A t, u \in Thread : t # u /\ wait[c][t] # 0 => wait[c][t] # wait[c][u]
(* every request ends at most once, and with its own answer *)
OneOutcome == \A c \in Conn : \A i, j \in DOMAIN got[c] : i # j => got[c][i][1] # got[c][j][1]
OwnAnswer == \A c \in Conn : \A i \in DOMAIN got[c] : got[c][i][2][2] = got[c][i][1] /\ got[c][i][2][1] \in {c, "timeout"}
Waiting(c, n) == \E t \in Thread : wait[c][t] = n
Accounted == \A c \in Conn : \A n \in 1..(next[c] - 1) : Waiting(c, n) # (\E i \in DOMAIN got[c] : got[c][i][1] = n)
Ends == \A c \in Conn : \A t \in Thread : (wait[c][t] # 0) ~> (wait[c][t] = 0)
(* without stray answers (a number used before it was given out would complete a later request) *)
RC == {"c1", "c2"}
RT == {"t1", "t2"}
=============================================================================
