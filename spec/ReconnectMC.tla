---------------------------- MODULE ReconnectMC -----------------------------
(* How a connection that was lost is made anew, as built: a reader thread and senders notice the loss independently; the first of them
   reconnects and adds back all listeners, the others wait or find that it has been done. Counted = FALSE stands for the library as it was:
   whoever came later than the last reconnection began replaced it. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Senders, Losses, Sends, Ids, Counted
VARIABLES gen, up, readfd, readgen, busy, pc, mine, sends, losses, ls, reg, chg, replaced
vars == <<gen, up, readfd, readgen, busy, pc, mine, sends, losses, ls, reg, chg, replaced>>
P == Senders \cup {"reader"}
None == [k |-> "none", i |-> 0]
Gens == 0..(Losses + Sends * Cardinality(Senders) + 3)
Init == /\ gen = 0 /\ up = TRUE /\ readfd = 0 /\ readgen = 0 /\ busy = FALSE /\ pc = [p \in P |-> IF p = "reader" THEN "read" ELSE "idle"] /\ mine = [p \in P |-> 0]
        /\ sends = [p \in Senders |-> Sends] /\ losses = Losses /\ ls = {} /\ reg = {} /\ chg = [p \in Senders |-> None] /\ replaced = FALSE
(* the daemon goes away: what it knew is gone *)
Lose == up /\ losses > 0 /\ up' = FALSE /\ losses' = losses - 1 /\ reg' = {} /\ UNCHANGED <<gen, readfd, readgen, busy, pc, mine, sends, ls, chg, replaced>>
(* a sender changes the table of listeners, or has just a message to send *)
Begin(p) == /\ pc[p] = "idle" /\ sends[p] > 0 /\ sends' = [sends EXCEPT ![p] = @ - 1] /\ pc' = [pc EXCEPT ![p] = "send"]
            /\ \E c \in {None} \cup {[k |-> "add", i |-> i] : i \in Ids \ ls} \cup {[k |-> "rm", i |-> i] : i \in ls} :
                 /\ \A q \in Senders \ {p} : chg[q].i # c.i \/ c.i = 0
                 /\ chg' = [chg EXCEPT ![p] = c]
                 /\ ls' = (IF c.k = "add" THEN ls \cup {c.i} ELSE IF c.k = "rm" THEN ls \ {c.i} ELSE ls)
            /\ UNCHANGED <<gen, up, readfd, readgen, busy, mine, losses, reg, replaced>>
Send(p) == /\ pc[p] = "send" /\ mine' = [mine EXCEPT ![p] = gen]
           /\ IF up THEN /\ pc' = [pc EXCEPT ![p] = "idle"] /\ chg' = [chg EXCEPT ![p] = None]
                         /\ reg' = (IF chg[p].k = "add" THEN reg \cup {chg[p].i} ELSE IF chg[p].k = "rm" THEN reg \ {chg[p].i} ELSE reg)
                    ELSE pc' = [pc EXCEPT ![p] = "lost"] /\ UNCHANGED <<reg, chg>>
           /\ UNCHANGED <<gen, up, readfd, readgen, busy, sends, losses, ls, replaced>>
(* the reader notices the loss of the connection it reads from: the current one, or one replaced since *)
Read == /\ pc["reader"] = "read" /\ (readfd # gen \/ ~up) /\ readfd # -1
        /\ (readfd = gen \/ Counted) \* the socket was closed under it: it waits for ever
        /\ pc' = [pc EXCEPT !["reader"] = "lost"] /\ mine' = [mine EXCEPT !["reader"] = readgen]
        /\ UNCHANGED <<gen, up, readfd, readgen, busy, sends, losses, ls, reg, chg, replaced>>
Again(p) == IF p = "reader" THEN "enter" ELSE "send"
Decide(p) == /\ pc[p] = "lost"
             /\ IF busy THEN pc' = [pc EXCEPT ![p] = "waits"] /\ UNCHANGED busy
                ELSE IF ~Counted \/ gen = mine[p] THEN pc' = [pc EXCEPT ![p] = "connects"] /\ busy' = TRUE
                ELSE pc' = [pc EXCEPT ![p] = Again(p)] /\ UNCHANGED busy
             /\ UNCHANGED <<gen, up, readfd, readgen, mine, sends, losses, ls, reg, chg, replaced>>
Waited(p) == pc[p] = "waits" /\ ~busy /\ pc' = [pc EXCEPT ![p] = Again(p)] /\ UNCHANGED <<gen, up, readfd, readgen, busy, mine, sends, losses, ls, reg, chg, replaced>>
(* the new socket takes the place of the old one and the listeners are added back, with the mutex held *)
Connect(p) == /\ pc[p] = "connects" /\ gen < Losses + Sends * Cardinality(Senders) + 3 /\ gen' = gen + 1 /\ up' = TRUE /\ busy' = FALSE /\ reg' = ls /\ replaced' = (replaced \/ up)
              /\ pc' = [pc EXCEPT ![p] = Again(p)] /\ UNCHANGED <<readfd, readgen, mine, sends, losses, ls, chg>>
Enter == pc["reader"] = "enter" /\ readfd' = gen /\ readgen' = gen /\ pc' = [pc EXCEPT !["reader"] = "read"] /\ UNCHANGED <<gen, up, busy, mine, sends, losses, ls, reg, chg, replaced>>
Next == Lose \/ Read \/ Enter \/ (\E p \in Senders : Begin(p) \/ Send(p)) \/ \E p \in P : Decide(p) \/ Waited(p) \/ Connect(p)
Fair == WF_vars(Read) /\ WF_vars(Enter) /\ (\A p \in Senders : WF_vars(Send(p))) /\ \A p \in P : WF_vars(Decide(p)) /\ WF_vars(Waited(p)) /\ WF_vars(Connect(p))
Spec == Init /\ [][Next]_vars /\ Fair
(* a connection that works is never given up *)
NotReplaced == ~replaced
(* when nothing is under way, the daemon knows exactly the listeners there are *)
Quiet == up /\ \A p \in Senders : pc[p] = "idle"
Registered == Quiet /\ ~busy => reg = ls
(* the reader comes to read from the connection there is, and every sender gets on *)
Reads == <>[](up /\ readfd = gen /\ pc["reader"] = "read")
GetsOn == \A p \in Senders : pc[p] # "idle" ~> pc[p] = "idle"
=============================================================================
