---------------------------- MODULE HandlesTrace ---------------------------
EXTENDS TraceBase, Handles
VARIABLES t, l, H, M, ghosts, out
tvars == <<t, l, H, M, ghosts, out>>
ev == Traces[t][l]
Drop(S) == {m \in M : m.s \notin S}
The(S) == CHOOSE x \in S : TRUE
(* a get: [x, rc, p, h]: whose process answered, of which handle's handler *)
Got(g, MM) == IF Owner(MM, g.x) = {} THEN g.rc # OK ELSE g.rc = OK /\ g.h = The(Owner(MM, g.x)).s /\ g.tag = The(Owner(MM, g.x)).tag
(* what was heard: sequences of [h, tag, x, n] by process *)
By(q, m) == SelectSeq(q, LAMBDA g : g.tag = m.tag)
Is(q, m, n) == Len(q) = n /\ \A i \in 1..n : q[i] = [h |-> m.s, tag |-> m.tag, x |-> m.x, n |-> i]
Upto(q, m, n) == \E j \in 0..n : Is(q, m, j)
(* things of kind k named x, of which n were sent: all that hear are given them, those in S perhaps not all *)
Heard(got, k, x, n, S) ==
  LET L == Hearing(M, k, x) IN
  /\ \A m \in L : IF m.s \in S THEN Upto(By(got, m), m, n) ELSE Is(By(got, m), m, n)
  /\ \A i \in DOMAIN got : \E m \in L : m.tag = got[i].tag
Told(e, k, x) == (Hearing(M, k, x) # {}) = (e = OK) /\ e \in {OK, 23}
Step0(e) ==
  CASE e.op = "open" -> LET p == Proc(e.s)  S == {h.s : h \in Named(H, p, e.c)} IN
         /\ e.rc = OK /\ H' = {h \in H : h.s \notin S} \cup {[s |-> e.s, c |-> e.c]} /\ M' = Drop(S) /\ UNCHANGED ghosts
    [] e.op = "close" -> e.rc = OK /\ H' = {h \in H : h.s # e.s} /\ M' = Drop({e.s}) /\ UNCHANGED ghosts
    [] e.op = "make" ->
         LET m == [s |-> e.s, k |-> e.k, x |-> e.x, tag |-> e.tag]
             dup == CASE e.k = "el" -> Owner(M, e.x) # {} [] OTHER -> Hearing(Made(M, e.s), e.k, e.x) # {} IN
         IF dup THEN e.rc # OK /\ UNCHANGED <<H, M, ghosts>> ELSE e.rc = OK /\ M' = M \cup {m} /\ UNCHANGED <<H, ghosts>>
    [] e.op = "undo" -> LET m == {z \in M : z.s = e.s /\ z.k = e.k /\ z.x = e.x} IN
         M' = M \ m /\ UNCHANGED <<H, ghosts>> /\ (m # {} => e.rc = OK) /\ (m = {} /\ e.k # "el" => e.rc # OK)
    [] e.op = "get" -> Got(e.got, M) /\ UNCHANGED <<H, M, ghosts>>
    [] e.op = "probe" -> /\ \A i \in DOMAIN e.gets : Got(e.gets[i], M)
                         /\ \A i \in DOMAIN e.heard : Heard(e.heard[i].got, e.heard[i].k, e.heard[i].x, 1, {})
                         /\ \A i \in DOMAIN e.heard : e.heard[i].k = "sub" /\ e.heard[i].x \notin ghosts => Told(e.heard[i].rc, "sub", e.heard[i].x)
                         /\ UNCHANGED <<H, M, ghosts>>
    [] e.op = "use" -> e.rc = NOHANDLE /\ UNCHANGED <<H, M, ghosts>>
    (* what handles publish by themselves: the one watching is told of each value once, or at intervals; of nothing that was withdrawn *)
    [] e.op = "watch" -> e.rc = OK /\ M' = M \cup {[s |-> e.s, k |-> "watch", x |-> e.x, tag |-> e.tag]} /\ UNCHANGED <<H, ghosts>>
    [] e.op = "look" -> /\ {[x |-> e.seen[i].x, n |-> e.seen[i].n] : i \in DOMAIN e.seen} = {[x |-> m.x, n |-> e.n] : m \in Kind(M, "watch")}
                        /\ Len(e.seen) = Cardinality(Kind(M, "watch")) /\ UNCHANGED <<H, M, ghosts>>
    (* s is closed (or opened again under the same name) while gets, events and messages arrive *)
    [] e.op = "race" -> /\ e.rc = OK /\ e.late = 0
                        /\ \A i \in DOMAIN e.gets : \/ Got(e.gets[i], M)
                                                    \/ e.gets[i].rc # OK /\ Owner(Made(M, e.s), e.gets[i].x) # {}
                        /\ Heard(e.events, "sub", e.ev, e.n, {e.s}) /\ Heard(e.msgs, "msg", e.t, e.n, {e.s})
                        /\ M' = Drop({e.s}) /\ H' = (IF e.again THEN H ELSE {h \in H : h.s # e.s}) /\ UNCHANGED ghosts
    (* nothing is told of the end of a consumer's process here (see E04) *)
    [] e.op = "kill" -> /\ H' = {h \in H : Proc(h.s) # e.p} /\ M' = {m \in M : Proc(m.s) # e.p}
                        /\ ghosts' = ghosts \cup {m.x : m \in {z \in M : z.k = "sub" /\ Proc(z.s) = e.p}}
    [] OTHER -> FALSE
(* the providers of the events may go: what is subscribed to there can be withdrawn all the same *)
Step(e) == IF e.op = "away" THEN e.rc = OK /\ out' = out \cup {e.x} /\ UNCHANGED <<H, M, ghosts>> ELSE Step0(e) /\ UNCHANGED out
TInit == H = {} /\ M = {} /\ ghosts = {} /\ out = {} /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ \/ Step(ev)
            \/ ~ENABLED Step(ev) /\ PrintT(<<"MISMATCH", t, l, H, M>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
