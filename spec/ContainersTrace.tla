--------------------------- MODULE ContainersTrace ---------------------------
(* What the real containers did, against Containers. *)
EXTENDS Containers, TraceBase
VARIABLES t, l
tvars == <<cvars, t, l>>
ev == Traces[t][l]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Empty == [x \in {} |-> 0]
DS(e) == {e.dead[i][2] : i \in DOMAIN e.dead}
(* exactly the elements S were destroyed, each once *)
Died(e, S) == DS(e) = S /\ Len(e.dead) = Cardinality(S)
LSame(e) == /\ e.fwd = ls'.q /\ e.bwd = Rev(ls'.q) /\ e.size = Len(ls'.q) /\ e.ends = 1 /\ e.front = 1
List(e) ==
  CASE e.op = "lnew" -> ls' = [up |-> TRUE, q |-> <<>>, left |-> {}, nulls |-> 0] /\ e.rc = 0 /\ Died(e, {}) /\ LSame(e)
    [] e.op = "lpush" -> Put(IF e.a = 1 THEN Len(ls.q) + 1 ELSE 1, e.b, e.c = 1, e.res) /\ e.rc = 0 /\ Died(e, {}) /\ LSame(e)
    [] e.op = "linsert" -> Put(e.c + e.a, e.b, FALSE, e.res) /\ e.rc = 0 /\ Died(e, {}) /\ LSame(e)
    [] e.op = "lremove" -> Take({e.a}, e.b = 1) /\ e.rc = 0 /\ Died(e, Dead({e.a}, e.b = 1)) /\ LSame(e)
    [] e.op \in {"lremdata", "lremcmp"} ->
         \E H \in {IF e.op = "lremdata" THEN {i \in DOMAIN ls.q : ls.q[i] = e.a} ELSE Hits(ls.q, e.a)} :
           IF H = {} THEN UNCHANGED ls /\ e.rc = 1 /\ Died(e, {}) /\ LSame(e)
           ELSE Take({First(H)}, e.b = 1) /\ e.rc = 0 /\ Died(e, Dead({First(H)}, e.b = 1)) /\ LSame(e)
    [] e.op = "lclear" -> Take(DOMAIN ls.q, e.a = 1) /\ e.rc = 0 /\ Died(e, Dead(DOMAIN ls.q, e.a = 1)) /\ LSame(e)
    [] e.op = "lsweep" -> Take(Hits(ls.q, e.a), e.b = 1) /\ e.rc = 0 /\ Died(e, Dead(Hits(ls.q, e.a), e.b = 1)) /\ e.res = Cardinality(Hits(ls.q, e.a)) /\ LSame(e)
    [] e.op = "lfind" -> UNCHANGED ls /\ e.rc = 0 /\ Died(e, {}) /\ LSame(e) /\ e.res = (IF Hits(ls.q, e.a) = {} THEN 0 ELSE ls.q[First(Hits(ls.q, e.a))])
    [] e.op = "lset" -> ls' = [ls EXCEPT !.q[e.a] = e.b] /\ e.rc = 0 /\ Died(e, {}) /\ LSame(e)
    (* what is left in recycled nodes may be destroyed with the list *)
    [] e.op = "ldestroy" -> /\ ls' = [up |-> FALSE, q |-> <<>>, left |-> {}, nulls |-> 0] /\ e.rc = 0 /\ Len(e.dead) = Cardinality(DS(e))
                            /\ IF e.a = 1 THEN Of(ls.q) \subseteq DS(e) /\ DS(e) \subseteq Of(ls.q) \cup ls.left ELSE DS(e) = {}
    [] OTHER -> FALSE
VSame(e) == e.all = ve'.q /\ e.size = Len(ve'.q) /\ e.beyond = 0
Vec(e) ==
  CASE e.op = "vnew" -> ve' = [up |-> TRUE, q |-> <<>>] /\ e.rc = 0 /\ Died(e, {}) /\ VSame(e)
    [] e.op = "vpush" -> ve' = [ve EXCEPT !.q = Append(@, e.a)] /\ e.rc = 0 /\ Died(e, {}) /\ VSame(e)
    [] e.op \in {"vrm", "vrmcmp"} ->
         \E H \in {IF e.op = "vrm" THEN {i \in DOMAIN ve.q : ve.q[i] = e.a} ELSE Hits(ve.q, e.a)} :
           IF H = {} THEN UNCHANGED ve /\ e.rc = 1 /\ Died(e, {}) /\ VSame(e)
           ELSE ve' = [ve EXCEPT !.q = Drop(ve.q, First(H))] /\ e.rc = 0 /\ Died(e, IF e.b = 1 THEN {ve.q[First(H)]} \ {0} ELSE {}) /\ VSame(e)
    [] e.op = "vfind" -> UNCHANGED ve /\ Died(e, {}) /\ VSame(e) /\ e.res = (IF Hits(ve.q, e.a) = {} THEN 0 ELSE ve.q[First(Hits(ve.q, e.a))])
    [] e.op = "vfindp" -> UNCHANGED ve /\ Died(e, {}) /\ VSame(e) /\ e.res = (IF e.a # 0 /\ e.a \in Of(ve.q) THEN e.a ELSE 0)
    [] e.op = "vdestroy" -> ve' = [up |-> FALSE, q |-> <<>>] /\ e.rc = 0 /\ Died(e, IF e.a = 1 THEN Of(ve.q) ELSE {})
    [] OTHER -> FALSE
SeqIn(d, p) == Len(p) = Len(d) /\ \A x \in {p[i] : i \in DOMAIN p} \cup {d[i] : i \in DOMAIN d} : Cardinality({i \in DOMAIN d : d[i] = x}) = Cardinality({i \in DOMAIN p : p[i] = x})
MapOf(q) == {q[i] : i \in DOMAIN q}
MSame(e) == /\ e.size = Cardinality(DOMAIN mp'.m) /\ MapOf(e.map) = {<<k, mp'.m[k]>> : k \in DOMAIN mp'.m} /\ Len(e.map) = e.size
            /\ e.live = IF mp'.mode = 0 THEN 0 ELSE Cardinality(DOMAIN mp'.m) + Cardinality({k \in DOMAIN mp'.m : mp'.m[k] # 0})
RECURSIVE AllDead(_)
AllDead(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN KDead(k) \o AllDead(S \ {k})
Map(e) ==
  CASE e.op = "mnew" -> mp' = [up |-> TRUE, mode |-> e.a, m |-> Empty] /\ MSame(e)
    [] e.op = "mset" -> mp' = [mp EXCEPT !.m = (e.a :> e.b) @@ @] /\ SeqIn(e.dead, IF e.a \in Keys THEN KDead(e.a) ELSE <<>>) /\ MSame(e)
    [] e.op = "mrm" -> /\ mp' = [mp EXCEPT !.m = Gone(mp.m, e.a)] /\ SeqIn(e.dead, IF e.a \in Keys THEN KDead(e.a) ELSE <<>>) /\ MSame(e)
                       /\ e.res = (IF e.a \in Keys THEN 1 ELSE 0)
    [] e.op = "mget" -> UNCHANGED mp /\ e.dead = <<>> /\ MSame(e) /\ e.res = (IF e.a \in Keys THEN mp.m[e.a] ELSE 0)
    [] e.op = "mhas" -> UNCHANGED mp /\ e.dead = <<>> /\ MSame(e) /\ e.res = (IF e.a \in Keys THEN 1 ELSE 0)
    [] e.op = "mdestroy" -> mp' = [up |-> FALSE, mode |-> 0, m |-> Empty] /\ SeqIn(e.dead, AllDead(Keys))
    [] OTHER -> FALSE
(* a recycled node can hold NULL where the generator expected an element; positions beyond the end are left out *)
Beyond(e) == (IF e.op = "linsert" THEN e.c ELSE IF e.op \in {"lremove", "lset"} THEN e.a ELSE 0) > Len(ls.q)
Step(e) == IF e.op = "lost" THEN FALSE ELSE IF e.skip = 1 THEN Beyond(e) /\ UNCHANGED cvars ELSE
           CASE e.c0 = "l" -> ~Beyond(e) /\ List(e) /\ UNCHANGED <<ve, mp>> [] e.c0 = "v" -> Vec(e) /\ UNCHANGED <<ls, mp>> [] OTHER -> Map(e) /\ UNCHANGED <<ls, ve>>
TInit == Init /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ \/ Step(ev)
            \/ ~ENABLED Step(ev) /\ PrintT(<<"MISMATCH", t, l, [lst |-> ls, vec |-> ve, map |-> mp], 0>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
