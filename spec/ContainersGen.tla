---------------------------- MODULE ContainersGen ----------------------------
EXTENDS Containers, Json, IOUtils
CONSTANTS Depth, Profile
VARIABLES hist, next, keys
gvars == <<cvars, hist, next, keys>>
R(n) == RandomElement(1..n)
Pick(s) == RandomElement(s)
Rec(op, a, b, c) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b, c |-> c])
B(p) == IF R(100) <= p THEN 1 ELSE 0
Of0(q) == {q[i] : i \in DOMAIN q}
(* a new element, now and then NULL *)
New == IF R(12) = 1 THEN 0 ELSE next
L(op, a, b, c) == Rec(op, a, b, c) /\ UNCHANGED <<ve, mp, keys>>
Fresh == next' = next + 1
GList(k) ==
  IF ~ls.up THEN ls' = [up |-> TRUE, q |-> <<>>, left |-> {}, nulls |-> 0] /\ UNCHANGED next /\ L("lnew", 0, 0, 0)
  ELSE CASE k <= 30 -> \E at \in {B(50)} : \E x \in {New} : \E r \in {B(IF Cardinality(ls.left) > 0 THEN 30 ELSE 6)} :
                         (\E res \in {IF r = 1 THEN (CHOOSE k2 \in Nodes : TRUE).x ELSE x} : Put(IF at = 1 THEN Len(ls.q) + 1 ELSE 1, x, r = 1, res)) /\ Fresh /\ L("lpush", at, x, r)
         [] k <= 45 /\ ls.q # <<>> -> \E w \in {B(50)} : \E p \in {R(Len(ls.q))} : \E x \in {New} :
                         Put(p + w, x, FALSE, x) /\ Fresh /\ L("linsert", w, x, p)
         [] k <= 58 /\ ls.q # <<>> -> \E p \in {R(Len(ls.q))} : \E d \in {IF Cardinality(ls.left) > 3 THEN 1 ELSE B(60)} :
                         Take({p}, d = 1) /\ UNCHANGED next /\ L("lremove", p, d, 0)
         [] k <= 66 -> \E x \in {IF Of(ls.q) # {} /\ R(4) > 1 THEN Pick(Of(ls.q)) ELSE next} : \E d \in {IF Cardinality(ls.left) > 3 THEN 1 ELSE B(60)} :
                         (IF x \in Of(ls.q) THEN Take({First({i \in DOMAIN ls.q : ls.q[i] = x})}, d = 1) ELSE UNCHANGED ls) /\ Fresh /\ L("lremdata", x, d, 0)
         [] k <= 74 -> \E v \in {R(4) - 1} : \E d \in {IF Cardinality(ls.left) > 3 THEN 1 ELSE B(60)} :
                         (IF Hits(ls.q, v) # {} THEN Take({First(Hits(ls.q, v))}, d = 1) ELSE UNCHANGED ls) /\ UNCHANGED next /\ L("lremcmp", v, d, 0)
         [] k <= 80 -> \E v \in {R(4) - 1} : UNCHANGED <<ls, next>> /\ L("lfind", v, 0, 0)
         [] k <= 84 /\ ls.q # <<>> -> \E p \in {R(Len(ls.q))} : \E x \in {New} : ls' = [ls EXCEPT !.q[p] = x] /\ Fresh /\ L("lset", p, x, 0)
         [] k <= 90 -> \E v \in {R(4) - 1} : \E d \in {IF Cardinality(ls.left) + Cardinality(Hits(ls.q, v)) > 4 THEN 1 ELSE B(60)} :
                         Take(Hits(ls.q, v), d = 1) /\ UNCHANGED next /\ L("lsweep", v, d, 0)
         [] k <= 94 -> \E d \in {IF Cardinality(ls.left) + Len(ls.q) > 4 THEN 1 ELSE B(60)} : Take(DOMAIN ls.q, d = 1) /\ UNCHANGED next /\ L("lclear", d, 0, 0)
         [] k = 95 -> \E d \in {B(60)} : ls' = [up |-> FALSE, q |-> <<>>, left |-> {}, nulls |-> 0] /\ UNCHANGED next /\ L("ldestroy", d, 0, 0)
         [] OTHER -> \E v \in {R(4) - 1} : UNCHANGED <<ls, next>> /\ L("lfind", v, 0, 0)
V(op, a, b, c) == Rec(op, a, b, c) /\ UNCHANGED <<ls, mp, keys>>
(* in the profile "dup", elements occur more than once and nothing is destroyed *)
D == IF Profile = "dup" THEN 0 ELSE B(60)
VRm(i) == ve' = [ve EXCEPT !.q = Drop(ve.q, i)]
GVec(k) ==
  IF ~ve.up THEN ve' = [up |-> TRUE, q |-> <<>>] /\ UNCHANGED next /\ V("vnew", 0, 0, 0)
  ELSE CASE k <= 55 -> \E x \in {IF Profile = "dup" /\ ve.q # <<>> /\ R(2) = 1 THEN ve.q[R(Len(ve.q))] ELSE New} :
                         ve' = [ve EXCEPT !.q = Append(@, x)] /\ Fresh /\ V("vpush", x, 0, 0)
         [] k <= 70 -> \E x \in {IF Of(ve.q) # {} /\ R(5) > 1 THEN Pick(Of(ve.q)) ELSE next} : \E d \in {D} :
                         (LET H == {i \in DOMAIN ve.q : ve.q[i] = x} IN IF H # {} THEN VRm(First(H)) ELSE UNCHANGED ve) /\ Fresh /\ V("vrm", x, d, 0)
         [] k <= 82 -> \E v \in {R(4) - 1} : \E d \in {D} : (IF Hits(ve.q, v) # {} THEN VRm(First(Hits(ve.q, v))) ELSE UNCHANGED ve) /\ UNCHANGED next /\ V("vrmcmp", v, d, 0)
         [] k <= 90 -> \E v \in {R(4) - 1} : UNCHANGED <<ve, next>> /\ V("vfind", v, 0, 0)
         [] k <= 97 -> \E x \in {IF Of(ve.q) # {} /\ R(3) > 1 THEN Pick(Of(ve.q)) ELSE next} : UNCHANGED ve /\ Fresh /\ V("vfindp", x, 0, 0)
         [] OTHER -> \E d \in {D} : ve' = [up |-> FALSE, q |-> <<>>] /\ UNCHANGED next /\ V("vdestroy", d, 0, 0)
M(op, a, b, c) == Rec(op, a, b, c) /\ UNCHANGED <<ls, ve>>
Key == IF Keys # {} /\ R(3) = 1 THEN Pick(Keys) ELSE R(keys) - 1
GMap(k) ==
  IF ~mp.up THEN \E mode \in {Pick({0, 1, 1, 2})} : \E f \in {Pick({0, 25, 50, 100, 300})} : \E n \in {Pick({8, 30, 60})} :
                   mp' = [up |-> TRUE, mode |-> mode, m |-> [x \in {} |-> 0]] /\ keys' = n /\ UNCHANGED next /\ M("mnew", mode, f, n)
  ELSE /\ UNCHANGED keys
       /\ CASE k <= (IF (Len(hist) \div 40) % 2 = 0 THEN 70 ELSE 30) -> \E y \in {Key} : \E x \in {New} : mp' = [mp EXCEPT !.m = (y :> x) @@ @] /\ Fresh /\ M("mset", y, x, 0)
            [] k <= 85 -> \E y \in {IF Keys # {} /\ R(4) > 1 THEN Pick(Keys) ELSE Key} : mp' = [mp EXCEPT !.m = Gone(@, y)] /\ UNCHANGED next /\ M("mrm", y, 0, 0)
            [] k <= 92 -> \E y \in {Key} : UNCHANGED <<mp, next>> /\ M("mget", y, 0, 0)
            [] k <= 99 -> \E y \in {Key} : UNCHANGED <<mp, next>> /\ M("mhas", y, 0, 0)
            [] OTHER -> mp' = [up |-> FALSE, mode |-> 0, m |-> <<>>] /\ UNCHANGED next /\ M("mdestroy", 0, 0, 0)
GNext == IF Len(hist) >= Depth THEN FALSE ELSE \E k \in {R(100)} : CASE Profile = "list" -> GList(k) [] Profile = "map" -> GMap(k) [] OTHER -> GVec(k)
GInit == Init /\ hist = <<>> /\ next = 1 /\ keys = 0
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) < Depth \/ JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
