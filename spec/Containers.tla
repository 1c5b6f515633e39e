----------------------------- MODULE Containers -----------------------------
(* The list, the vector and the hash map as abstract values. Elements are numbers, 0 is NULL; elements compare equal by
   their number modulo 4. An element that is removed from a list without a destructor stays with the list until its node is
   used again: rtListReuseData brings it back, and destroying the list destroys it. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  ls,    \* [up, q, left, nulls]: elements in order; elements left in recycled nodes, and recycled nodes with none
  ve,    \* [up, q]
  mp     \* [up, mode, m]
cvars == <<ls, ve, mp>>
Val(x) == x % 4
Hits(q, v) == {i \in DOMAIN q : q[i] # 0 /\ Val(q[i]) = v}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
Of(q) == {q[i] : i \in DOMAIN q} \ {0}
(* ---- list ---- *)
(* the nodes that a new element can get, as what is in them: [x: element or 0, l, n: what remains] *)
Nodes == {[x |-> x, l |-> ls.left \ {x}, n |-> ls.nulls] : x \in ls.left}
         \cup (IF ls.nulls > 0 THEN {[x |-> 0, l |-> ls.left, n |-> ls.nulls - 1]} ELSE {})
         \cup (IF ls.nulls = 0 /\ ls.left = {} THEN {[x |-> 0, l |-> {}, n |-> 0]} ELSE {})
Put(i, x, reuse, res) == \E k \in Nodes : /\ res = (IF reuse THEN k.x ELSE x)
                                         /\ ls' = [ls EXCEPT !.q = Ins(ls.q, i, IF reuse THEN k.x ELSE x), !.left = k.l, !.nulls = k.n]
(* removes the elements at the places S *)
Take(S, d) == LET out == {ls.q[i] : i \in S} \ {0}
                  gone == IF d THEN out ELSE {}
              IN ls' = [ls EXCEPT !.q = LET keep == {i \in DOMAIN ls.q : i \notin S} IN
                                          [j \in 1..Cardinality(keep) |-> ls.q[CHOOSE i \in keep : Cardinality({k \in keep : k <= i}) = j]],
                                  !.left = @ \cup (out \ gone), !.nulls = @ + Cardinality(S) - Cardinality(out \ gone)]
Dead(S, d) == IF d THEN {ls.q[i] : i \in S} \ {0} ELSE {}
(* ---- map ---- *)
Keys == DOMAIN mp.m
Gone(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
Copies == IF mp.mode = 0 THEN 0 ELSE Cardinality(Keys) + Cardinality({k \in Keys : mp.m[k] # 0})
KDead(k) == IF mp.mode = 0 THEN <<>> ELSE <<<<1, k>>>> \o (IF mp.m[k] = 0 THEN <<>> ELSE <<<<2, mp.m[k]>>>>)
Init == ls = [up |-> FALSE, q |-> <<>>, left |-> {}, nulls |-> 0] /\ ve = [up |-> FALSE, q |-> <<>>] /\ mp = [up |-> FALSE, mode |-> 0, m |-> <<>>]
=============================================================================
