------------------------------ MODULE HashMC ------------------------------
(* The hash map as buckets of nodes that is resized with its load, against a function from keys to values. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, Init0, Load, MaxHash   \* buckets at first; load factor in hundredths; distinct hashes
VARIABLES buckets, size, live,     \* the implementation: bucket -> sequence of [key, value]; copies not destroyed
          m                        \* what it stands for
vars == <<buckets, size, live, m>>
NB == Len(buckets)
Hash(k, n) == ((k % MaxHash) % n) + 1
Empty(n) == [i \in 1..n |-> <<>>]
Init == buckets = Empty(Init0) /\ size = 0 /\ live = {} /\ m = [k \in {} |-> 0]
RECURSIVE Place(_, _)
Place(nodes, b) == IF nodes = <<>> THEN b ELSE LET n == Head(nodes) h == Hash(n[1], Len(b)) IN Place(Tail(nodes), [b EXCEPT ![h] = Append(@, n)])
RECURSIVE Flat(_, _)
Flat(b, i) == IF i > Len(b) THEN <<>> ELSE b[i] \o Flat(b, i + 1)
Resize(b, n) == Place(Flat(b, 1), Empty(n))
Find(b, k) == {i \in DOMAIN b[Hash(k, Len(b))] : b[Hash(k, Len(b))][i][1] = k}
Set(k, v) ==
  LET h == Hash(k, NB) at == Find(buckets, k) IN
  /\ m' = (k :> v) @@ m
  /\ IF at # {}
     THEN \E i \in at : buckets' = [buckets EXCEPT ![h][i] = <<k, v>>] /\ live' = (live \ {<<"k", k>>, <<"v", k, buckets[h][i][2]>>}) \cup {<<"k", k>>, <<"v", k, v>>} /\ UNCHANGED size
     ELSE LET b == IF (size + 1) * 100 > Load * NB THEN Resize(buckets, NB * 2) ELSE buckets
              h2 == Hash(k, Len(b)) IN
          buckets' = [b EXCEPT ![h2] = Append(@, <<k, v>>)] /\ size' = size + 1 /\ live' = live \cup {<<"k", k>>, <<"v", k, v>>}
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Remove(k) ==
  LET h == Hash(k, NB) at == Find(buckets, k) IN
  IF at = {} THEN UNCHANGED vars
  ELSE \E i \in at : LET b == [buckets EXCEPT ![h] = Del(@, i)] IN
    /\ m' = [y \in DOMAIN m \ {k} |-> m[y]] /\ size' = size - 1 /\ live' = live \ {<<"k", k>>, <<"v", k, buckets[h][i][2]>>}
    /\ buckets' = IF NB > Init0 /\ (size - 1) * 100 < Load * 2 * NB THEN Resize(b, NB \div 2) ELSE b
Next == \E k \in Keys : Remove(k) \/ \E v \in Vals : Set(k, v)
Spec == Init /\ [][Next]_vars
Refines == /\ size = Cardinality(DOMAIN m)
           /\ \A k \in Keys : IF k \in DOMAIN m THEN Cardinality(Find(buckets, k)) = 1 /\ \A i \in Find(buckets, k) : buckets[Hash(k, NB)][i] = <<k, m[k]>>
                              ELSE Find(buckets, k) = {}
           /\ Len(Flat(buckets, 1)) = size
Copies == live = {<<"k", k>> : k \in DOMAIN m} \cup {<<"v", k, m[k]>> : k \in DOMAIN m}
=============================================================================
