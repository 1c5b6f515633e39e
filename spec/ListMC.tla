------------------------------ MODULE ListMC ------------------------------
(* The linked list as nodes with pointers and a pool of recycled nodes, one pointer assignment block per operation,
   against the sequence of Containers: what is reached from the front is the sequence, from the back its reverse, no node is
   in two places, and each element is destroyed once. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Data    \* nodes; elements
Node == 1..N
NULL == 0
VARIABLES data, next, prev, front, back, free, size, made,   \* the implementation
          q, left, owned, dead                               \* what it stands for; elements of the list, elements destroyed
vars == <<data, next, prev, front, back, free, size, made, q, left, owned, dead>>
Init == /\ data = [n \in Node |-> NULL] /\ next = [n \in Node |-> NULL] /\ prev = [n \in Node |-> NULL]
        /\ front = NULL /\ back = NULL /\ free = NULL /\ size = 0 /\ made = 0
        /\ q = <<>> /\ left = {} /\ owned = {} /\ dead = {}
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* GetFreeItem: the node n; sets the pool *)
GetFree(n) == IF free # NULL THEN n = free /\ free' = next[free] /\ made' = made
              ELSE made < N /\ n = made + 1 /\ free' = NULL /\ made' = made + 1
(* the element that node n gets: x, or what is left in it *)
Elem(n, x, reuse) == IF reuse THEN data[n] ELSE x
New(x) == x \notin owned /\ x \notin dead
Give(n, x, reuse, i) ==
  LET d == Elem(n, x, reuse) IN
  /\ data' = [data EXCEPT ![n] = d] /\ size' = size + 1
  /\ q' = Ins(q, i, d) /\ left' = left \ {data[n]}
  \* an element that was left in the node and is overwritten belongs to its owner again
  /\ owned' = (IF reuse THEN owned ELSE (owned \ {data[n]}) \cup ({x} \ {NULL})) /\ UNCHANGED dead
Push(x, reuse, atBack) == \E n \in Node : GetFree(n) /\ Give(n, x, reuse, IF atBack THEN Len(q) + 1 ELSE 1) /\
  IF atBack
  THEN /\ prev' = [prev EXCEPT ![n] = back] /\ next' = [y \in Node |-> IF y = n THEN NULL ELSE IF y = back THEN n ELSE next[y]]
       /\ back' = n /\ front' = (IF front = NULL THEN n ELSE front)
  ELSE /\ next' = [next EXCEPT ![n] = front] /\ prev' = [y \in Node |-> IF y = n THEN NULL ELSE IF y = front THEN n ELSE prev[y]]
       /\ front' = n /\ back' = (IF back = NULL THEN n ELSE back)
RECURSIVE Reach(_, _, _)
Reach(n, f, k) == IF n = NULL \/ k = 0 THEN <<>> ELSE <<n>> \o Reach(f[n], f, k - 1)
Chain == Reach(front, next, N + 1)
Insert(x, i, after) == \E n \in Node : LET at == Chain[i] IN GetFree(n) /\ Give(n, x, FALSE, IF after THEN i + 1 ELSE i) /\
  IF after
  THEN /\ prev' = [y \in Node |-> IF y = n THEN at ELSE IF at # back /\ y = next[at] THEN n ELSE prev[y]]
       /\ next' = [y \in Node |-> IF y = n THEN next[at] ELSE IF y = at THEN n ELSE next[y]]
       /\ back' = (IF at = back THEN n ELSE back) /\ UNCHANGED front
  ELSE /\ next' = [y \in Node |-> IF y = n THEN at ELSE IF at # front /\ y = prev[at] THEN n ELSE next[y]]
       /\ prev' = [y \in Node |-> IF y = n THEN prev[at] ELSE IF y = at THEN n ELSE prev[y]]
       /\ front' = (IF at = front THEN n ELSE front) /\ UNCHANGED back
Remove(i, d) ==
  LET n == Chain[i]
      nx == [y \in Node |-> IF prev[n] # NULL /\ y = prev[n] THEN next[n] ELSE next[y]]
      pv == [y \in Node |-> IF next[n] # NULL /\ y = next[n] THEN prev[n] ELSE prev[y]]
  IN /\ front' = (IF front = n THEN next[n] ELSE front) /\ back' = (IF back = n THEN prev[n] ELSE back)
     \* SetFreeItem
     /\ next' = [nx EXCEPT ![n] = IF free # NULL THEN free ELSE NULL]
     /\ prev' = [y \in Node |-> IF y = n THEN NULL ELSE IF free # NULL /\ y = free THEN n ELSE pv[y]]
     /\ free' = n /\ size' = size - 1 /\ made' = made
     /\ data' = (IF d THEN [data EXCEPT ![n] = NULL] ELSE data)
     /\ dead' = (IF d /\ data[n] # NULL THEN dead \cup {data[n]} ELSE dead)
     /\ owned' = (IF d THEN owned \ {data[n]} ELSE owned)
     /\ left' = (IF d THEN left ELSE left \cup ({data[n]} \ {NULL}))
     /\ q' = Drop(q, i)
Next == \/ \E x \in Data \cup {NULL}, b \in BOOLEAN : (x # NULL => New(x)) /\ Push(x, FALSE, b)
        \/ \E b \in BOOLEAN : Push(NULL, TRUE, b)
        \/ \E x \in Data \cup {NULL}, i \in DOMAIN q, b \in BOOLEAN : (x # NULL => New(x)) /\ Insert(x, i, b)
        \/ \E i \in DOMAIN q, d \in BOOLEAN : Remove(i, d)
Spec == Init /\ [][Next]_vars
Elems(c) == [i \in DOMAIN c |-> data[c[i]]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Pool == Reach(free, next, N + 1)
Range(s) == {s[i] : i \in DOMAIN s}
Refines == /\ Elems(Chain) = q /\ size = Len(q) /\ Reach(back, prev, N + 1) = Rev(Chain)
           /\ (front = NULL) = (q = <<>>) /\ (back = NULL) = (q = <<>>)
Places == /\ Range(Chain) \cap Range(Pool) = {} /\ Range(Chain) \cup Range(Pool) = 1..made
          /\ Len(Chain) + Len(Pool) = made
          /\ left = {data[n] : n \in Range(Pool)} \ {NULL}
Once == dead \cap owned = {} /\ dead \cap {data[n] : n \in Node} \subseteq {NULL} /\ \A i, j \in DOMAIN q : i # j /\ q[i] # NULL => q[i] # q[j]
SweepOK == \A i \in DOMAIN q : i < Len(q) => Chain[i + 1] = next[Chain[i]]
=============================================================================
