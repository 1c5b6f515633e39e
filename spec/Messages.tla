------------------------------ MODULE Messages ------------------------------
(* Listeners on topics: who is to hear which messages, what a sender that asks for confirmation is told. *)
EXTENDS Integers, Sequences, FiniteSets
OK == 0  FAILED == 1  NODEST == 5
(* a listener: [k: handle, t: topic, s: id given by its user, tag] *)
On(L, t) == {x \in L : x.t = t}
Of(L, k) == {x \in L : x.k = k}
Known(L, k, t, s) == {x \in L : x.k = k /\ x.t = t /\ x.s = s}
IsPre(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
IsSuf(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, Len(q) - Len(p) + 1, Len(q))
(* what each listener may have heard of the messages ids sent to topic t: all of them, the first ones if it was removed meanwhile,
   the last ones if it was added meanwhile, nothing if it listens to something else *)
Hears(h, x, t, ids, going, coming) ==
  IF x.t # t THEN h = <<>> ELSE IF x \in going THEN IsPre(h, ids) ELSE IF x \in coming THEN IsSuf(h, ids) ELSE h = ids
Confirms(L, t, going, coming) == IF On(L, t) \ (going \cup coming) # {} THEN {OK} ELSE IF On(L, t) = {} THEN {NODEST} ELSE {OK, FAILED, NODEST}
=============================================================================
