------------------------------ MODULE SetMulti ------------------------------
(* How a multi-set is carried out: the consumer sends one batch per component, each component applies
   its batch property by property and undoes what it applied when one is refused; the consumer undoes
   the batches of the components that had accepted when a later one refuses or cannot be reached.
   Refines the atomic multi-set: afterwards either every property is new or every one is old. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Prop, Val, Where, Ordered    \* Where: property -> component; Ordered: the call's properties in batch order
VARIABLES store, refuse, up, phase, i, saved, undo, orig, result
mvars == <<store, refuse, up, phase, i, saved, undo, orig, result>>
Comps == {Where[p] : p \in Prop}
Call == Ordered                        \* sequence of <<property, value>>, grouped by component
MInit == /\ store \in [Prop -> Val] /\ refuse \in SUBSET (Prop \X Val)
         /\ up = Comps /\ phase = "ready" /\ i = 1 /\ saved = <<>> /\ undo = <<>> /\ orig = store /\ result = "none"
(* old values are always acceptable: they were accepted once *)
Takes(p, v) == <<p, v>> \notin refuse \/ v = orig[p]
Same == UNCHANGED <<refuse, orig>>
Start == phase = "ready" /\ phase' = "apply" /\ UNCHANGED <<store, up, i, saved, undo, result>> /\ Same
ApplyOne == /\ phase = "apply" /\ i <= Len(Call)
            /\ LET p == Call[i][1]  v == Call[i][2]  c == Where[p] IN
               IF c \notin up
               THEN phase' = "undo" /\ undo' = saved /\ result' = "unreachable" /\ UNCHANGED <<store, i, saved, up>>
               ELSE IF Takes(p, v)
               THEN store' = [store EXCEPT ![p] = v] /\ saved' = Append(saved, <<p, store[p]>>) /\ i' = i + 1 /\ UNCHANGED <<phase, undo, result, up>>
               ELSE phase' = "undo" /\ undo' = saved /\ result' = "refused" /\ UNCHANGED <<store, i, saved, up>>
            /\ Same
(* the last accepted first, so that a property named twice ends with its first value *)
UndoOne == /\ phase = "undo" /\ undo # <<>>
           /\ LET u == undo[Len(undo)] IN store' = IF Where[u[1]] \in up THEN [store EXCEPT ![u[1]] = u[2]] ELSE store
           /\ undo' = SubSeq(undo, 1, Len(undo) - 1) /\ UNCHANGED <<phase, i, saved, up, result>> /\ Same
Finish == /\ \/ phase = "apply" /\ i > Len(Call) /\ result' = "ok"
             \/ phase = "undo" /\ undo = <<>> /\ result' = result
          /\ phase' = "done" /\ UNCHANGED <<store, i, saved, undo, up>> /\ Same
(* a component may go before its batch begins *)
Crash == /\ phase = "apply" /\ \E c \in up : (\A k \in 1..(i - 1) : Where[Call[k][1]] # c) /\ up' = up \ {c}
         /\ UNCHANGED <<store, phase, i, saved, undo, result>> /\ Same
MNext == Start \/ ApplyOne \/ UndoOne \/ Finish \/ Crash
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)
RECURSIVE Final(_, _)
Final(s, k) == IF k > Len(Call) THEN s ELSE Final([s EXCEPT ![Call[k][1]] = Call[k][2]], k + 1)
Atomic == phase = "done" => store = (IF result = "ok" THEN Final(orig, 1) ELSE orig)
HonestFailure == phase = "done" /\ result = "refused" => \E k \in DOMAIN Call : <<Call[k][1], Call[k][2]>> \in refuse
Ends == <>(phase = "done")
(* refinement: from outside, a multi-set is one step *)
AStore == IF phase = "done" THEN store ELSE orig
Abs == INSTANCE SetAtomic WITH astore <- AStore, adone <- phase = "done", aok <- result = "ok" /\ phase = "done"
Refines == Abs!ASpec
P4 == {"a", "b", "c"}
W4 == [p \in P4 |-> IF p = "c" THEN "Q" ELSE "P"]
V2 == {0, 1}
Calls == {<<<<"a", 1>>, <<"b", 1>>, <<"c", 1>>>>}
O4 == <<<<"a", 1>>, <<"b", 1>>, <<"a", 2>>, <<"c", 1>>, <<"c", 2>>>>
V3 == {0, 1, 2}
=============================================================================
