----------------------------- MODULE SetAtomic -----------------------------
(* A multi-set as its caller sees it: one step that makes all of the changes or none. *)
EXTENDS Naturals, Sequences
CONSTANTS Call
VARIABLES astore, adone, aok
avars == <<astore, adone, aok>>
RECURSIVE AFinal(_, _)
AFinal(s, k) == IF k > Len(Call) THEN s ELSE AFinal([s EXCEPT ![Call[k][1]] = Call[k][2]], k + 1)
AInit == adone = FALSE /\ aok = FALSE
ANext == /\ ~adone /\ adone' = TRUE
         /\ \/ aok' = TRUE /\ astore' = AFinal(astore, 1)
            \/ aok' = FALSE /\ astore' = astore
ASpec == AInit /\ [][ANext]_avars
=============================================================================
