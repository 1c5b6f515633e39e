---------------------------- MODULE ThreadPoolGen ----------------------------
(* What is done to a pool: submissions from several threads and from tasks, ends of tasks, threads held back, not created or
   expiring, and its destruction. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES hist, next, open, held, dying, fail
gvars == <<hist, next, open, held, dying, fail>>
R(n) == RandomElement(1..n)
Rec(op, a, b) == hist' = Append(hist, [op |-> op, a |-> a, b |-> b])
Old(S) == CHOOSE x \in S : \A y \in S : x <= y
Len0 == Len(hist)
Go(k) ==
  IF Len0 = 0 THEN \E m \in {R(4)} : Rec("new", m, 0) /\ UNCHANGED <<next, open, held, dying, fail>>
  ELSE IF dying
  THEN CASE k <= 60 /\ open # {} -> \E x \in {RandomElement(open)} : Rec("end", x, 0) /\ open' = open \ {x} /\ UNCHANGED <<next, held, dying, fail>>
         [] k <= 75 /\ held -> Rec("unhold", 0, 0) /\ held' = FALSE /\ UNCHANGED <<next, open, dying, fail>>
         [] OTHER -> Rec("sleep", R(20), 0) /\ UNCHANGED <<next, open, held, dying, fail>>
  ELSE CASE k <= 26 -> Rec("submit", next, 0) /\ open' = open \cup {next} /\ next' = next + 1 /\ UNCHANGED <<held, dying, fail>>
         [] k <= 34 -> Rec("both", next, next + 1) /\ open' = open \cup {next, next + 1} /\ next' = next + 2 /\ UNCHANGED <<held, dying, fail>>
         [] k <= 40 /\ ~held -> Rec("nest", next, next + 1) /\ open' = open \cup {next, next + 1} /\ next' = next + 2 /\ UNCHANGED <<held, dying, fail>>
         [] k <= 66 /\ open # {} -> \E x \in {IF R(3) = 1 THEN RandomElement(open) ELSE Old(open)} : Rec("end", x, 0) /\ open' = open \ {x} /\ UNCHANGED <<next, held, dying, fail>>
         [] k <= 70 -> Rec(IF held THEN "unhold" ELSE "hold", 0, 0) /\ held' = ~held /\ UNCHANGED <<next, open, dying, fail>>
         [] k <= 72 -> \E n \in {R(3) - 1} : Rec("fail", n, 0) /\ fail' = TRUE /\ UNCHANGED <<next, open, held, dying>>
         [] k <= 77 -> Rec("expire", 0, 0) /\ UNCHANGED <<next, open, held, dying, fail>>
         [] k <= 84 /\ ~held -> Rec("race", next, 0) /\ open' = open \cup {next} /\ next' = next + 1 /\ UNCHANGED <<held, dying, fail>>
         [] k <= 94 /\ ~held -> Rec("settle", 0, 0) /\ UNCHANGED <<next, open, held, dying, fail>>
         [] k = 95 \/ Len0 > Depth - 8 -> \E w \in {RandomElement({-1, -1, 0, 40, 250})} : Rec("destroy", w, 0) /\ dying' = TRUE /\ UNCHANGED <<next, open, held, fail>>
         [] OTHER -> Rec("submit", next, 0) /\ open' = open \cup {next} /\ next' = next + 1 /\ UNCHANGED <<held, dying, fail>>
GInit == hist = <<>> /\ next = 1 /\ open = {} /\ held = FALSE /\ dying = FALSE /\ fail = FALSE
GNext == IF Len0 >= Depth THEN FALSE ELSE \E k \in {R(100)} : Go(k)
GSpec == GInit /\ [][GNext]_gvars
Dump == Len0 < Depth \/ JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
