----------------------------- MODULE SessionGen -----------------------------
(* Histories of session requests (several at a time), subscriptions to the announcement, losses of the manager and of clients, and
   sets that carry a session id. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES hist, up, subs
gvars == <<hist, up, subs>>
R(n) == RandomElement(1..n)
K == <<"k1", "k2", "k3", "k4">>
AnyId(z) == LET r == R(10) IN IF r <= 5 THEN 1 ELSE IF r <= 7 THEN 0 ELSE IF r = 8 THEN 2 ELSE IF r = 9 THEN -1 ELSE 257
Req(z) == LET r == R(10) IN [c |-> K[R(4)], what |-> IF r <= 4 THEN "create" ELSE IF r <= 8 THEN "close" ELSE "current", id |-> AnyId(z)]
Proc(c) == IF c \in {"k1", "k2"} THEN "K" ELSE IF c = "k3" THEN "L" ELSE "M"
Rec(e) == hist' = Append(hist, e)
Step(k) ==
  CASE k <= 58 -> \E n \in {IF R(3) = 1 THEN 1 ELSE 1 + R(3)} : Rec([op |-> "calls", calls |-> [i \in 1..n |-> Req(i)]]) /\ UNCHANGED <<up, subs>>
    [] k <= 70 /\ up -> \E c \in {K[R(4)]} : Rec([op |-> "sub", c |-> c]) /\ UNCHANGED <<up, subs>>
    [] k <= 76 /\ up -> \E c \in {K[R(4)]} : Rec([op |-> "unsub", c |-> c]) /\ UNCHANGED <<up, subs>>
    [] k <= 84 -> Rec([op |-> IF up THEN "stop" ELSE "start"]) /\ up' = ~up /\ UNCHANGED subs
    [] k <= 88 /\ ~up -> Rec([op |-> "start"]) /\ up' = TRUE /\ UNCHANGED subs
    [] k <= 90 -> Rec([op |-> "again", p |-> IF R(2) = 1 THEN "L" ELSE "M"]) /\ UNCHANGED <<up, subs>>
    [] OTHER -> Rec([op |-> "set", c |-> K[R(4)], id |-> AnyId(0), commit |-> R(2) = 1, how |-> IF R(2) = 1 THEN "set" ELSE "setm"]) /\ UNCHANGED <<up, subs>>
GInit == hist = <<>> /\ up = TRUE /\ subs = {}
GNext == IF Len(hist) >= Depth THEN FALSE ELSE \E k \in {R(100)} : Step(k)
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) < Depth \/ JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
