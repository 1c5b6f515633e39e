------------------------------ MODULE ConnGen -------------------------------
(* Histories of one connection: requests of several threads and how the daemon answers them, bursts of messages to listeners that come and
   go, storms of requests with short deadlines, loss of the connection at any time, destruction with requests under way. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth, Focus
VARIABLES hist, pend, done, nr, ls, tag
gvars == <<hist, pend, done, nr, ls, tag>>
R(n) == RandomElement(1..n)
Pick(S) == RandomElement(S)
Rec(e) == hist' = Append(hist, e)
T == <<"A", "A.b", "B.", "C.d.e", "A.*">>
(* pend: [r, th] *)
Free == (7..12) \ {p.th : p \in pend}
RECURSIVE Reqs(_, _, _)
Reqs(n, F, r) == IF n = 0 \/ F = {} THEN <<>> ELSE LET c == CHOOSE x \in F : TRUE IN <<[r |-> r, th |-> c]>> \o Reqs(n - 1, F \ {c}, r + 1)
Set(q) == {q[i] : i \in DOMAIN q}
Ids == {x.id : x \in ls}
Id(z) == IF Ids # {} /\ R(3) > 1 THEN Pick(Ids) ELSE IF R(3) = 1 THEN 1 ELSE 100 + R(6)
Msgs(n, kinds) == [i \in 1..n |-> [id |-> Id(i), kind |-> Pick(kinds)]]
Ans(n) == [i \in 1..n |-> IF pend = {} \/ R(6) = 1 THEN (IF done # {} /\ R(2) = 1 THEN [k |-> "ok", r |-> Pick(done)] ELSE [k |-> "unknown", r |-> 0])
                           ELSE [k |-> IF R(6) = 1 THEN "undeliv" ELSE "ok", r |-> Pick(pend).r]]
Hit(as) == {p \in pend : \E i \in DOMAIN as : as[i].r = p.r}
W(c, s) == IF Focus = "requests" THEN c ELSE s
All == <<"early", "twice", "undeliv", "never", "late", "edge">>
Modes(z) == CASE R(4) = 1 -> <<"edge">> [] R(3) = 1 -> <<"late", "never", "edge">> [] OTHER -> All
Step(k) ==
  CASE k <= W(22, 6) /\ Free # {} -> \E rs \in {Reqs(R(3), Free, nr)} : Rec([op |-> "req", rs |-> rs]) /\ pend' = pend \cup Set(rs) /\ nr' = nr + Len(rs) /\ UNCHANGED <<done, ls, tag>>
    [] k <= W(48, 12) -> \E as \in {Ans(R(5))} : Rec([op |-> "answer", as |-> as]) /\ pend' = pend \ Hit(as) /\ done' = done \cup {p.r : p \in Hit(as)} /\ UNCHANGED <<nr, ls, tag>>
    [] k <= W(66, 15) -> Rec([op |-> "storm", threads |-> 1 + R(5), each |-> 1 + R(7), modes |-> Modes(0)]) /\ UNCHANGED <<pend, done, nr, ls, tag>>
    [] k <= W(74, 45) -> \E ms \in {Msgs(IF R(3) = 1 THEN 1 ELSE R(18), IF R(2) = 1 THEN {"msg"} ELSE {"msg", "req", "nest"})} : Rec([op |-> "in", ms |-> ms]) /\ UNCHANGED <<pend, done, nr, ls, tag>>
    [] k <= W(80, 63) -> \E id \in {100 + R(6)} : IF id \in Ids THEN Rec([op |-> "in", ms |-> Msgs(3, {"msg"})]) /\ UNCHANGED <<pend, done, nr, ls, tag>>
                         ELSE \E t \in {T[R(5)]} : Rec([op |-> "add", id |-> id, t |-> t, tag |-> tag]) /\ ls' = ls \cup {[id |-> id, t |-> t]} /\ tag' = tag + 1 /\ UNCHANGED <<pend, done, nr>>
    [] k <= W(84, 71) -> IF ls # {} /\ R(6) > 1 THEN \E x \in {Pick(ls)} : Rec([op |-> "rm", id |-> x.id, t |-> x.t, tag |-> 0]) /\ ls' = ls \ {x} /\ UNCHANGED <<pend, done, nr, tag>>
                         ELSE \E id \in {Pick((100..107) \ Ids)} : Rec([op |-> "rm", id |-> id, t |-> T[1], tag |-> 0]) /\ UNCHANGED <<pend, done, nr, ls, tag>>
    [] k <= W(87, 82) -> \E id \in {100 + R(6)} : \E t \in {T[R(5)]} :
                         IF id \in Ids THEN \E x \in {CHOOSE y \in ls : y.id = id} : Rec([op |-> "race", what |-> "rm", id |-> id, t |-> x.t, tag |-> 0, ms |-> [i \in 1..R(18) |-> [id |-> IF R(2) = 1 THEN id ELSE Id(i), kind |-> "msg"]]])
                                                                                     /\ ls' = ls \ {x} /\ UNCHANGED <<pend, done, nr, tag>>
                         ELSE /\ Rec([op |-> "race", what |-> "add", id |-> id, t |-> t, tag |-> tag, ms |-> [i \in 1..R(18) |-> [id |-> IF R(2) = 1 THEN id ELSE Id(i), kind |-> "msg"]]])
                              /\ ls' = ls \cup {[id |-> id, t |-> t]} /\ tag' = tag + 1 /\ UNCHANGED <<pend, done, nr>>
    [] k <= W(88, 84) -> Rec([op |-> "def", tag |-> tag]) /\ tag' = tag + 1 /\ UNCHANGED <<pend, done, nr, ls>>
    [] k <= W(94, 95) /\ pend = {} ->
         \E d \in {Reqs(R(3) - 1, 7..9, nr)} : \E u \in {Reqs(R(4) - 1, 10..12, nr + 3)} : \E id \in {100 + R(6)} : \E t \in {T[R(5)]} :
         \E chg \in {IF R(2) = 1 THEN "" ELSE IF id \in Ids THEN "rm" ELSE "add"} : \E x \in {IF id \in Ids THEN CHOOSE y \in ls : y.id = id ELSE [id |-> id, t |-> t]} :
           /\ Rec([op |-> "lose", down |-> Pick({0, 0, 200, 1200}), cut |-> R(2) = 1, doomed |-> d, during |-> u, chg |-> chg, id |-> id, t |-> x.t, tag |-> tag, ms |-> Msgs(R(4) - 1, {"msg"})])
           /\ nr' = nr + 6 /\ ls' = (CASE chg = "add" -> ls \cup {x} [] chg = "rm" -> ls \ {x} [] OTHER -> ls) /\ tag' = tag + 1 /\ UNCHANGED <<pend, done>>
    [] k <= W(96, 96) -> \E rs \in {IF R(2) = 1 THEN <<>> ELSE Reqs(R(3), Free, nr)} : Rec([op |-> "destroy", rs |-> rs]) /\ pend' = {} /\ done' = {} /\ nr' = nr + Len(rs) /\ ls' = {} /\ UNCHANGED tag
    [] k <= W(98, 96) -> Rec([op |-> "age", n |-> Pick({40, 300, 66000})]) /\ UNCHANGED <<pend, done, nr, ls, tag>>
    [] OTHER -> Rec([op |-> "in", ms |-> Msgs(R(5), {"msg", "req"})]) /\ UNCHANGED <<pend, done, nr, ls, tag>>
GInit == hist = <<>> /\ pend = {} /\ done = {} /\ nr = 1 /\ ls = {} /\ tag = 1
GNext == IF Len(hist) >= Depth THEN FALSE ELSE \E k \in {R(100)} : Step(k)
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) < Depth \/ JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
