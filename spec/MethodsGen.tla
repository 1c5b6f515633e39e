----------------------------- MODULE MethodsGen -----------------------------
EXTENDS Methods, SequencesExt, Json, IOUtils
CONSTANTS Depth, Profile
VARIABLE hist
gvars == <<reg, beh, open, used, runs, done, hist>>
R(S) == RandomElement(S)
Pc(n) == R(1..100) <= n
Ev(r) == hist' = Append(hist, r)
Good == {"A.s()", "A.a()", "T.1.m()", "T.2.m()", "B.s()", "B.l()"}
Bad == {"A.x", "A.ev!", "B.n()", "T.9.m()", "N.m()", "A.none()", "B.l()"}
Outs == {"none", "echo", "echo", "o1", "o2", "o3", "oe"}
Codes == {0, 0, 0, 1, 2, 7, 9, 17, 22, 28, 30}
(* K2's calls have a short deadline; P also calls methods, its own among them *)
Name == IF Pc(8) THEN R(Bad) ELSE R(Good)
NewCall(i) ==
  [i |-> i, k |-> R({"K", "K", "K2", "P", "Q"}), mode |-> R({"sync", "sync", "async"}), m |-> Name, in |-> Pc(92), short |-> FALSE]
Deadline(c) == [c EXCEPT !.in = @ \/ (Runs(c.m) /\ Beh(c.m).later), !.short = (c.k = "K2") \/ (c.mode = "async" /\ c.i % 4 = 0)]
RECURSIVE Calls(_, _)
Calls(n, i) == IF n = 0 THEN <<>> ELSE <<Deadline(NewCall(i))>> \o Calls(n - 1, i + 1)
NextId == Cardinality(used) + 1
OpenSync(k) == Cardinality({i \in DOMAIN open : open[i].k = k /\ open[i].mode = "sync"})
Answer(i) == [i |-> i, code |-> R(Codes), out |-> R(Outs)]
AnswerOk(a) == a.code # 0 \/ a.out # "none" \/ TRUE
RECURSIVE Shuffle(_)
Shuffle(s) == IF s = {} THEN <<>> ELSE LET x == R(s) IN <<x>> \o Shuffle(s \ {x})
GNext ==
  /\ Len(hist) < Depth
  /\ IF Len(hist) < 3 THEN \E m \in {R({"A.a()", "T.2.m()", "B.s()"})} : Behave(m, [code |-> 0, out |-> "echo", later |-> TRUE]) /\ Ev([op |-> "beh", m |-> m, code |-> 0, out |-> "echo", later |-> TRUE])
     ELSE \E z \in {R(1..100)} :
     CASE z <= 14 -> \E m \in {R(Good)} : \E b \in {[code |-> R(Codes), out |-> R(Outs), later |-> Pc(50)]} :
                       Behave(m, b) /\ Ev([op |-> "beh", m |-> m, code |-> b.code, out |-> b.out, later |-> b.later])
       [] z <= 62 -> \E n \in {IF Pc(60) THEN 1 ELSE R(2..6)} : \E cs \in {Calls(n, NextId)} :
                       /\ Start(cs) /\ Ev([op |-> "start", calls |-> cs])
       [] z <= 88 /\ DOMAIN open # {} -> \E s \in {IF Pc(60) THEN {R(DOMAIN open)} ELSE {i \in DOMAIN open : Pc(60)}} : \E q \in {Shuffle(s)} :
                       s # {} /\ \E rs \in {[x \in DOMAIN q |-> Answer(q[x])]} : Respond(rs) /\ Ev([op |-> "respond", rs |-> rs])
       [] z <= 94 /\ "B.l()" \notin DOMAIN reg -> Register("Q", "B.l()") /\ Ev([op |-> "reg", c |-> "Q", m |-> "B.l()"])
       [] z <= 94 -> Unregister("Q", "B.l()") /\ Ev([op |-> "unreg", c |-> "Q", m |-> "B.l()"])
       [] z >= 98 /\ \E i \in DOMAIN open : open[i].short ->
                       LET s == {i \in DOMAIN open : open[i].short} IN Expire(s) /\ Ev([op |-> "expire"])
       [] OTHER -> \E cs \in {Calls(1, NextId)} : Start(cs) /\ Ev([op |-> "start", calls |-> cs])
Few == \A k \in {"K", "K2", "P", "Q"} : OpenSync(k) <= 7
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) = Depth => JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
