------------------------------ MODULE Methods ------------------------------
(* Method invocation: each call of a method runs its handler once and returns that handler's outcome,
   immediately or when the provider sends it later, to that very call; or an error; or a timeout. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES reg,      \* methods and other elements registered now: name -> [c, k]   k: "m", "n" (method without handler), "o" (other)
          beh,      \* what the application's handler of a method does: [code, out, later]
          open,     \* calls whose outcome is still to come: id -> [k, m, mode, short, in]
          used,     \* ids ever used
          runs, done
mvars == <<reg, beh, open, used, runs, done>>
TIMEOUT == 20  SUCCESS == 0
Empty == <<>>
Beh(m) == IF m \in DOMAIN beh THEN beh[m] ELSE [code |-> 0, out |-> "none", later |-> FALSE]
(* rows of the table T: a method of a row that does not exist *)
NoRow == {"T.9.m()"}
Runs(m) == m \in DOMAIN reg /\ reg[m].k = "m" /\ m \notin NoRow
Errors(m) == IF m \in NoRow THEN {17}
             ELSE IF m \in DOMAIN reg THEN {9}
             ELSE {5}
InTok(c) == IF c.in THEN "in" \o ToString(c.i) ELSE "none"
Echo(c, o) == IF o = "echo" THEN InTok(c) ELSE o
(* an outcome: async results carry no id *)
Result(c, rc, out, err) == [k |-> c.k, m |-> c.m, i |-> IF c.mode = "async" THEN 0 ELSE c.i, rc |-> rc, out |-> out, err |-> err]
Immediate(c) == ~Runs(c.m) \/ ~Beh(c.m).later
Outcomes(c) == IF Runs(c.m) THEN {Result(c, Beh(c.m).code, Echo(c, Beh(c.m).out), Beh(c.m).code # 0 /\ Beh(c.m).out # "oe")}
               ELSE {Result(c, e, "none", TRUE) : e \in Errors(c.m)}
Run(c) == [c |-> reg[c.m].c, m |-> c.m, in |-> InTok(c)]
(* "oe": output parameters with an error_code of the handler's own; to others that fail the error is added *)
(* several calls made at the same time by different callers *)
Start(cs) ==
  /\ \A x \in DOMAIN cs : cs[x].i \notin used
  /\ used' = used \cup {cs[x].i : x \in DOMAIN cs}
  /\ LET now == {x \in DOMAIN cs : Immediate(cs[x])}
         go == {x \in DOMAIN cs : Runs(cs[x].m)} IN
     /\ done' = {<<x, r>> : x \in now, r \in UNION {Outcomes(cs[y]) : y \in now}} \cap UNION {{<<x, r>> : r \in Outcomes(cs[x])} : x \in now}
     /\ runs' = {<<x, Run(cs[x])>> : x \in go}
     /\ open' = [i \in {cs[x].i : x \in DOMAIN cs \ now} |-> CHOOSE c \in {cs[x] : x \in DOMAIN cs} : c.i = i] @@ open
  /\ UNCHANGED <<reg, beh>>
(* the provider answers calls it had put off; answers to calls that have ended go nowhere *)
Respond(rs) ==
  /\ done' = {<<x, Result(open[rs[x].i], rs[x].code, Echo(open[rs[x].i], rs[x].out), rs[x].code # 0 /\ rs[x].out = "none")>> : x \in {y \in DOMAIN rs : rs[y].i \in DOMAIN open}}
  /\ open' = [i \in DOMAIN open \ {rs[x].i : x \in DOMAIN rs} |-> open[i]]
  /\ runs' = {} /\ UNCHANGED <<reg, beh, used>>
(* calls whose deadline has passed *)
Expire(s) ==
  /\ \A i \in s : i \in DOMAIN open /\ open[i].short
  /\ done' = {<<i, Result(open[i], TIMEOUT, "none", TRUE)>> : i \in s}
  /\ open' = [i \in DOMAIN open \ s |-> open[i]]
  /\ runs' = {} /\ UNCHANGED <<reg, beh, used>>
Behave(m, b) == /\ beh' = (m :> b) @@ beh /\ runs' = {} /\ done' = {} /\ UNCHANGED <<reg, open, used>>
Register(c, m) == /\ m \notin DOMAIN reg
                  /\ reg' = (m :> [c |-> c, k |-> "m"]) @@ reg /\ runs' = {} /\ done' = {} /\ UNCHANGED <<beh, open, used>>
Unregister(c, m) == /\ m \in DOMAIN reg /\ reg[m].c = c
                    /\ reg' = [x \in DOMAIN reg \ {m} |-> reg[x]] /\ runs' = {} /\ done' = {} /\ UNCHANGED <<beh, open, used>>
Fixed == ("A.s()" :> [c |-> "P", k |-> "m"]) @@ ("A.a()" :> [c |-> "P", k |-> "m"]) @@ ("T.1.m()" :> [c |-> "P", k |-> "m"]) @@ ("T.2.m()" :> [c |-> "P", k |-> "m"])
         @@ ("A.x" :> [c |-> "P", k |-> "o"]) @@ ("A.ev!" :> [c |-> "P", k |-> "o"]) @@ ("B.s()" :> [c |-> "Q", k |-> "m"]) @@ ("B.n()" :> [c |-> "Q", k |-> "n"])
Init == reg = Fixed /\ beh = Empty /\ open = Empty /\ used = {} /\ runs = {} /\ done = {}
=============================================================================
