---------------------------- MODULE MessagesGen ----------------------------
(* Histories of listeners, messages with and without confirmation, bursts during which a listener comes or goes, handles closed and
   opened again, and processes that end. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES hist, ls, gone, tag, msg
gvars == <<hist, ls, gone, tag, msg>>
R(n) == RandomElement(1..n)
K == <<"k1", "k2", "k3", "k4">>
T == <<"A", "A.b", "A.b.c", "B.x", "rawdata.x", "A-b">>
Proc(c) == IF c \in {"k1", "k2"} THEN "K" ELSE IF c = "k3" THEN "L" ELSE "M"
Rec(e) == hist' = Append(hist, e)
Topic(z) == T[IF R(3) > 1 THEN R(3) ELSE R(6)]
Key(k, t, s) == <<k, t, s>>
Pick(S) == RandomElement(S)
Some(z) == LET U == {K[i] : i \in 1..4} \ gone IN Pick(U)
(* a process keeps at most 25 undelivered messages *)
Most(tp, n) == LET m == Max({Cardinality({x \in ls : Proc(x[1]) = p /\ x[2] = tp}) : p \in {"K", "L", "M"}})
  IN IF m * n + n <= 22 THEN n ELSE 22 \div (m + 1)
Step(k) ==
  \E c \in {Some(0)}, s \in {R(2)}, tp \in {Topic(0)}, conf \in {R(5) <= 2} :
  CASE k <= 22 /\ Key(c, tp, s) \notin ls -> Rec([op |-> "add", k |-> c, t |-> tp, s |-> s, tag |-> tag]) /\ ls' = ls \cup {Key(c, tp, s)} /\ tag' = tag + 1 /\ UNCHANGED <<gone, msg>>
    [] k <= 32 /\ {x \in ls : x[1] \notin gone} # {} -> \E x \in {Pick({x \in ls : x[1] \notin gone})} : Rec([op |-> "rm", k |-> x[1], t |-> x[2], s |-> x[3]]) /\ ls' = ls \ {x} /\ UNCHANGED <<gone, tag, msg>>
    [] k <= 34 -> Rec([op |-> "rm", k |-> c, t |-> tp, s |-> s]) /\ ls' = ls \ {Key(c, tp, s)} /\ UNCHANGED <<gone, tag, msg>>
    [] k <= 38 -> Rec([op |-> "rmall", k |-> c]) /\ ls' = {x \in ls : x[1] # c} /\ UNCHANGED <<gone, tag, msg>>
    [] k <= 42 -> Rec([op |-> "has", k |-> c, t |-> tp]) /\ UNCHANGED <<ls, gone, tag, msg>>
    [] k <= 72 -> \E n \in {IF R(2) = 1 THEN 1 ELSE Most(tp, R(12))} : Rec([op |-> "send", k |-> c, t |-> tp, n |-> n, confirm |-> conf]) /\ UNCHANGED <<ls, gone, tag, msg>>
    [] k <= 82 /\ {x \in ls : x[1] \notin gone} # {} ->
         \E x \in {Pick({x \in ls : x[1] \notin gone})}, w \in {RandomElement({"rm", "rm", "rmall", "close"})} : \E n \in {Most(x[2], R(15))} :
           \E s2 \in {IF w = "close" /\ c = x[1] THEN Pick(({K[i] : i \in 1..4} \ (gone \cup {x[1]})) \cup {"none"}) ELSE c} :
           IF s2 = "none" THEN Rec([op |-> "has", k |-> c, t |-> tp]) /\ UNCHANGED <<ls, gone, tag, msg>>
           ELSE /\ Rec([op |-> "race", k |-> s2, t |-> x[2], n |-> n, confirm |-> R(8) = 1, what |-> w, r |-> x[1], s |-> x[3], tag |-> 0])
                /\ ls' = (IF w = "rm" THEN ls \ {x} ELSE {y \in ls : y[1] # x[1]}) /\ gone' = (IF w = "close" THEN gone \cup {x[1]} ELSE gone) /\ UNCHANGED <<tag, msg>>
    [] k <= 86 /\ Key(c, tp, s) \notin ls -> \E snd \in {Some(0)} : Rec([op |-> "race", k |-> snd, t |-> tp, n |-> Most(tp, R(15)), confirm |-> R(8) = 1, what |-> "add", r |-> c, s |-> s, tag |-> tag])
                                             /\ ls' = ls \cup {Key(c, tp, s)} /\ tag' = tag + 1 /\ UNCHANGED <<gone, msg>>
    [] k <= 90 /\ Cardinality(gone) < 3 -> Rec([op |-> "close", k |-> c]) /\ gone' = gone \cup {c} /\ ls' = {x \in ls : x[1] # c} /\ UNCHANGED <<tag, msg>>
    [] k <= 96 /\ gone # {} -> \E g \in {Pick(gone)} : Rec([op |-> "open", k |-> g]) /\ gone' = gone \ {g} /\ UNCHANGED <<ls, tag, msg>>
    [] k = 97 -> \E p \in {IF Proc(c) = "M" THEN "L" ELSE "M"} : \E tp2 \in {LET U == {x[2] : x \in {y \in ls : Proc(y[1]) = p}} IN IF U = {} \/ R(3) = 1 THEN tp ELSE Pick(U)} :
                 \E cf \in {R(2) = 1} : Rec([op |-> "stall", k |-> c, t |-> tp2, n |-> IF cf THEN 1 ELSE R(4), confirm |-> cf, p |-> p]) /\ UNCHANGED <<ls, gone, tag, msg>>
    [] k <= 98 -> \E p \in {IF R(2) = 1 THEN "L" ELSE "M"} : Rec([op |-> "again", p |-> p]) /\ ls' = {x \in ls : Proc(x[1]) # p} /\ gone' = {x \in gone : Proc(x) # p} /\ UNCHANGED <<tag, msg>>
    [] OTHER -> Rec([op |-> "has", k |-> c, t |-> tp]) /\ UNCHANGED <<ls, gone, tag, msg>>
GInit == hist = <<>> /\ ls = {} /\ gone = {} /\ tag = 1 /\ msg = 1
GNext == IF Len(hist) >= Depth THEN FALSE ELSE \E k \in {R(100)} : Step(k)
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) < Depth \/ JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
