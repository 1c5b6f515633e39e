---------------------------- MODULE HandlesGen -----------------------------
(* Histories of handles opened and closed again in two processes, what they register, subscribe and listen to, uses of closed handles,
   and closing while requests, events and messages arrive. *)
EXTENDS Handles, TLC, Json, IOUtils
CONSTANTS Depth
VARIABLES hist, H, M, old, tag, out
(* out: events whose provider has gone for good *)
gvars == <<hist, H, M, old, tag, out>>
R(n) == RandomElement(1..n)
Pick(S) == RandomElement(S)
Rec(e) == hist' = Append(hist, e)
Slots == {"a", "b", "e", "c", "d"}
Comps == {"cA", "cB", "cC", "cAB"}
Els == {"X.a", "X.b", "Y.a", "Y.b"}
Evs == {"O.e", "O.f", "O.g"}
Tops == {"t.1", "t.2"}
Open == {h.s : h \in H}
Closed == Slots \ Open
Same == UNCHANGED <<H, M, old, tag, out>>
Drop(s) == {m \in M : m.s # s}
Uses == {"close", "reg", "unreg", "get", "set", "sub", "unsub", "invoke"}
Els1(z) == [i \in 1..R(6) |-> Pick(Els)]
(* those that have subscribed where nobody provides any more, and to something else *)
Cut(o) == {s \in Open : (\E m \in Kind(Made(M, s), "sub") : m.x \in o) /\ (\E m \in Kind(Made(M, s), "sub") : m.x \notin o)}
Prefer(S, T) == IF S # {} /\ R(3) # 1 THEN S ELSE T
Undoable == {m \in M : m.k # "watch" /\ m.x \notin out}
Reopen(s, c) == LET P == Named(H, Proc(s), c) IN {h.s : h \in P}
Do(k) ==
  CASE (k <= 14 \/ H = {}) /\ Closed # {} -> \E s \in {Pick(Closed)} : \E c \in {Pick(Comps)} :
          /\ Rec([op |-> "open", s |-> s, c |-> c, tag |-> tag]) /\ tag' = tag + 1
               /\ H' = {h \in H : h.s \notin Reopen(s, c)} \cup {[s |-> s, c |-> c]} /\ M' = {m \in M : m.s \notin Reopen(s, c)}
               /\ old' = (old \cup Reopen(s, c)) \ {s} /\ UNCHANGED out
    [] k <= 21 /\ H # {} -> \E s \in {Pick(Prefer(Cut(out), Open))} : Rec([op |-> "close", s |-> s]) /\ H' = {h \in H : h.s # s} /\ M' = Drop(s) /\ old' = old \cup {s} /\ UNCHANGED <<tag, out>>
    [] k <= 38 /\ H # {} -> \E s \in {Pick(Open)} : \E x \in {Pick(Els)} :
          IF Owner(M, x) = {} THEN Rec([op |-> "make", s |-> s, k |-> "el", x |-> x, tag |-> tag]) /\ M' = M \cup {[s |-> s, k |-> "el", x |-> x]} /\ tag' = tag + 1 /\ UNCHANGED <<H, old, out>>
          ELSE IF Owner(Drop(s), x) # {} THEN Rec([op |-> "make", s |-> s, k |-> "el", x |-> x, tag |-> tag]) /\ tag' = tag + 1 /\ UNCHANGED <<H, M, old, out>>
          ELSE Rec([op |-> "get", s |-> s, x |-> x]) /\ Same
    [] k <= 48 /\ H # {} -> \E s \in {Pick(Open)} : \E x \in {Pick(Evs \ out)} : Rec([op |-> "make", s |-> s, k |-> "sub", x |-> x, tag |-> tag]) /\ M' = M \cup {[s |-> s, k |-> "sub", x |-> x]} /\ tag' = tag + 1 /\ UNCHANGED <<H, old, out>>
    [] k <= 55 /\ H # {} -> \E s \in {Pick(Open)} : \E x \in {Pick(Tops)} :
          IF Hearing(Made(M, s), "msg", x) # {} THEN Rec([op |-> "get", s |-> s, x |-> Pick(Els)]) /\ Same
          ELSE Rec([op |-> "make", s |-> s, k |-> "msg", x |-> x, tag |-> tag]) /\ M' = M \cup {[s |-> s, k |-> "msg", x |-> x]} /\ tag' = tag + 1 /\ UNCHANGED <<H, old, out>>
    [] k <= 60 /\ Undoable # {} -> \E m \in {Pick(Undoable)} : Rec([op |-> "undo", s |-> m.s, k |-> m.k, x |-> m.x]) /\ M' = M \ {m} /\ UNCHANGED <<H, old, tag, out>>
    [] k <= 62 /\ H # {} -> \E s \in {Pick(Open)} : \E kk \in {Pick({"el", "sub", "msg"})} : \E x \in {Pick(CASE kk = "el" -> Els [] kk = "sub" -> Evs \ out [] OTHER -> Tops)} :
          Rec([op |-> "undo", s |-> s, k |-> kk, x |-> x]) /\ M' = M \ {m \in M : m.s = s /\ m.k = kk /\ m.x = x} /\ UNCHANGED <<H, old, tag, out>>
    [] k <= 68 /\ H # {} -> \E s \in {Pick(Open)} : Rec([op |-> "get", s |-> s, x |-> Pick(Els)]) /\ Same
    [] k <= 73 /\ H # {} /\ Cardinality(Kind(M, "watch")) < 3 -> \E s \in {Pick(Open)} :
          /\ Rec([op |-> "watch", s |-> s, k |-> "watch", x |-> "W." \o ToString(tag), tag |-> tag, iv |-> R(2) = 1])
          /\ M' = M \cup {[s |-> s, k |-> "watch", x |-> "W." \o ToString(tag)]} /\ tag' = tag + 1 /\ UNCHANGED <<H, old, out>>
    [] k <= 77 /\ tag > 1 /\ (Kind(M, "watch") # {} \/ R(4) = 1) -> Rec([op |-> "look"]) /\ Same
    [] k <= 82 -> Rec([op |-> "probe"]) /\ Same
    [] k <= 86 /\ old # {} -> \E s \in {Pick(old)} : Rec([op |-> "use", s |-> s, what |-> Pick(Uses)]) /\ Same
    [] k <= 95 /\ H # {} -> \E s \in {Pick(Open)} : \E c \in {CHOOSE h \in H : h.s = s} : \E again \in {R(3) = 1} :
          /\ Rec([op |-> "race", s |-> s, els |-> Els1(0), ev |-> Pick(Evs \ out), t |-> Pick(Tops), n |-> R(10), slow |-> R(2) = 1, again |-> again, c |-> c.c, tag |-> tag])
          /\ tag' = tag + 1 /\ M' = Drop(s) /\ H' = (IF again THEN H ELSE H \ {c}) /\ old' = (IF again THEN old ELSE old \cup {s}) /\ UNCHANGED out
    [] k <= 97 -> \E p \in {IF R(2) = 1 THEN "P" ELSE "Q"} : Rec([op |-> "kill", p |-> p]) /\ H' = {h \in H : Proc(h.s) # p} /\ M' = {m \in M : Proc(m.s) # p}
                                                             /\ old' = {s \in old : Proc(s) # p} /\ UNCHANGED <<tag, out>>
    [] k <= 100 /\ Cardinality(Evs \ out) > 1 -> \E x \in {Pick(Prefer({x \in Evs \ out : Cut({x}) # {}}, Evs \ out))} :
          Rec([op |-> "away", x |-> x]) /\ out' = out \cup {x} /\ UNCHANGED <<H, M, old, tag>>
    [] OTHER -> Rec([op |-> "probe"]) /\ Same
GInit == hist = <<>> /\ H = {} /\ M = {} /\ old = {} /\ tag = 1 /\ out = {}
GNext == IF Len(hist) >= Depth THEN FALSE ELSE \E k \in {R(100)} : Do(k)
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) < Depth \/ JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
