----------------------------- MODULE AsyncSubGen -----------------------------
(* Histories of asynchronous subscriptions, of the provider's comings and goings, and of what else happens meanwhile. *)
EXTENDS AsyncSub, Json, IOUtils
CONSTANTS Depth, Profile
VARIABLES hist, tagn, codes, creg, vtag
gvars == <<avars, hist, tagn, codes, creg, vtag>>
R(n) == RandomElement(1..n)
Pick(s) == RandomElement(s)
Rec(e) == hist' = Append(hist, e)
PUp == Up("E.a")
Lims == {3000, 6000, 9000, 14000}
XOf(d) == LET n == IF R(3) = 1 THEN "E.a" ELSE Pick(Names) IN
          [n |-> n, f |-> IF n = "A.p" \/ R(2) = 1 THEN 0 ELSE R(2), iv |-> IF n = "A.p" THEN 1000 ELSE 0]
Tagged(x, k) == [n |-> x.n, f |-> x.f, iv |-> x.iv, tag |-> tagn + k]
Keep == UNCHANGED <<codes, creg, vtag>>
(* what is not pending any more, as far as we care here *)
Resolve == /\ subs' = subs \o [i \in DOMAIN SelectSeq(pend, LAMBDA p : Cur(p.n).v = 0) |-> LET p == SelectSeq(pend, LAMBDA q : Cur(q.n).v = 0)[i] IN
                                   [c |-> p.c, n |-> p.n, f |-> p.f, iv |-> p.iv, tag |-> p.tag, at |-> 0, last |-> 0]]
           /\ pend' = SelectSeq(pend, LAMBDA p : ~Up(p.n))
GAsync == \E c \in {Pick(DOMAIN hs)} : \E lim \in {IF R(4) = 1 THEN 1000 * (1 + R(4)) ELSE 0} :
            \E k \in {IF slow > 0 THEN 1 ELSE IF R(3) = 1 THEN R(3) ELSE 1} : \E xs \in {[j \in 1..k |-> Tagged(XOf(R(1000000)), j)]} :
  /\ Async(c, xs, lim, IF BadItem(c, xs) = {} THEN 0 ELSE 24, 0, 0) /\ tagn' = tagn + k /\ Keep
  /\ Rec([op |-> "async", c |-> c, xs |-> xs, lim |-> lim])
Some(q) == LET s == q[R(Len(q))] IN [c |-> s.c, x |-> [n |-> s.n, f |-> s.f, iv |-> s.iv]]
GUnsub == \E s \in {IF pend # <<>> /\ R(4) > 1 THEN Some(pend) ELSE IF subs # <<>> THEN Some(subs) ELSE [c |-> Pick(DOMAIN hs), x |-> XOf(R(100))]} :
  \E how \in {IF s.x.f = 0 /\ s.x.iv = 0 /\ R(4) = 1 THEN "one" ELSE "ex"} :
  /\ Unsub(s.c, s.x, how, 0, 0, 0) /\ UNCHANGED tagn /\ Keep /\ Rec([op |-> "unsub", c |-> s.c, x |-> s.x, how |-> how])
GSync == \E c \in {Pick(DOMAIN hs)} : \E x \in {Tagged(XOf(R(100)), 1)} :
  Sync(c, x, IF Exists(c, x) THEN 24 ELSE IF ~Up(x.n) THEN 20 ELSE Cur(x.n).v, 0, 0) /\ tagn' = tagn + 1 /\ Keep /\ Rec([op |-> "sync", c |-> c, x |-> x])
Set(n, v) == n :> v
GStart == UNCHANGED vtag /\ Change(("E.a" :> codes["E.a"]) @@ ("E.b" :> codes["E.b"]) @@ ("A.p" :> 0), 0, 0) /\ UNCHANGED <<tagn, codes, creg>> /\ Rec([op |-> "pstart"])
GVanish == Change([n \in Names |-> -1], 0, 0) /\ creg' = FALSE /\ UNCHANGED tagn /\ codes' = [n \in DOMAIN codes |-> 0] /\ vtag' = tagn /\ Rec([op |-> "pkill", how |-> Pick({"kill", "close"})])
GReg == Change(Set("E.c", codes["E.c"]), 0, 0) /\ creg' = TRUE /\ UNCHANGED <<tagn, codes, vtag>> /\ Rec([op |-> "regc"])
(* P when it comes back asks its handler again about the subscriptions it had: not refused here *)
Had(n) == ~Up(n) /\ ((\E i \in DOMAIN subs : subs[i].n = n) \/ (\E i \in DOMAIN pend : pend[i].n = n /\ pend[i].tag <= vtag))
GRefuse == \E n \in {Pick({"E.a", "E.b", "E.c"})} : \E v \in {IF codes[n] # 0 \/ Had(n) THEN 0 ELSE Pick({1, 9, 18})} :
  /\ codes' = [codes EXCEPT ![n] = v] /\ UNCHANGED <<tagn, creg, vtag>> /\ Rec([op |-> "refuse", n |-> n, v |-> v])
  /\ IF Up(n) THEN Change(Set(n, v), 0, 0) ELSE UNCHANGED avars
GPub == \E n \in {IF subs # <<>> /\ R(3) > 1 THEN (LET s == subs[R(Len(subs))].n IN IF Up(s) /\ s # "A.p" THEN s ELSE "E.a") ELSE Pick({"E.a", "E.b"})} :
  Publish(n, Len(hist), 0, 0) /\ UNCHANGED tagn /\ Keep /\ Rec([op |-> "publish", n |-> n, d |-> Len(hist)])
GWait == \E d \in {CASE R(4) = 1 -> R(300) [] R(3) = 1 -> 2500 + R(3500) [] OTHER -> 500 + R(2000)} :
  Resolve /\ UNCHANGED <<now, ans, slow, hs, ended, odd, pubs, tagn>> /\ Keep /\ Rec([op |-> "wait", d |-> d])
GHandle == \E c \in {Pick(Handles)} : IF c \in DOMAIN hs THEN Close(c, 0, 0) /\ UNCHANGED tagn /\ Keep /\ Rec([op |-> "close", c |-> c])
                                      ELSE \E l \in {Pick(Lims)} : Open(c, l, 0) /\ UNCHANGED tagn /\ Keep /\ Rec([op |-> "open", c |-> c, lim |-> l])
GClosePending == \E c \in {pend[R(Len(pend))].c} : Close(c, 0, 0) /\ UNCHANGED tagn /\ Keep /\ Rec([op |-> "close", c |-> c])
GOpen == \E c \in {Pick(Handles \ DOMAIN hs)} : \E l \in {Pick(Lims)} : Open(c, l, 0) /\ UNCHANGED tagn /\ Keep /\ Rec([op |-> "open", c |-> c, lim |-> l])
GKill == \E k \in {Pick({"K", "L"})} : Kill(k, 0, 0) /\ UNCHANGED tagn /\ Keep /\ Rec([op |-> "kill", k |-> k])
GSlow(k) == Rec([op |-> "respslow", n |-> Pick(Names), x |-> Pick({0, 200})]) /\ UNCHANGED <<avars, tagn>> /\ Keep
Setup == /\ hist = <<>> /\ slow' \in {IF R(3) = 1 THEN 300 ELSE 0}
         /\ Rec([op |-> "setup", slow |-> slow', lims |-> [c \in Handles |-> Pick(Lims)]]) /\ UNCHANGED <<now, ans, hs, pend, subs, ended, odd, pubs, tagn>> /\ Keep
Go(k) == CASE DOMAIN hs = {} -> GOpen
           (* requests that wait for P for more than a second fail *)
           [] k <= 30 -> IF slow > 0 /\ Len(pend) >= 2 THEN GWait ELSE GAsync
           [] k <= 36 -> GUnsub
           [] k <= 40 -> GSync
           [] k <= 52 -> IF ~PUp THEN GStart ELSE IF ~creg /\ R(2) = 1 THEN GReg ELSE IF R(3) = 1 THEN GVanish ELSE GWait
           [] k <= 57 -> GRefuse
           [] k <= 70 -> IF PUp THEN GPub ELSE GWait
           [] k <= 90 -> GWait
           [] k <= 96 -> IF DOMAIN hs # Handles /\ R(2) = 1 THEN GOpen ELSE IF pend # <<>> THEN GClosePending ELSE GHandle
           [] k <= 98 -> IF Profile = "kill" THEN GKill ELSE GUnsub
           [] OTHER -> GSlow(0)
GNext == IF Len(hist) >= Depth THEN FALSE ELSE IF hist = <<>> THEN Setup ELSE \E k \in {R(100)} : Go(k)
GInit == Init /\ hist = <<>> /\ tagn = 0 /\ codes = [n \in {"E.a", "E.b", "E.c"} |-> 0] /\ creg = FALSE /\ vtag = 0
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) < Depth \/ JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
