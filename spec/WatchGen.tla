------------------------------- MODULE WatchGen -------------------------------
(* Histories of applications that watch properties; events are not part of them. *)
EXTENDS Watch, Json, IOUtils
CONSTANTS Depth, Profile
VARIABLES hist2, tagn
gvars == <<wvars, hist2, tagn>>
R(n) == RandomElement(1..n)
Pick(s) == RandomElement(s)
Rec(e) == hist2' = Append(hist2, e)
Dur(iv) == IF Profile = "restart" \/ R(3) = 1 THEN 0 ELSE iv * (R(4) - 1) + (IF R(3) = 1 THEN 0 ELSE R(iv) - 1)
Filt(d) == CASE R(5) = 1 -> <<"not", <<"rel", Pick({">", "=", "<="}), R(4) - 1>>>> [] OTHER -> <<"rel", Pick({">", ">=", "<", "<=", "=", "!="}), R(4) - 1>>
Name(d) == CASE R(20) <= 7 -> "A.p" [] R(13) <= 4 /\ okq.on -> "A.q" [] R(9) = 1 -> "A.s" [] R(8) = 1 -> "A.w" [] R(7) <= 2 -> "T.*.x" [] R(2) = 1 -> "T.1.x" [] OTHER -> RN(R(2))
XOf(d) == LET n == Name(d)
              wantiv == IF Profile = "vc" THEN R(6) = 1 ELSE IF Profile = "iv" THEN R(5) # 1 ELSE R(2) = 1
              iv == R(3)
              dur == Dur(iv)
          IN IF wantiv THEN [n |-> n, iv |-> iv, dur |-> dur, f |-> <<>>] ELSE [n |-> n, iv |-> 0, dur |-> 0, f |-> IF R(4) = 1 THEN Filt(R(1000000)) ELSE <<>>]
Plain(s) == [n |-> s.n, iv |-> s.iv, dur |-> s.dur, f |-> s.f]
GSub == \E c \in {Pick(hs)} : \E x \in {XOf(R(1000000))} :
  /\ Subscribe(c, [n |-> x.n, iv |-> x.iv, dur |-> x.dur, f |-> x.f, tag |-> tagn], 0, 0)
  /\ tagn' = tagn + 1
  /\ Rec([op |-> "sub", c |-> c, x |-> [n |-> x.n, iv |-> x.iv, dur |-> x.dur, f |-> x.f, tag |-> tagn]])
GUnsub ==
  IF subs # <<>> /\ R(10) > 1 THEN
    \E s \in {subs[R(Len(subs))]} : Unsubscribe(s.c, Plain(s), 0, 0) /\ Rec([op |-> "unsub", c |-> s.c, x |-> Plain(s)]) /\ UNCHANGED tagn
  ELSE \E c \in {Pick(hs)} : \E x \in {XOf(R(1000000))} : Unsubscribe(c, x, 0, 0) /\ Rec([op |-> "unsub", c |-> c, x |-> x]) /\ UNCHANGED tagn
(* mostly of properties that somebody watches *)
Lively == UNION {{p \in Props \ {"A.w"} : Covers(subs[i].n, p)} : i \in DOMAIN subs}
GVal == \E p \in {IF Lively # {} /\ R(5) > 1 THEN Pick(Lively) ELSE Pick(Props \ {"A.w"})} : \E v \in {R(4) - 1} :
  IF p = "A.p" /\ R(2) = 1 THEN \E c \in {Pick(hs)} : Value(p, v, c, 0, 0) /\ Rec([op |-> "set", n |-> p, v |-> v, c |-> c]) /\ UNCHANGED tagn
  ELSE Value(p, v, "P", 0, 0) /\ Rec([op |-> "val", n |-> p, v |-> v]) /\ UNCHANGED tagn
GRow == \E r \in {R(2)} : IF r \in DOMAIN rows THEN DelRow(r, 0, 0) /\ Rec([op |-> "delrow", r |-> r]) /\ UNCHANGED tagn
                          ELSE AddRow(r, 0, 0) /\ Rec([op |-> "addrow", r |-> r]) /\ UNCHANGED tagn
GHandle == \E c \in {Pick(Handles)} : IF c \in hs THEN IF Cardinality(hs) > 1 THEN Close(c, 0, 0) /\ Rec([op |-> "close", c |-> c]) /\ UNCHANGED tagn ELSE GSub
                                      ELSE Open(c, 0) /\ Rec([op |-> "open", c |-> c]) /\ UNCHANGED tagn
GWait == \E d \in {CASE R(4) = 1 -> 100 + R(600) [] R(3) = 1 -> 4000 + R(2500) [] OTHER -> 1000 + R(2500)} : Wait(0) /\ Rec([op |-> "wait", d |-> d]) /\ UNCHANGED tagn
GKill == \E k \in {Pick({"K", "L"})} : Kill(k, 0, 0) /\ Rec([op |-> "kill", k |-> k]) /\ UNCHANGED tagn
GBack == \E c \in {Pick(Handles \ hs)} : Open(c, 0) /\ Rec([op |-> "open", c |-> c]) /\ UNCHANGED tagn
GFail == Fail(~okq.on, 0, 0) /\ Rec([op |-> "fail", on |-> IF okq.on THEN 0 ELSE 1]) /\ UNCHANGED tagn
GRestart == Restart(0, 0) /\ Rec([op |-> "restart", how |-> Pick({"kill", "close"})]) /\ UNCHANGED tagn
Setup == /\ hist2 = <<>>
         /\ \E s \in {IF R(3) = 1 THEN 300 ELSE 0} : slow' = s /\ Rec([op |-> "setup", slow |-> s])
         /\ UNCHANGED <<now, okq, hist, rows, gone, subs, ended, hs, tagn>>
Go(k) == CASE hs = {} \/ (Profile = "vanish" /\ hs # Handles /\ k % 4 = 0) -> GBack
           [] Profile = "vanish" /\ k % 9 = 1 -> GKill
           [] subs = <<>> -> IF k % 3 = 0 THEN GVal ELSE GSub
           [] Profile # "restart" /\ k % 11 = 5 /\ (~okq.on \/ R(4) = 1 \/ \E i \in DOMAIN subs : subs[i].n = "A.q") -> GFail
           [] k <= 24 -> GSub
           [] k <= 36 -> GUnsub
           [] k <= 60 -> GVal
           [] k <= 86 -> GWait
           [] k <= 93 -> GRow
           [] k <= 96 \/ Profile # "restart" -> GHandle
           [] OTHER -> GRestart
GNext == IF Len(hist2) >= Depth THEN FALSE ELSE IF hist2 = <<>> THEN Setup ELSE \E k \in {R(100)} : Go(k)
GInit == Init /\ hist2 = <<>> /\ tagn = 1
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist2) < Depth \/ JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist2)
=============================================================================
