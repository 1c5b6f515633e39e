------------------------------ MODULE EventsGen ------------------------------
EXTENDS Events, SequencesExt, Json, IOUtils
CONSTANTS Depth, Profile   \* mix, sub, filter, restart, vanish
VARIABLES hist, tags
gvars == <<evars, hist, tags>>
R(S) == RandomElement(S)
Pc(n) == R(1..100) <= n
Ev(r) == hist' = Append(hist, r)
Is(s) == Profile = s
Rel(o, v) == <<"rel", o, v>>
EqOnly == {Rel("=", 1), Rel("!=", 2), <<"not", Rel("=", 1)>>, <<"or", Rel("=", 0), Rel("=", 3)>>, Rel("!=", 1), <<"and", Rel("!=", 0), Rel("!=", 2)>>}
Order == {Rel(">", 1), Rel(">=", 2), Rel("<", 2), Rel("<=", 1), Rel("=", 2), Rel(">", 0), <<"not", Rel(">", 1)>>, <<"and", Rel(">", 0), Rel("<", 3)>>,
          <<"or", Rel("<", 1), Rel(">=", 3)>>, <<"not", <<"and", Rel(">=", 1), Rel("!=", 2)>>>>, <<"or", <<"not", Rel("<=", 2)>>, Rel("=", 0)>>}
Ordered == hist[1].eq = 0
Filters == IF Ordered THEN Order ELSE EqOnly
Odd == {<<"obj">>, <<"not", <<"obj">>>>, <<"or", Rel("=", 1), <<"obj">>>>, <<"and", <<"obj">>, Rel("!=", 2)>>}
Plain == {"E.g!", "E.n!", "E.v", "F.g!", "F.v", "T.", "T.*.ev!", "T.*.v", "T.1.ev!", "T.2.ev!", "T.10.ev!", "T.1.v", "T.2.v", "T.10.v"}
Bad == {"T", "T.9.ev!", "T.9.v", "E.none!", "X.y!"}
Name(d) == IF Pc(6) THEN R(Bad) ELSE IF Is("filter") THEN R({"E.v", "E.v", "E.g!", "F.v", "T.*.v", "T.1.v", "T.2.v"}) ELSE R(Plain)
Filt(n) == IF n = "T." \/ n = "T" THEN <<>> ELSE IF Pc(IF Is("filter") THEN 75 ELSE 25) THEN (IF Pc(4) THEN R(Odd) ELSE R(Filters)) ELSE <<>>
Mine(c) == {i \in DOMAIN cs : cs[i].c = c}
SubOf(c, i, plain) ==
  IF Mine(c) # {} /\ Pc(18) THEN LET s == cs[R({j \in Mine(c) : TRUE})] IN
     IF s.raw THEN [n |-> "E.g!", f |-> <<>>, raw |-> FALSE, tag |-> tags + i, pos |-> FALSE]
     ELSE [n |-> s.n, f |-> IF plain THEN <<>> ELSE s.f, raw |-> FALSE, tag |-> tags + i, pos |-> FALSE]
  ELSE LET n == Name(c) IN [n |-> n, f |-> IF plain THEN <<>> ELSE Filt(n), raw |-> FALSE, tag |-> tags + i, pos |-> ~plain /\ Pc(35)]
RECURSIVE Group(_, _, _)
Group(c, n, i) == IF n = 0 THEN <<>> ELSE LET x == SubOf(c, i, FALSE) IN <<x>> \o Group(c, n - 1, i + 1)
RawName(d) == IF Pc(80) THEN R({"E.g!", "E.n!", "F.g!", "T.1.ev!", "T.2.ev!"}) ELSE R({"E.v", "T.", "T.9.ev!", "E.none!"})
RawOf(i) == [n |-> RawName(i), f |-> <<>>, raw |-> TRUE, tag |-> tags + i, pos |-> FALSE]
(* something to withdraw: mostly something held *)
UnsubOf(c, raw) == LET held == {i \in Mine(c) : cs[i].raw = raw} IN
  IF held # {} /\ Pc(88) THEN LET s == cs[R(held)] IN [n |-> s.n, f |-> s.f, raw |-> raw]
  ELSE LET n == IF raw THEN "E.g!" ELSE Name(c) IN [n |-> n, f |-> IF raw THEN <<>> ELSE Filt(n), raw |-> raw]
RECURSIVE UGroup(_, _, _)
UGroup(c, raw, n) == IF n = 0 THEN <<>> ELSE LET x == UnsubOf(c, raw) IN <<x>> \o UGroup(c, raw, n - 1)
PName(p) == IF Pc(4) THEN (IF p = "P" THEN R({"E.none!", "T.9.ev!", "T.9.v", "F.g!"}) ELSE R({"E.g!", "F.none!"}))
            ELSE LET subs == {cs[i].n : i \in DOMAIN cs} \ {"T.", "T.*.ev!", "T.*.v"} IN
                 LET own == {n \in subs : Info[n].p = p} IN
                 IF own # {} /\ Pc(60) THEN R(own)
                 ELSE IF p = "Q" THEN R({"F.g!", "F.g!", "F.v"})
                 ELSE R({"E.g!", "E.g!", "E.n!", "E.v", "E.v"} \cup {RN(r, x) : r \in rows, x \in {".ev!", ".v"}})
IsEvent(n) == n \in Names /\ Info[n].k = "e"
Pub(p) == LET n == PName(p) IN
  LET t == IF Is("filter") \/ (n \in Names /\ Info[n].k = "p" /\ Pc(80)) THEN (IF Pc(90) THEN "V" ELSE "G")
           ELSE IF IsEvent(n) /\ Pc(25) THEN "R" ELSE IF Pc(85) THEN "G" ELSE "V"
  IN [n |-> n, t |-> t, d |-> R({"d1", "d2", "d3"}), o |-> R(0..3), w |-> R(0..3)]
RECURSIVE Pubs(_, _)
Pubs(p, n) == IF n = 0 THEN <<>> ELSE LET u == Pub(p) IN <<u>> \o Pubs(p, n - 1)
(* a value that moves: each change starts from where the previous one ended *)
RECURSIVE Chain(_, _, _)
Chain(n, o, k) == IF k = 0 THEN <<>> ELSE LET w == R(0..3) IN <<[n |-> n, t |-> "V", d |-> "d1", o |-> o, w |-> w]>> \o Chain(n, w, k - 1)
Load(us) == LET m == [x \in DOMAIN us |-> Cardinality(Reaches(IF us[x].n \in Names THEN Info[us[x].n].p ELSE "P", us[x]))] IN FoldSeq(LAMBDA a, b : a + b, 0, m)
Small(us) == IF Load(us) <= 18 THEN us ELSE SubSeq(us, 1, 2)
Raced == {"E.g!", "E.n!", "E.v", "F.g!", "T.*.ev!", "T.1.ev!"}
InstOf(n) == IF n = "T.*.ev!" THEN "T.1.ev!" ELSE n
CanRace(n) == Exists(InstOf(n)) /\ RefusalOf(n) = 0 /\ \A i \in DOMAIN cs : ~cs[i].dirty
Subs(c) == IF Pc(25) THEN "plain" ELSE IF Pc(15) THEN "raw" ELSE "ex"
DoSub(c) == \E k \in {Subs(c)} : \E xs \in {CASE k = "plain" -> <<SubOf(c, 1, TRUE)>> [] k = "raw" -> <<RawOf(1)>>
                                          [] OTHER -> Group(c, IF Pc(60) THEN 1 ELSE R(2..3), 1)} :
              /\ Subscribe(c, xs) /\ tags' = tags + Len(xs)
              /\ Ev([op |-> "sub", c |-> c, how |-> k, xs |-> xs, to |-> \A x \in ToSet(xs) : Reached(x.n)])
DoUnsub(c) == \E k \in {Subs(c)} : \E xs \in {CASE k = "plain" -> <<[UnsubOf(c, FALSE) EXCEPT !.f = <<>>]>> [] k = "raw" -> <<UnsubOf(c, TRUE)>>
                                          [] OTHER -> UGroup(c, FALSE, IF Pc(70) THEN 1 ELSE R(2..3))} :
              Unsubscribe(c, xs) /\ tags' = tags /\ Ev([op |-> "unsub", c |-> c, how |-> k, xs |-> xs])
DoHas(c) == \E x \in {UnsubOf(c, FALSE)} : IF Withdrawn(c, x) THEN DoSub(c) ELSE Quiet /\ UNCHANGED <<up, rows, vals, refuse, hs, ps, cs, tags>>
                                         /\ Ev([op |-> "has", c |-> c, x |-> x])
DoBurst(p) == \E us \in {Small(IF Is("filter") /\ Pc(60) THEN Chain(R(({cs[i].n : i \in DOMAIN cs} \cap Props) \cup {IF p = "P" THEN "E.v" ELSE "F.v"}), R(0..3), R(2..6))
                               ELSE Pubs(p, IF Pc(50) THEN 1 ELSE R(2..6)))} :
              Publish(p, us) /\ tags' = tags /\ Ev([op |-> "pub", p |-> p, us |-> us])
Same(u, n) == [x \in 1..n |-> [n |-> InstOf(u), t |-> "G", d |-> "r" \o ToString(x), o |-> 0, w |-> 0]]
(* while the provider publishes, one more consumer subscribes to what it publishes or withdraws *)
DoRace(c) == \E n \in {R(Raced)} : \E us \in {Same(n, R(3..9))} : \E k \in {<<c, n, <<>>, FALSE>>} :
             IF ~CanRace(n) \/ Load(us) > 14 THEN DoSub(c) ELSE
             /\ IF At(cs, k) = {} THEN Subscribe(c, <<[n |-> n, f |-> <<>>, raw |-> FALSE, tag |-> tags + 1, pos |-> FALSE]>>)
                ELSE Unsubscribe(c, <<[n |-> n, f |-> <<>>, raw |-> FALSE]>>)
             /\ tags' = tags + 1
             /\ Ev([op |-> "race", p |-> Info[n].p, c |-> c, x |-> [n |-> n, f |-> <<>>, raw |-> FALSE, tag |-> tags + 1, pos |-> FALSE],
                    kind |-> IF At(cs, k) = {} THEN "sub" ELSE "unsub", us |-> us])
MayRestart(p) == \A i \in DOMAIN ps : Info[ps[i].n].p = p => ~(ps[i].raw /\ RefusalOf(ps[i].n) # 0)
W(a, b, c, d, e) == CASE Is("mix") -> a [] Is("sub") -> b [] Is("filter") -> c [] Is("restart") -> d [] OTHER -> e
Tick == \E n \in {R(Props)} : \E v \in {R(0..3)} : SetVal(n, v) /\ tags' = tags /\ Ev([op |-> "val", n |-> n, v |-> v])
Act(z) ==
  CASE z \in {"sub", "unsub", "has", "race", "close"} /\ hs # {} -> \E c \in {R(hs)} :
         (CASE z = "sub" -> DoSub(c) [] z = "unsub" -> DoUnsub(c)
            [] z = "has" -> DoHas(c)
            [] z = "race" -> DoRace(c)
            [] z = "close" -> CloseHandle(c) /\ tags' = tags /\ Ev([op |-> "close", c |-> c]))
    [] z = "pub" /\ up # {} -> \E p \in {IF "P" \in up /\ Pc(75) THEN "P" ELSE R(up)} : DoBurst(p)
    [] z = "row" /\ "P" \in up -> \E r \in {R(Rows)} : tags' = tags /\
         IF r \in rows THEN DelRow(r) /\ Ev([op |-> "delrow", r |-> r, how |-> R({"prov", "cons"})])
         ELSE \E a \in {R({"", "al" \o ToString(r)})} : AddRow(r, a) /\ Ev([op |-> "addrow", r |-> r, alias |-> a])
    [] z = "refuse" -> \E n \in {R({"E.g!", "E.v", "F.g!", "T.", "T.1.ev!", "T.*.ev!", "T.2.v"})} : \E code \in {IF n \in DOMAIN refuse THEN 0 ELSE R({1, 2, 9, 18, 30})} :
         Refuse(n, code) /\ tags' = tags /\ Ev([op |-> "refuse", n |-> n, code |-> code])
    [] z = "down" /\ up # {} -> \E p \in {R(up)} : IF MayRestart(p) THEN Down(p) /\ tags' = tags /\ Ev([op |-> "down", p |-> p, how |-> R({"kill", "close"})]) ELSE Tick
    [] z = "up" -> \E p \in {R({"P", "Q"} \ up)} : Up(p) /\ tags' = tags /\ Ev([op |-> "up", p |-> p])
    [] z = "open" -> \E c \in {R(Handles \ hs)} : Open(c) /\ tags' = tags /\ Ev([op |-> "open", c |-> c])
    [] z = "kill" -> \E a \in {R({"K", "L"})} : Kill(a) /\ tags' = tags /\ Ev([op |-> "kill", a |-> a])
    [] OTHER -> Tick
Pick(q) == LET n == R(1..100) IN
  LET RECURSIVE F(_, _) F(i, m) == IF i = Len(q) \/ n <= m + q[i][2] THEN q[i][1] ELSE F(i + 1, m + q[i][2]) IN F(1, 0)
Table == W(<<<<"sub", 30>>, <<"unsub", 8>>, <<"pub", 30>>, <<"race", 12>>, <<"row", 10>>, <<"refuse", 2>>, <<"val", 2>>, <<"close", 3>>, <<"has", 3>>>>,
           <<<<"sub", 46>>, <<"unsub", 17>>, <<"pub", 6>>, <<"race", 2>>, <<"row", 6>>, <<"refuse", 8>>, <<"val", 5>>, <<"close", 3>>, <<"down", 2>>, <<"has", 5>>>>,
           <<<<"sub", 28>>, <<"unsub", 10>>, <<"pub", 52>>, <<"row", 4>>, <<"close", 3>>, <<"down", 3>>>>,
           <<<<"sub", 30>>, <<"unsub", 11>>, <<"pub", 20>>, <<"row", 14>>, <<"refuse", 3>>, <<"val", 1>>, <<"close", 4>>, <<"down", 12>>, <<"has", 5>>>>,
           <<<<"sub", 36>>, <<"unsub", 6>>, <<"pub", 22>>, <<"row", 8>>, <<"kill", 10>>, <<"close", 7>>, <<"down", 6>>, <<"race", 5>>>>)
(* a consumer or provider that is gone is soon back *)
GNext ==
  /\ Len(hist) < Depth
  /\ IF hist = <<>> THEN \E eq \in {IF R({1, 2, 3, 4}) = 1 THEN 1 ELSE 0} : Ev([op |-> "setup", watch |-> Profile = "vanish", eq |-> eq]) /\ UNCHANGED <<evars, tags>>
     ELSE \E z \in {IF up # {"P", "Q"} /\ Pc(30) THEN "up" ELSE IF hs # Handles /\ Pc(35) THEN "open" ELSE Pick(Table)} : Act(z)
GInit == Init /\ hist = <<>> /\ tags = 0
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) = Depth => JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
