---------------------------- MODULE DataModelGen ----------------------------
(* Generator: random histories of DataModel, written out for replay against the real library. *)
EXTENDS DataModel, Json, IOUtils
CONSTANTS Depth, Profile
VARIABLE hist
gvars == <<reg, rows, vals, cfg, nexti, ghosts, tsub, ans, calls, notes, hist>>
GComp == {"P", "Q"}
E(p, k, f) == [p |-> p, k |-> k, f |-> f]
(* tables before what is beneath them *)
CatP == <<E(<<"A", "x">>, "p", {"g", "s"}), E(<<"A", "y">>, "p", {"g"}), E(<<"A", "z">>, "p", {"s"}), E(<<"A", "w">>, "p", {}),
          E(<<"A", "ev!">>, "e", {"e"}), E(<<"A", "m()">>, "m", {"m"}), E(<<"A", "B", "x">>, "p", {"g", "s"}),
          E(<<"T", Cu>>, "t", {"a", "r"}), E(<<"T", Cu, "x">>, "p", {"g", "s"}), E(<<"T", Cu, "y">>, "p", {"g"}),
          E(<<"T", Cu, "O", "x">>, "p", {"g", "s"}),
          E(<<"T", Cu, "U", Cu>>, "t", {"a", "r"}), E(<<"T", Cu, "U", Cu, "z">>, "p", {"g", "s"}), E(<<"T", Cu, "m()">>, "m", {"m"})>>
CatQ == <<E(<<"B", "x">>, "p", {"g", "s"}), E(<<"A", "q">>, "p", {"g", "s"}), E(<<"A", "B", "q">>, "p", {"g"}),
          E(<<"V", Cu>>, "t", {"a"}), E(<<"V", Cu, "x">>, "p", {"g", "s"}), E(<<"W", Cu>>, "t", {}), E(<<"W", Cu, "n">>, "p", {"g", "s"})>>
Either == {E(<<"S", "x">>, "p", {"g", "s"}), E(<<"A", "s">>, "p", {"g", "s"}), E(<<"Top">>, "p", {"g", "s"})}
Cat(c) == IF c = "P" THEN CatP ELSE CatQ
Late == {E(<<"T", Cu, "y">>, "p", {"g"}), E(<<"A", "y">>, "p", {"g"}), E(<<"A", "B", "q">>, "p", {"g"})} \* may be registered later
Values == {"v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8"}
Codes == {1, 4, 7, 9, 17, 18, 23, 27, 28, 30}
Users == {"K", "K2"}
R(S) == RandomElement(S)
Pc(n) == R(1..100) <= n
Ev(r) == hist' = Append(hist, r)
(* ---- names to operate on ---- *)
RowP(c) == {r.p : r \in Rows(c)}
(* an instance of template t: rows that exist, now and then one that does not, now and then by alias *)
RECURSIVE Inst(_, _, _)
Inst(c, t, n) ==
  IF t = <<>> THEN n
  ELSE IF Head(t) = Cu
  THEN LET s == {r \in Rows(c) : Front(r.p) = n} IN
       IF s = {} \/ Pc(5) THEN Inst(c, Tail(t), Append(n, R({"1", "2", "77"})))
       ELSE Inst(c, Tail(t), R(s).p)
  ELSE Inst(c, Tail(t), Append(n, Head(t)))
AliasNames == {"al", "alpha", "a", "be", "x y", "1a", "1", "1ab"}
(* write one of the rows of a name as its alias *)
AliasAt(c, p) == {i \in DOMAIN p : \E r \in Rows(c) : r.p = SubSeq(p, 1, i) /\ r.alias # ""}
Aliased(c, p) == LET s == AliasAt(c, p) IN
                 IF s = {} THEN p
                 ELSE LET i == R(s) r == CHOOSE x \in Rows(c) : x.p = SubSeq(p, 1, i) IN
                      [p EXCEPT ![i] = "[" \o (IF Pc(15) THEN R(AliasNames) ELSE r.alias) \o "]"]
PropT == UNION {{c} \X {x \in Elems(c) : reg[c][x].k = "p"} : c \in Comp}
AnyT == UNION {{c} \X Elems(c) : c \in Comp}
TabT == {x \in AnyT : reg[x[1]][x[2]].k = "t"}
Unknown == {<<"Nope">>, <<"A", "nope">>, <<"A">>, <<"T">>, <<"T", "1", "nope">>, <<"S", "x">>, <<"A", "s">>, <<"Top">>, <<"A", "B">>, <<"T", "1">>, <<"A", "y">>}
PropName == IF PropT = {} \/ Pc(6) THEN R(Unknown)
            ELSE LET x == R(IF Pc(12) THEN AnyT ELSE PropT) n == Inst(x[1], x[2], <<>>) IN IF Pc(15) THEN Aliased(x[1], n) ELSE n
GoodProp == LET x == R(PropT) IN Inst(x[1], x[2], <<>>)
NumProp == IF PropT = {} \/ Pc(4) THEN R({<<"Nope">>, <<"A", "nope">>}) ELSE GoodProp
SetProp == LET s == {x \in PropT : "s" \in reg[x[1]][x[2]].f} IN
           IF s = {} \/ Pc(10) THEN NumProp ELSE LET x == R(s) IN Inst(x[1], x[2], <<>>)
TableName == IF TabT = {} \/ Pc(5) THEN R({<<"A">>, <<"Nope">>, <<"T", "99", "U">>})
             ELSE LET x == R(TabT) n == Inst(x[1], Front(x[2]), <<>>) IN IF Pc(15) THEN Aliased(x[1], n) ELSE n
RowName == IF rows = <<>> \/ Pc(8) THEN R({<<"T", "99">>, <<"A", "x">>, <<"V", "1">>, <<"T", "1", "U", "9">>})
           ELSE LET r == R(ToSet(rows)) IN IF Pc(15) THEN Aliased(r.c, r.p) ELSE r.p
Star(p, c) == LET s == {i \in DOMAIN p : \E r \in Rows(c) : r.p = SubSeq(p, 1, i)} IN IF s = {} THEN p ELSE [p EXCEPT ![R(s)] = "*"]
(* a wildcard name *)
WildName ==
  LET x == R(AnyT)  n == Inst(x[1], x[2], <<>>)  k == R(1..100)
      most == IF reg[x[1]][x[2]].k = "t" THEN Len(n) ELSE Len(n) - 1     \* longest partial path
      tabs == {i \in DOMAIN n : x[2][i] = Cu}
  IN
  CASE most = 0 -> <<R({<<"A">>, <<"T">>}), TRUE>>
    [] k <= 30 -> <<SubSeq(n, 1, R(1..most)), TRUE>>
    [] k <= 60 -> LET m == Star(n, x[1]) IN IF "*" \in ToSet(m) THEN <<m, FALSE>> ELSE <<SubSeq(n, 1, R(1..most)), TRUE>>
    [] k <= 75 -> LET m == Star(Star(n, x[1]), x[1]) IN IF "*" \in ToSet(m) THEN <<m, FALSE>> ELSE <<SubSeq(n, 1, most), TRUE>>
    [] k <= 85 -> <<SubSeq(Star(n, x[1]), 1, R(1..most)), TRUE>>
    [] k <= 93 -> <<SubSeq(Aliased(x[1], n), 1, R(1..most)), TRUE>>
    [] k <= 96 /\ tabs # {} -> <<Append(SubSeq(n, 1, R(tabs) - 1), "*"), FALSE>>
    [] OTHER -> <<R({<<"Nope">>, <<"T", "99">>, <<"A">>, <<"T">>, <<"T", "*">>}), TRUE>>
InfoName == LET x == R(AnyT)  n == Inst(x[1], x[2], <<>>) IN
            IF reg[x[1]][x[2]].k # "t" /\ (Len(n) = 1 \/ Pc(15)) THEN <<n, FALSE>>
            ELSE LET m == IF Pc(15) THEN Aliased(x[1], n) ELSE n IN <<SubSeq(m, 1, R(1..(IF reg[x[1]][x[2]].k = "t" THEN Len(n) ELSE Len(n) - 1))), TRUE>>
GhostClear(p) == ghosts = {}
(* aliases are the application's to keep distinct within a table *)
Alias(tp) == IF Pc(50) THEN "" ELSE R((AliasNames \cup {"q" \o ToString(Len(hist))}) \ {r.alias : r \in {x \in ToSet(rows) : Front(x.p) = tp}})
(* ---- operations with their record ---- *)
DoReg(c, els) == els # <<>> /\ Register(c, els) /\ Ev([op |-> "reg", c |-> c, els |-> [i \in DOMAIN els |-> [p |-> els[i].p, k |-> els[i].k, f |-> SetToSeq(els[i].f)]]])
DoUnreg(c, ps) == ps # {} /\ Unregister(c, ps) /\ Ev([op |-> "unreg", c |-> c, ps |-> [i \in DOMAIN SetToSeq(ps) |-> [p |-> SetToSeq(ps)[i], k |-> reg[c][SetToSeq(ps)[i]].k]]])
DoGet(k, p, d) == Get(k, p, d) /\ Ev([op |-> "get", k |-> k, p |-> p, dot |-> d])
DoSet(k, p, d, v, s, m) == Set(k, p, d, v, s, m) /\ Ev([op |-> "set", k |-> k, p |-> p, dot |-> d, v |-> v, session |-> s, commit |-> m])
DoGetMany(k, ps) == GetMany(k, ps) /\ Ev([op |-> "getm", k |-> k, ps |-> ps])
DoGetWild(k, p, d) == GetWild(k, p, d) /\ Ev([op |-> "getw", k |-> k, p |-> p, dot |-> d])
DoSetMany(k, ps, s, m) == SetMany(k, ps, s, m) /\ Ev([op |-> "setm", k |-> k, ps |-> ps, session |-> s, commit |-> m])
DoAddRow(k, p, d, a) == AddRow(k, p, d, a) /\ Ev([op |-> "addrow", k |-> k, p |-> p, dot |-> d, alias |-> a])
DoDelRow(k, p, d) == DelRow(k, p, d) /\ Ev([op |-> "delrow", k |-> k, p |-> p, dot |-> d])
DoRegRow(c, p, i, a) == RegRow(c, p, i, a) /\ Ev([op |-> "regrow", c |-> c, p |-> p, inst |-> i, alias |-> a])
DoUnregRow(c, p) == UnregRow(c, p) /\ Ev([op |-> "unregrow", c |-> c, p |-> p])
DoRows(k, p, d) == RowNames(k, p, d) /\ Ev([op |-> "rows", k |-> k, p |-> p, dot |-> d])
DoInfo(k, p, dot, d) == Info(k, p, dot, d) /\ Ev([op |-> "info", k |-> k, p |-> p, dot |-> dot, depth |-> d])
DoStore(c, p, v) == Store(c, p, v) /\ Ev([op |-> "store", c |-> c, p |-> p, v |-> v])
DoCfg(c, kd, p, v, code) == Configure(c, kd, p, v, code) /\ Ev([op |-> "cfg", c |-> c, kind |-> kd, p |-> p, v |-> v, code |-> code])
DoSubT(k, p) == SubTable(k, p) /\ Ev([op |-> "subt", k |-> k, p |-> p])
Without(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
(* a component registers most of its elements at first *)
FirstReg(c) == LET s == Cat(c) d == {e \in Late : Pc(50)} IN SelectSeq(s, LAMBDA e : e \notin d)
Missing(c) == {e \in ToSet(Cat(c)) \cup Either : e.p \notin Elems(c) /\ e.k # "t" /\ ~\E g \in ghosts : g[2] = e.p /\ g[1] # c}
(* names a component may give up: properties that nothing else lies beneath *)
Droppable(c) == {t \in Elems(c) : reg[c][t].k = "p" /\ ~\E i \in DOMAIN t : t[i] = Cu}
(* per cent: register more, duplicate registration, unregister, get, set, get many, wildcard, set many,
   add row, remove row, provider add, provider remove, row names, store, refusals *)
Weights == CASE Profile = "set"   -> <<2, 1, 2, 8, 10, 3, 2, 42, 5, 2, 1, 1, 1, 10, 10>>
             [] Profile = "wild"  -> <<3, 1, 0, 4, 3, 13, 28, 3, 9, 4, 3, 1, 11, 16, 1>>
             [] Profile = "table" -> <<1, 0, 0, 9, 5, 1, 10, 1, 22, 14, 8, 6, 16, 4, 3>>
             [] OTHER             -> <<3, 2, 3, 30, 24, 4, 4, 4, 6, 2, 2, 1, 1, 8, 6>>
RECURSIVE Pick(_, _)
Pick(k, i) == IF k <= Weights[i] \/ i = Len(Weights) THEN i ELSE Pick(k - Weights[i], i + 1)
RECURSIVE Some(_, _, _)
Live(h) == UNION {{x[2] : x \in {y \in Instances(c) : Has(c, y[1], h)}} : c \in Comp}
GoodSet == LET s == Live("s") IN IF s = {} THEN NumProp ELSE R(s)
GoodGet == LET s == Live("g") v == {n \in s : Stored(Owner(n), n) # ""} IN IF s = {} THEN NumProp ELSE IF v = {} THEN R(s) ELSE R(v)
Some(n, wh, good) == IF n = 0 THEN <<>>
                     ELSE <<IF wh = "get" THEN (IF good THEN GoodGet ELSE NumProp) ELSE IF good THEN GoodSet ELSE SetProp>> \o Some(n - 1, wh, good)
Val == IF Pc(2) THEN "none" ELSE R(Values)
Noop == DoGet(R(Users), PropName, FALSE)
Weighted ==
  \E z \in {Pick(R(1..100), 1)} : \E k \in {R(Users)}, c \in {R(GComp)} :
    CASE z = 1 -> IF Missing(c) = {} THEN Noop ELSE \E e \in {R(Missing(c))} : DoReg(c, <<e>>)
      [] z = 2 -> \E a \in {R(AnyT)} : IF reg[a[1]][a[2]].k # "p" \/ \E i \in DOMAIN a[2] : a[2][i] = Cu THEN Noop
                  ELSE \E e \in {E(a[2], "p", {"g", "s"})} : \E els \in {IF Pc(50) \/ Missing(c) = {} THEN <<e>> ELSE <<R(Missing(c)), e>>} : c # a[1] /\ DoReg(c, els)
      [] z = 3 -> IF Droppable(c) = {} THEN Noop ELSE \E t \in {R(Droppable(c))} : DoUnreg(c, {t})
      [] z = 4 -> \E p \in {PropName}, d \in {Pc(4)} : DoGet(k, p, d)
      [] z = 5 -> \E p \in {PropName}, d \in {Pc(3)}, v \in {Val}, s \in {R({0, 0, 7})}, m \in {Pc(70)} : DoSet(k, p, d, v, s, m)
      [] z = 6 -> \E ps \in {Some(R(2..5), "get", Pc(60))} : DoGetMany(k, ps)
      [] z = 7 -> IF ~GhostClear(<<>>) \/ AnyT = {} THEN Noop ELSE \E w \in {WildName} : DoGetWild(k, w[1], w[2])
      [] z = 8 -> \E ns \in {Some(R(2..6), "set", Pc(75))} : \E ps \in {[i \in DOMAIN ns |-> <<ns[i], IF Pc(99) THEN R(Values) ELSE "none">>]} : (\E ss \in {R({0, 7})}, m \in {Pc(70)} : DoSetMany(k, ps, ss, m))
      [] z = 9 -> \E p \in {TableName} : \E a \in {Alias(Find(IF TableOf(p) = "" THEN "P" ELSE TableOf(p), p).n)}, d \in {Pc(96)} : DoAddRow(k, p, d, a)
      [] z = 10 -> \E p \in {RowName}, d \in {Pc(50)} : DoDelRow(k, p, d)
      [] z = 11 -> \E p \in {TableName} : \E cc \in {IF TableOf(p) = "" THEN c ELSE TableOf(p)} : \E i \in {IF Pc(85) \/ rows = <<>> THEN 100 + Len(hist) ELSE R({nexti[cc] - 1, 1})} :
                   \E a \in {Alias(Find(cc, p).n)} : (IF i > 0 /\ (i < nexti[cc] \/ i >= 100) THEN DoRegRow(cc, p, i, a) ELSE Noop)
      [] z = 12 -> \E p \in {RowName} : \E cc \in {IF p = <<>> \/ TableOf(Front(p)) = "" THEN c ELSE TableOf(Front(p))} :
                   \* not with the name of a whole table, for which nothing is laid down
                   IF p # <<>> /\ Find(cc, p).ok /\ IsTable(cc, Find(cc, p).t) THEN Noop ELSE DoUnregRow(cc, p)
      [] z = 13 /\ Pc(60) -> IF ~GhostClear(<<>>) \/ AnyT = {} THEN Noop ELSE \E w \in {InfoName} : \E d \in {R({0, 1, 2, 3, 16, 16, -1, -1, -2, -3})} : DoInfo(k, w[1], w[2], d)
      [] z = 13 -> \E p \in {TableName} : DoRows(k, p, TRUE)
      [] z = 14 -> IF PropT = {} THEN Noop ELSE \E x \in {R(PropT)} : \E n \in {Inst(x[1], x[2], <<>>)}, v \in {R(Values)} : DoStore(x[1], n, v)
      [] OTHER -> IF AnyT = {} THEN Noop ELSE
                  \E kd \in {R(IF Profile = "set" THEN {"set", "refuse", "refuse", "get"} ELSE IF Profile = "table" THEN {"addrow", "delrow"} ELSE {"get", "set", "refuse", "addrow", "delrow"})} :
                  IF kd \in {"get", "set", "refuse"} THEN (IF PropT = {} THEN Noop ELSE \E p \in {IF Profile = "set" THEN GoodSet ELSE GoodProp} : IF Owner(p) = "" THEN Noop ELSE DoCfg(Owner(p), kd, p, IF kd = "refuse" THEN R(Values) ELSE "", IF kd # "refuse" /\ Pc(IF Profile = "set" /\ kd = "set" THEN 25 ELSE 60) THEN 0 ELSE R(Codes)))
                  ELSE IF kd = "addrow" THEN \E p \in {TableName} : TableOf(p) # "" /\ DoCfg(TableOf(p), kd, p, "", IF Pc(60) THEN 0 ELSE R(Codes))
                  ELSE \E p \in {RowName} : TableOf(Front(p)) # "" /\ DoCfg(TableOf(Front(p)), kd, p, "", IF Pc(60) THEN 0 ELSE R(Codes))
Unsub == {p \in {<<"T">>, <<"V">>, <<"W">>} : TableOf(p) # "" /\ p \notin tsub}
(* values to begin with: many properties of a new row or component get one *)
GNext ==
  /\ Len(hist) < Depth
  /\ IF \E c \in GComp : Elems(c) = {} THEN \E c \in {CHOOSE x \in GComp : DOMAIN reg[x] = {}} : \E els \in {FirstReg(c)} : DoReg(c, els)
     ELSE IF Profile \in {"table", "mix"} /\ Unsub # {} /\ Len(hist) < 8 THEN \E p \in {R(Unsub)} : DoSubT("K", p)
     ELSE IF Len(hist) < 10 /\ Len(rows) < 3 THEN \E tp \in {R({<<"T">>, <<"V">>})} : \E a \in {Alias(tp)} : DoAddRow("K", tp, TRUE, a)
     ELSE IF Len(hist) < 16 THEN \E p \in {GoodProp} : Owner(p) # "" /\ DoStore(Owner(p), p, R(Values))
     ELSE Weighted
GInit == Init /\ hist = <<>>
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) = Depth => JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
