----------------------------- MODULE DataModel -----------------------------
(* The bus as its applications see it: data elements registered by provider components, tables with
   rows, and the get / set / multi-set / row operations that consumers perform on them.

   A name is a sequence of tokens p and a flag dot (the name ends with a '.').  Element templates are
   token sequences in which "{i}" stands for a row; the template of a table ends with "{i}".
   vals is what the provider applications themselves store, keyed by the name they were asked for.
   Each operation determines the result at the caller (ans), the handler invocations at the
   providers (calls) and the notifications to table subscribers (notes). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Comp          \* provider components
VARIABLES reg,          \* [Comp -> [set of templates -> [k, f]]]   k: "p","t","e","m"; f: set of handlers
          rows,         \* sequence of [c, p, alias] in creation order
          vals,         \* [Comp -> [set of names -> value]]
          cfg,          \* refusals configured at the providers: function on <<comp, kind, p>>
          nexti,        \* [Comp -> next row number the application hands out]
          ghosts,       \* names withdrawn by a component that is still running
          tsub,         \* table names (token sequences) with a subscription for row notifications
          ans, calls, notes
dvars == <<reg, rows, vals, cfg, nexti, ghosts, tsub, ans, calls, notes>>

SUCCESS == 0  INVALIDINPUT == 2  NOTFOUND == 5  NOTREACHABLE == 6  INVALIDOP == 9
NAMEDUP == 14  NOELEMENT == 17  NOACCESS == 18  NOTWRITABLE == 27
Cu == "{i}"
NoFun == <<>>
Elems(c) == DOMAIN reg[c]
IsTable(c, t) == Append(t, Cu) \in Elems(c)
Rows(c) == {r \in ToSet(rows) : r.c = c}

(* walk a name through the tree of a component: the rows it mentions must exist *)
RowFor(c, n, k) == {r \in Rows(c) : Front(r.p) = n /\ (Last(r.p) = k \/ (r.alias # "" /\ ("[" \o r.alias \o "]") = k))}
RECURSIVE Walk(_, _, _, _)
Walk(c, p, n, t) ==
  IF p = <<>> THEN [ok |-> TRUE, n |-> n, t |-> t]
  ELSE LET k == Head(p) IN
       IF IsTable(c, t)
       THEN LET m == RowFor(c, n, k) IN
            IF m = {} THEN [ok |-> FALSE, n |-> n, t |-> t]
            ELSE LET r == CHOOSE x \in m : TRUE IN Walk(c, Tail(p), r.p, Append(t, Cu))
       ELSE IF \E q \in Elems(c) : IsPrefix(Append(t, k), q) THEN Walk(c, Tail(p), Append(n, k), Append(t, k))
       ELSE [ok |-> FALSE, n |-> n, t |-> t]
Find(c, p) == Walk(c, p, <<>>, <<>>)
(* the template a name belongs to at a component, whatever rows exist *)
RECURSIVE Tmpl(_, _, _)
Tmpl(c, p, t) == IF p = <<>> THEN t
                 ELSE IF IsTable(c, t) THEN Tmpl(c, Tail(p), Append(t, Cu))
                 ELSE Tmpl(c, Tail(p), Append(t, Head(p)))
(* the component that registered the element a name belongs to *)
Owner(p) == LET s == {c \in Comp : Tmpl(c, p, <<>>) \in Elems(c)} IN IF s = {} THEN "" ELSE CHOOSE c \in s : TRUE
Kind(c, t) == IF t \in Elems(c) THEN reg[c][t].k ELSE IF IsTable(c, t) THEN "T" ELSE "o"
Has(c, t, h) == t \in Elems(c) /\ reg[c][t].k = "p" /\ h \in reg[c][t].f

Cfg(c, kind, p) == LET k == <<c, kind, p>> IN IF k \in DOMAIN cfg THEN cfg[k] ELSE [code |-> 0, v |-> ""]
Stored(c, p) == IF p \in DOMAIN vals[c] THEN vals[c][p] ELSE ""
WithVal(vs, c, p, v) == [vs EXCEPT ![c] = (p :> v) @@ @]

(* what the application's get handler does when asked for p *)
GetRc(c, p) == IF Cfg(c, "get", p).code # 0 THEN Cfg(c, "get", p).code
               ELSE IF Stored(c, p) = "" THEN NOELEMENT ELSE SUCCESS
SetRc(c, p, v) == IF Cfg(c, "set", p).code # 0 THEN Cfg(c, "set", p).code
                  ELSE IF Cfg(c, "refuse", p).v = v THEN Cfg(c, "refuse", p).code ELSE SUCCESS
GetCall(c, p, k) == [c |-> c, ev |-> "get", p |-> p, from |-> k]
SetCall(c, p, v, k, s, m) == [c |-> c, ev |-> "set", p |-> p, from |-> k, v |-> v, session |-> s, commit |-> m, rc |-> SetRc(c, p, v)]

Quiet == calls' = <<>> /\ notes' = {}
Same == UNCHANGED <<reg, rows, vals, cfg, nexti, ghosts, tsub>>

(* ---- registration ------------------------------------------------------------------------- *)
(* els: sequence of [p, k, f]; all or nothing.  A table comes before what is beneath it. *)
Conflict(c, e, before) ==
  \E d \in Comp : \E q \in Elems(d) \cup (IF d = c THEN before ELSE {}) : q = e.p
Register(c, els) ==
  LET ok == \A i \in DOMAIN els : ~Conflict(c, els[i], {els[j].p : j \in 1..(i - 1)})
      new == [q \in {els[i].p : i \in DOMAIN els} |-> LET e == CHOOSE x \in ToSet(els) : x.p = q IN [k |-> e.k, f |-> e.f]]
  IN /\ IF ok THEN /\ reg' = [reg EXCEPT ![c] = new @@ @]
                   /\ ghosts' = {g \in ghosts : ~(g[1] = c /\ g[2] \in DOMAIN new)}
              ELSE LET first == CHOOSE i \in DOMAIN els : Conflict(c, els[i], {els[j].p : j \in 1..(i - 1)}) /\ \A h \in 1..(i - 1) : ~Conflict(c, els[h], {els[j].p : j \in 1..(h - 1)})
                   IN reg' = reg /\ ghosts' = ghosts \cup {<<c, els[i].p>> : i \in 1..(first - 1)}
     /\ ans' = [op |-> "reg", rc |-> IF ok THEN {SUCCESS} ELSE {NAMEDUP}]
     /\ UNCHANGED <<rows, vals, cfg, nexti, tsub>> /\ Quiet
Unregister(c, ps) ==
  /\ reg' = [reg EXCEPT ![c] = [q \in DOMAIN @ \ ps |-> @[q]]]
  /\ ghosts' = ghosts \cup {<<c, q>> : q \in ps \cap Elems(c)}
  /\ ans' = [op |-> "unreg", rc |-> {SUCCESS}]
  /\ UNCHANGED <<rows, vals, cfg, nexti, tsub>> /\ Quiet

(* ---- get ----------------------------------------------------------------------------------- *)
BadSuffix(p) == p # <<>> /\ Last(p) \in {"ev!", "m()"}
Wild(p, dot) == dot \/ "*" \in ToSet(p)
Get(k, p, dot) ==
  LET c == Owner(p)
      w == Find(c, p)
      rc == IF BadSuffix(p) /\ ~dot THEN {INVALIDINPUT}
            ELSE IF Wild(p, dot) THEN IF BadSuffix(p) THEN {INVALIDINPUT, NOACCESS} ELSE {NOACCESS}
            ELSE IF c = "" \/ Kind(c, Tmpl(c, p, <<>>)) # "p" THEN {1, INVALIDOP, NOTFOUND, NOTREACHABLE, NOELEMENT, NOACCESS}
            ELSE IF ~w.ok THEN {NOELEMENT}
            ELSE IF ~Has(c, w.t, "g") THEN {INVALIDOP}
            ELSE {GetRc(c, p)}
      reached == ~BadSuffix(p) /\ ~Wild(p, dot) /\ c # "" /\ w.ok /\ Has(c, w.t, "g")
  IN /\ ans' = [op |-> "get", rc |-> rc, v |-> IF reached /\ rc = {SUCCESS} THEN Stored(c, p) ELSE ""]
     /\ calls' = IF reached THEN <<GetCall(c, p, k)>> ELSE <<>>
     /\ notes' = {} /\ Same

(* ---- set ----------------------------------------------------------------------------------- *)
Set(k, p, dot, v, session, commit) ==
  LET c == Owner(p)
      w == Find(c, p)
      reached == v # "none" /\ ~Wild(p, dot) /\ c # "" /\ w.ok /\ Has(c, w.t, "s")
      rc == IF v = "none" \/ Wild(p, dot) THEN {INVALIDINPUT}
            ELSE IF c = "" \/ Kind(c, Tmpl(c, p, <<>>)) # "p" THEN {1, INVALIDOP, NOTFOUND, NOTREACHABLE, NOELEMENT, NOACCESS, NOTWRITABLE}
            ELSE IF ~w.ok THEN {NOELEMENT}
            ELSE IF ~Has(c, w.t, "s") THEN {NOTWRITABLE}
            ELSE {SetRc(c, p, v)}
  IN /\ ans' = [op |-> "set", rc |-> rc]
     /\ calls' = IF reached THEN <<SetCall(c, p, v, k, session, commit)>> ELSE <<>>
     /\ vals' = IF reached /\ rc = {SUCCESS} THEN WithVal(vals, c, p, v) ELSE vals
     /\ notes' = {} /\ UNCHANGED <<reg, rows, cfg, nexti, ghosts, tsub>>

(* ---- get of several names ------------------------------------------------------------------ *)
(* a read by the provider: its code and the handler call it causes *)
ReadRc(p) == LET c == Owner(p)  w == Find(c, p) IN
             IF ~w.ok THEN NOELEMENT ELSE IF ~Has(c, w.t, "g") THEN INVALIDOP ELSE GetRc(c, p)
RECURSIVE Batches(_, _)     \* components in the order in which they first appear
Batches(ps, seen) == IF ps = <<>> THEN <<>>
                     ELSE LET c == Owner(Head(ps)) IN
                          IF c \in seen THEN Batches(Tail(ps), seen) ELSE <<c>> \o Batches(Tail(ps), seen \cup {c})
ByBatch(ps) == LET b == Batches(ps, {}) IN FlattenSeq([i \in DOMAIN b |-> SelectSeq(ps, LAMBDA x : Owner(x) = b[i])])
GetMany(k, ps) ==
  LET o == ByBatch(ps)
      bad == {i \in DOMAIN o : ReadRc(o[i]) # SUCCESS}
      first == CHOOSE i \in bad : \A j \in bad : i <= j
      unowned == \E i \in DOMAIN ps : Owner(ps[i]) = ""
      n == IF unowned THEN 0 ELSE IF bad = {} THEN Len(o) ELSE first
      called == SelectSeq(SubSeq(o, 1, n), LAMBDA x : LET c == Owner(x) w == Find(c, x) IN w.ok /\ Has(c, w.t, "g"))
  IN /\ ans' = IF unowned THEN [op |-> "getm", rc |-> {INVALIDINPUT, NOTFOUND}, props |-> <<>>]
               ELSE IF bad # {} THEN [op |-> "getm", rc |-> {ReadRc(o[first])}, props |-> <<>>]
               ELSE [op |-> "getm", rc |-> {SUCCESS}, props |-> [i \in DOMAIN o |-> <<o[i], Stored(Owner(o[i]), o[i])>>]]
     /\ calls' = [i \in DOMAIN called |-> GetCall(Owner(called[i]), called[i], k)]
     /\ notes' = {} /\ Same

(* ---- partial path and row wildcards ---------------------------------------------------------- *)
(* every property instance of a component: its templates with every combination of existing rows *)
RECURSIVE Expand(_, _, _, _)
Expand(c, t, n, u) ==     \* t: rest of the template; n, u: instance and template so far
  IF t = <<>> THEN {n}
  ELSE IF Head(t) = Cu THEN UNION {Expand(c, Tail(t), r.p, Append(u, Cu)) : r \in {x \in Rows(c) : Front(x.p) = n}}
  ELSE Expand(c, Tail(t), Append(n, Head(t)), Append(u, Head(t)))
Instances(c) == UNION {{<<t, n>> : n \in Expand(c, t, <<>>, <<>>)} : t \in {x \in Elems(c) : reg[c][x].k = "p"}}
(* does instance n of template t match a pattern of tokens: "*" matches a row, an alias its row *)
TokMatch(c, n, t, i, k) ==
  IF t[i] = Cu THEN k = "*" \/ \E r \in RowFor(c, SubSeq(n, 1, i - 1), k) : r.p = SubSeq(n, 1, i)
  ELSE n[i] = k
PatMatch(c, n, t, p, dot) ==
  /\ IF dot THEN Len(p) < Len(n) ELSE Len(p) = Len(n)
  /\ \A i \in DOMAIN p : TokMatch(c, n, t, i, p[i])
(* the wildcards of a pattern replaced by every row there is: what is named explicitly must exist *)
RECURSIVE Resolve(_, _, _, _)
Resolve(c, p, n, t) ==
  IF p = <<>> THEN {TRUE}
  ELSE IF Head(p) = "*"
  THEN IF IsTable(c, t) THEN UNION {Resolve(c, Tail(p), r.p, Append(t, Cu)) : r \in {x \in Rows(c) : Front(x.p) = n}} ELSE {FALSE}
  ELSE LET w == Walk(c, <<Head(p)>>, n, t) IN IF w.ok THEN Resolve(c, Tail(p), w.n, w.t) ELSE {FALSE}
(* components that hold something the pattern may match *)
TmplMatch(t, p, dot) == /\ Len(p) <= Len(t)
                        /\ \A i \in DOMAIN p : t[i] = Cu \/ t[i] = p[i]
Matching(p, dot) == UNION {{<<c, x[1], x[2]>> : x \in {y \in Instances(c) : PatMatch(c, y[2], y[1], p, dot)}} : c \in Comp}
Askers(p, dot) == {c \in Comp : \E t \in Elems(c) : TmplMatch(t, p, dot)}
GetWild(k, p0, dot0) ==
  LET p == IF p0 # <<>> /\ Last(p0) = "*" /\ ~dot0 THEN Front(p0) ELSE p0
      dot == dot0 \/ p # p0
      m == Matching(p, dot)
      readable == {x \in m : Has(x[1], x[2], "g")}
      good == {x \in readable : GetRc(x[1], x[3]) = SUCCESS}
      missing == \E c \in Askers(p, dot) : FALSE \in Resolve(c, p, <<>>, <<>>)
      failing == (IF missing THEN {NOELEMENT} ELSE {}) \cup (IF dot THEN {} ELSE {GetRc(x[1], x[3]) : x \in readable \ good})
      nobody == Askers(p, dot) = {}
      rc == IF nobody THEN {INVALIDINPUT, NOELEMENT, NOTFOUND}
            ELSE IF failing # {} THEN failing
            ELSE {SUCCESS}
  IN /\ ans' = [op |-> "getw", rc |-> rc, set |-> IF rc = {SUCCESS} THEN {<<x[3], Stored(x[1], x[3])>> : x \in good} ELSE {}]
     /\ calls' = <<>>    \* which handlers run, and in what order, is not prescribed
     /\ notes' = {} /\ Same

(* ---- what is there: names, kinds and access ------------------------------------------------ *)
(* the tree a component offers: its elements, the objects above them, and the rows of its tables *)
Nodes(c) == UNION {{<<SubSeq(q, 1, i), n>> : n \in Expand(c, SubSeq(q, 1, i), <<>>, <<>>)} : <<q, i>> \in UNION {{<<x, j>> : j \in 1..Len(x)} : x \in Elems(c)}}
Access(c, t) == IF Last(t) = Cu THEN {"g", "s"}
                ELSE IF t \in Elems(c) THEN reg[c][t].f ELSE IF IsTable(c, t) THEN reg[c][Append(t, Cu)].f ELSE {}
NodeKind(c, t) == IF Last(t) = Cu THEN "o" ELSE Kind(c, t)
InDepth(d, k) == IF d >= 0 THEN k <= d ELSE k = -d
Info(k, p, dot, d) ==
  LET who == Askers(p, dot)
      here(c) == LET w == Find(c, p) IN
                 {[n |-> x[2], dot |-> NodeKind(c, x[1]) \in {"o", "T"}, c |-> c, k |-> NodeKind(c, x[1]), f |-> Access(c, x[1])] :
                    x \in {y \in Nodes(c) : IsPrefix(w.n, y[2]) /\ InDepth(d, Len(y[2]) - Len(w.n))}}
      lost == {c \in who : ~Find(c, p).ok}
  IN /\ ans' = [op |-> "info", rc |-> IF who = {} THEN {NOELEMENT, SUCCESS} ELSE IF lost = {} THEN {SUCCESS} ELSE IF lost = who THEN {NOELEMENT} ELSE {NOELEMENT, SUCCESS},
                set |-> IF lost = {} THEN UNION {here(c) : c \in who} ELSE {}, all |-> lost = {} \/ lost = who]
     /\ Quiet /\ Same

(* ---- set of several properties --------------------------------------------------------------- *)
(* props: sequence of <<p, v>> *)
Writable(c, p) == LET w == Find(c, p) IN w.ok /\ Has(c, w.t, "s")
WriteRc(p, v) == LET c == Owner(p)  w == Find(c, p) IN
                 IF ~w.ok THEN NOELEMENT ELSE IF ~Has(c, w.t, "s") THEN NOTWRITABLE ELSE SetRc(c, p, v)
SetOrder(props) == LET b == Batches([i \in DOMAIN props |-> props[i][1]], {})
                   IN FlattenSeq([i \in DOMAIN b |-> SelectSeq(props, LAMBDA x : Owner(x[1]) = b[i])])
RECURSIVE Apply(_, _)
Apply(vs, props) == IF props = <<>> THEN vs ELSE Apply(WithVal(vs, Owner(props[1][1]), props[1][1], props[1][2]), Tail(props))
(* an accepted property whose old value was not readable cannot be put back *)
Restorable(p) == LET c == Owner(p)  w == Find(c, p) IN
                 /\ Has(c, w.t, "g") /\ GetRc(c, p) = SUCCESS
                 /\ SetRc(c, p, Stored(c, p)) = SUCCESS
SetMany(k, props, session, commit) ==
  LET n == Len(props)
      invalid == \E i \in 1..n : props[i][2] = "none" \/ "*" \in ToSet(props[i][1])
      unowned == \E i \in 1..n : Owner(props[i][1]) = ""
      Done(rc, failed, loose) == ans' = [op |-> "setm", rc |-> rc, failed |-> failed, loose |-> loose]
  IN /\ IF n = 0 \/ invalid \/ unowned
        THEN Done(IF n > 0 /\ ~invalid THEN {INVALIDINPUT, NOTFOUND} ELSE {INVALIDINPUT}, {""}, {}) /\ vals' = vals
        ELSE \E o \in {SetOrder(props)} : \E codes \in {[i \in 1..n |-> WriteRc(o[i][1], o[i][2])]} : \E bad \in {{i \in 1..n : codes[i] # SUCCESS}} :
        IF bad = {} THEN Done({SUCCESS}, {""}, {}) /\ vals' = Apply(vals, o)
        ELSE \E first \in {Min(bad)} : \E stuck \in {{i \in 1..(first - 1) : ~Restorable(o[i][1])}} :
        /\ Done({codes[first]}, {o[first][1]}, {o[i][1] : i \in stuck})
        /\ \E s \in SUBSET stuck : \E q \in {SetToSortSeq(s, <)} : vals' = Apply(vals, [i \in DOMAIN q |-> o[q[i]]])
     /\ calls' = <<>>    \* the reads and writes made for the rollback are not prescribed
     /\ notes' = {} /\ UNCHANGED <<reg, rows, cfg, nexti, ghosts, tsub>>

(* ---- tables ----------------------------------------------------------------------------------- *)
Notice(kind, tp, row, inst, alias) == IF tp \in tsub THEN {[type |-> kind, n |-> tp, row |-> row, inst |-> inst, alias |-> alias]} ELSE {}
(* p: the table, without the trailing dot *)
TableOf(p) == LET s == {c \in Comp : LET w == Tmpl(c, p, <<>>) IN IsTable(c, w)} IN IF s = {} THEN "" ELSE CHOOSE c \in s : TRUE
AddRow(k, p, dot, alias) ==
  LET c == TableOf(p)
      w == Find(c, p)
      h == c # "" /\ dot /\ w.ok /\ "a" \in reg[c][Append(w.t, Cu)].f
      code == IF h THEN Cfg(c, "addrow", p).code ELSE 0
      ok == h /\ code = 0
      inst == nexti[c]
      row == Append(w.n, ToString(inst))
      rc == IF ~dot THEN {INVALIDINPUT}
            ELSE IF c = "" THEN {NOTFOUND, NOTREACHABLE, NOELEMENT, INVALIDOP}
            ELSE IF ~w.ok THEN {NOELEMENT} ELSE IF ~h THEN {INVALIDOP} ELSE {code}
  IN /\ ans' = [op |-> "addrow", rc |-> rc, inst |-> IF ok THEN inst ELSE 0]
     /\ rows' = IF ok THEN Append(rows, [c |-> c, p |-> row, alias |-> alias]) ELSE rows
     /\ nexti' = IF ok THEN [nexti EXCEPT ![c] = @ + 1] ELSE nexti
     /\ calls' = IF h THEN <<[c |-> c, ev |-> "addrow", p |-> p, alias |-> alias, rc |-> code]>> ELSE <<>>
     /\ notes' = IF ok THEN Notice(0, w.n, row, inst, alias) ELSE {}
     /\ UNCHANGED <<reg, vals, cfg, ghosts, tsub>>
Below(c, row) == {r \in ToSet(rows) : r.c = c /\ IsPrefix(row, r.p)}
DelRow(k, p, dot) ==
  LET c == IF p = <<>> THEN "" ELSE TableOf(Front(p))
      w == Find(c, p)
      isRow == c # "" /\ w.ok /\ w.t \in Elems(c) /\ reg[c][w.t].k = "t"
      h == isRow /\ "r" \in reg[c][w.t].f
      code == IF h THEN Cfg(c, "delrow", p).code ELSE 0
      ok == h /\ code = 0
      rc == IF c = "" THEN {1, NOTFOUND, NOTREACHABLE, NOELEMENT, INVALIDOP} ELSE IF ~w.ok THEN {NOELEMENT} ELSE IF ~h THEN {INVALIDOP} ELSE {code}
  IN /\ ans' = [op |-> "delrow", rc |-> rc]
     /\ rows' = IF ok THEN SelectSeq(rows, LAMBDA r : ~(r.c = c /\ IsPrefix(w.n, r.p))) ELSE rows
     /\ calls' = IF h THEN <<[c |-> c, ev |-> "delrow", p |-> p, rc |-> code]>> ELSE <<>>
     /\ notes' = IF ok THEN Notice(1, Front(w.n), w.n, -1, "") ELSE {}
     /\ UNCHANGED <<reg, vals, cfg, nexti, ghosts, tsub>>
(* the provider itself adds or removes a row *)
RegRow(c, p, inst, alias) ==
  LET w == Find(c, p)
      ok == IsTable(c, Tmpl(c, p, <<>>)) /\ w.ok /\ ~\E r \in Rows(c) : r.p = Append(w.n, ToString(inst))
      row == Append(w.n, ToString(inst))
  IN /\ ans' = [op |-> "regrow", rc |-> IF ok THEN {SUCCESS} ELSE {INVALIDINPUT}]
     /\ rows' = IF ok THEN Append(rows, [c |-> c, p |-> row, alias |-> alias]) ELSE rows
     /\ calls' = <<>> /\ notes' = IF ok THEN Notice(0, w.n, row, inst, alias) ELSE {}
     /\ UNCHANGED <<reg, vals, cfg, nexti, ghosts, tsub>>
UnregRow(c, p) ==
  LET w == Find(c, p)
      ok == p # <<>> /\ w.ok /\ w.t \in Elems(c) /\ reg[c][w.t].k = "t"
  IN /\ ans' = [op |-> "unregrow", rc |-> IF ok THEN {SUCCESS} ELSE {INVALIDINPUT}]
     /\ rows' = IF ok THEN SelectSeq(rows, LAMBDA r : ~(r.c = c /\ IsPrefix(w.n, r.p))) ELSE rows
     /\ calls' = <<>> /\ notes' = IF ok THEN Notice(1, Front(w.n), w.n, -1, "") ELSE {}
     /\ UNCHANGED <<reg, vals, cfg, nexti, ghosts, tsub>>
RowNames(k, p, dot) ==
  LET c == TableOf(p)
      w == Find(c, p)
      rs == SelectSeq(rows, LAMBDA r : r.c = c /\ Front(r.p) = w.n)
      rc == IF ~dot THEN {INVALIDINPUT} ELSE IF c = "" THEN {1, 2, NOTFOUND, NOTREACHABLE, NOELEMENT, INVALIDOP} ELSE IF ~w.ok THEN {NOELEMENT} ELSE {SUCCESS}
  IN /\ ans' = [op |-> "rows", rc |-> rc, rows |-> IF rc = {SUCCESS} THEN [i \in DOMAIN rs |-> <<Append(p, Last(rs[i].p)), Last(rs[i].p), rs[i].alias>>] ELSE <<>>]
     /\ Quiet /\ Same
SubTable(k, p) ==
  LET c == TableOf(p)  w == Find(c, p)  ok == c # "" /\ w.ok /\ p \notin tsub
  IN /\ ok
     /\ ans' = [op |-> "subt", rc |-> {SUCCESS}]
     /\ tsub' = tsub \cup {p}
     /\ Quiet /\ UNCHANGED <<reg, rows, vals, cfg, nexti, ghosts>>

(* ---- the providers' own behaviour -------------------------------------------------------------- *)
Store(c, p, v) == /\ vals' = WithVal(vals, c, p, v) /\ ans' = [op |-> "store", rc |-> {SUCCESS}]
                  /\ Quiet /\ UNCHANGED <<reg, rows, cfg, nexti, ghosts, tsub>>
Configure(c, kind, p, v, code) ==
  /\ cfg' = (<<c, kind, p>> :> [code |-> code, v |-> v]) @@ cfg
  /\ ans' = [op |-> "cfg", rc |-> {SUCCESS}]
  /\ Quiet /\ UNCHANGED <<reg, rows, vals, nexti, ghosts, tsub>>

Init == /\ reg = [c \in Comp |-> NoFun] /\ rows = <<>> /\ vals = [c \in Comp |-> NoFun] /\ cfg = NoFun
        /\ nexti = [c \in Comp |-> 1] /\ ghosts = {} /\ tsub = {}
        /\ ans = [op |-> "", rc |-> {}] /\ calls = <<>> /\ notes = {}

(* ---- what must always hold --------------------------------------------------------------------- *)
OneOwner == \A c, d \in Comp : c # d => Elems(c) \cap Elems(d) = {}
RowsUnique == \A i, j \in DOMAIN rows : i # j => rows[i].p # rows[j].p \/ rows[i].c # rows[j].c
RowsRooted == \A r \in ToSet(rows) : \A i \in 1..(Len(r.p) - 1) :
                 LET t == Tmpl(r.c, SubSeq(r.p, 1, i), <<>>) IN
                 (t # <<>> /\ Last(t) = Cu) => \E q \in ToSet(rows) : q.c = r.c /\ q.p = SubSeq(r.p, 1, i)
(* a failed operation changes nothing *)
FailKeeps == [][(ans'.op \in {"set", "addrow", "delrow", "regrow", "unregrow", "reg"} /\ SUCCESS \notin ans'.rc)
                => UNCHANGED <<reg, rows, vals>>]_dvars
SetManyAtomic == [][ans'.op = "setm" =>
                     \/ SUCCESS \in ans'.rc
                     \/ \A c \in Comp : \A p \in DOMAIN vals'[c] \ ans'.loose : p \in DOMAIN vals[c] /\ vals'[c][p] = vals[c][p]]_dvars
ReadsOnly == [][ans'.op \in {"get", "getm", "getw", "rows", "info"} => UNCHANGED <<reg, rows, vals, cfg, nexti>>]_dvars
=============================================================================
