------------------------------- MODULE Events -------------------------------
(* Events: who is subscribed to what, on the provider's side (ps) and on the consumer's side (cs), what
   a publication delivers, what the provider's subscribe handler is told, and how subscriptions
   fare when rows, providers and consumers come and go.
   P publishes E.g!, E.n! (no subscribe handler), the property E.v and the table T.{i}. (event T.{i}.ev!,
   property T.{i}.v); Q publishes F.g! and F.v.  Kh and Kg are handles of one process, Lh of another. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES
  up,      \* providers running, with their elements registered
  rows,    \* rows of T
  vals,    \* current values of the properties (as indices into an ordered list of values)
  refuse,  \* answers other than success that a subscribe handler is set to give
  hs,      \* consumer handles that are open
  ps,      \* what providers hold: sequence of [c, n, f, raw, att]; att = FALSE: remembered, element not there yet
  cs,      \* what consumers hold: sequence of [c, n, f, raw, tag, dirty]; dirty: withdrawn while no provider was there
  out      \* what the last step shows: rc / rcs, told (subscribe handler calls), got (events, one bag per publication)
evars == <<up, rows, vals, refuse, hs, ps, cs, out>>

Rows == {1, 2, 10}
RN(r, x) == "T." \o ToString(r) \o x
Info == ("E.g!" :> [p |-> "P", k |-> "e", h |-> TRUE, row |-> 0]) @@ ("E.n!" :> [p |-> "P", k |-> "e", h |-> FALSE, row |-> 0])
     @@ ("E.v" :> [p |-> "P", k |-> "p", h |-> TRUE, row |-> 0]) @@ ("T." :> [p |-> "P", k |-> "t", h |-> TRUE, row |-> 0])
     @@ ("T.*.ev!" :> [p |-> "P", k |-> "e", h |-> TRUE, row |-> 0]) @@ ("T.*.v" :> [p |-> "P", k |-> "p", h |-> TRUE, row |-> 0])
     @@ ("F.g!" :> [p |-> "Q", k |-> "e", h |-> TRUE, row |-> 0]) @@ ("F.v" :> [p |-> "Q", k |-> "p", h |-> TRUE, row |-> 0])
     @@ [n \in {RN(r, ".ev!") : r \in Rows} |-> [p |-> "P", k |-> "e", h |-> TRUE, row |-> CHOOSE r \in Rows : n = RN(r, ".ev!")]]
     @@ [n \in {RN(r, ".v") : r \in Rows} |-> [p |-> "P", k |-> "p", h |-> TRUE, row |-> CHOOSE r \in Rows : n = RN(r, ".v")]]
(* names that lead to P because a table of its spans them, and to nobody *)
Lost == {"T.9.ev!", "T.9.v"}
Names == DOMAIN Info
Props == {n \in Names : Info[n].k = "p" /\ n # "T.*.v"}
Covers(n, i) == n = i \/ (n = "T.*.ev!" /\ i \in {RN(r, ".ev!") : r \in Rows}) \/ (n = "T.*.v" /\ i \in {RN(r, ".v") : r \in Rows})
Reached(n) == IF n \in Names THEN Info[n].p \in up ELSE n \in (Lost \cup {"T"}) /\ "P" \in up
Exists(n) == n \in Names /\ Info[n].p \in up /\ (Info[n].row = 0 \/ Info[n].row \in rows)
Handled(n) == n \in Names /\ Info[n].h
Agent(c) == IF c = "Lh" THEN "L" ELSE "K"
Handles == {"Kh", "Kg", "Lh"}

RECURSIVE Truth(_, _)
Truth(f, v) ==
  CASE f[1] = "rel" -> (CASE f[2] = ">" -> v > f[3] [] f[2] = ">=" -> v >= f[3] [] f[2] = "<" -> v < f[3]
                          [] f[2] = "<=" -> v <= f[3] [] f[2] = "=" -> v = f[3] [] f[2] = "!=" -> v # f[3])
    [] f[1] = "and" -> Truth(f[2], v) /\ Truth(f[3], v)
    [] f[1] = "or"  -> Truth(f[2], v) \/ Truth(f[3], v)
    [] f[1] = "not" -> ~Truth(f[2], v)

(* filters on objects are not supported *)
RECURSIVE Unsupported(_)
Unsupported(f) == CASE f = <<>> -> FALSE [] f[1] = "rel" -> FALSE [] f[1] = "obj" -> TRUE [] f[1] = "not" -> Unsupported(f[2]) [] OTHER -> Unsupported(f[2]) \/ Unsupported(f[3])
Key(x) == <<x.c, x.n, x.f, x.raw>>
Del(q, P(_)) == SelectSeq(q, LAMBDA x : ~P(x))
At(q, k) == {i \in DOMAIN q : Key(q[i]) = k}
Tell(n, action, f, rc) == IF Handled(n) THEN <<[p |-> Info[n].p, n |-> n, a |-> action, f |-> f # <<>>, rc |-> rc]>> ELSE <<>>
RefusalOf(n) == IF Handled(n) /\ n \in DOMAIN refuse THEN refuse[n] ELSE 0
RECURSIVE SortedRows(_)
SortedRows(s) == IF s = {} THEN "" ELSE LET m == CHOOSE r \in s : \A q \in s : r <= q IN ToString(m) \o "," \o SortedRows(s \ {m})
Initial(n) == IF n = "T." THEN "tab:" \o SortedRows(rows) ELSE IF n = "T.*.ev!" THEN "num:0" ELSE IF n = "T.*.v" THEN "num:" \o ToString(Cardinality(rows))
              ELSE "iv:" \o ToString(vals[n])

(* ---- one subscription in a working state w = [ps, cs, told, got, rc] ---- *)
SubOne(w, c, x) ==
  LET k == <<c, x.n, x.f, x.raw>>
      mine == At(w.cs, k)
      rest == Del(w.cs, LAMBDA y : Key(y) = k)
      new == Append(rest, [c |-> c, n |-> x.n, f |-> x.f, raw |-> x.raw, tag |-> x.tag, dirty |-> FALSE])
  IN CASE mine # {} /\ (\E i \in mine : ~w.cs[i].dirty) -> [w EXCEPT !.rc = 24]
       [] ~Reached(x.n) -> [w EXCEPT !.rc = 20]
       [] x.n = "T" -> [w EXCEPT !.rc = 10]
       [] ~Exists(x.n) -> [w EXCEPT !.rc = 17]
       [] Unsupported(x.f) \/ (x.raw /\ Info[x.n].k # "e") -> [w EXCEPT !.rc = 2]
       [] \E i \in At(w.ps, k) : w.ps[i].att -> [w EXCEPT !.rc = 0, !.cs = new]
       [] RefusalOf(x.n) # 0 -> [w EXCEPT !.rc = RefusalOf(x.n), !.told = @ \o Tell(x.n, 0, x.f, RefusalOf(x.n))]
       [] OTHER -> [w EXCEPT !.rc = 0, !.cs = new, !.told = @ \o Tell(x.n, 0, x.f, 0),
                      !.ps = Append(@, [c |-> c, n |-> x.n, f |-> x.f, raw |-> x.raw, att |-> TRUE]),
                      !.got = IF x.pos /\ (Info[x.n].k # "e" \/ x.n = "T.*.ev!")
                              THEN Append(@, <<[c |-> c, tag |-> x.tag, sub |-> x.n, n |-> x.n, t |-> 4, d |-> Initial(x.n)]>>) ELSE @]
(* withdrawing; rc -1: success or a bus error, the provider had dropped the subscription before *)
UnsubOne(w, c, x) ==
  LET k == <<c, x.n, x.f, x.raw>>
      mine == At(w.cs, k)
      rest == Del(w.cs, LAMBDA y : Key(y) = k)
      held == At(w.ps, k)
  IN CASE mine = {} -> [w EXCEPT !.rc = 9]
       [] ~Reached(x.n) -> [w EXCEPT !.rc = 0, !.cs = [i \in DOMAIN @ |-> IF i \in mine THEN [@[i] EXCEPT !.dirty = TRUE] ELSE @[i]]]
       [] held = {} -> [w EXCEPT !.rc = -1, !.cs = rest]
       [] OTHER -> [w EXCEPT !.rc = IF \E i \in held : w.ps[i].att THEN 0 ELSE -1, !.cs = rest,
                      !.told = @ \o (IF \E i \in held : w.ps[i].att THEN Tell(x.n, 1, x.f, 0) ELSE <<>>),
                      !.ps = Del(@, LAMBDA y : Key(y) = k)]
RECURSIVE UnsubAll(_, _, _, _)
UnsubAll(w, c, xs, rcs) ==
  IF xs = <<>> THEN [w |-> w, rcs |-> rcs]
  ELSE LET w2 == UnsubOne(w, c, Head(xs)) IN UnsubAll(w2, c, Tail(xs), Append(rcs, w2.rc))
RECURSIVE SubAll(_, _, _, _)
SubAll(w, c, done, xs) ==
  IF xs = <<>> THEN w
  ELSE LET w2 == SubOne(w, c, Head(xs)) IN
       IF w2.rc = 0 THEN SubAll(w2, c, Append(done, Head(xs)), Tail(xs))
       ELSE LET u == UnsubAll(w2, c, done, <<>>) IN [u.w EXCEPT !.rc = w2.rc]
W0 == [ps |-> ps, cs |-> cs, told |-> <<>>, got |-> <<>>, rc |-> 0]
Show(w) == out' = [rc |-> w.rc, rcs |-> <<>>, told |-> w.told, got |-> w.got]
Quiet == out' = [rc |-> 0, rcs |-> <<>>, told |-> <<>>, got |-> <<>>]

(* c subscribes to all of xs or to none; x = [n, f, raw, tag, pos] *)
Subscribe(c, xs) == \E w \in {SubAll(W0, c, <<>>, xs)} :
  /\ c \in hs
  /\ Show(w) /\ ps' = w.ps /\ cs' = w.cs /\ UNCHANGED <<up, rows, vals, refuse, hs>>
(* c withdraws each of xs; an error is reported if the last one fails, and may be if another does *)
Unsubscribe(c, xs) == \E u \in {UnsubAll(W0, c, xs, <<>>)} :
  /\ c \in hs
  /\ out' = [rc |-> u.w.rc, rcs |-> u.rcs, told |-> u.w.told, got |-> <<>>]
  /\ ps' = u.w.ps /\ cs' = u.w.cs /\ UNCHANGED <<up, rows, vals, refuse, hs>>
(* does c hold that subscription? *)
Has(c, x) == \E i \in At(cs, <<c, x.n, x.f, FALSE>>) : ~cs[i].dirty
Withdrawn(c, x) == \E i \in At(cs, <<c, x.n, x.f, FALSE>>) : cs[i].dirty

(* ---- publications ---- *)
(* u = [n, t ("G" general, "V" value change, "R" raw), d, o, w]: value changes go from value o to w *)
Fires(u, s) == IF u.t = "R" THEN s.raw
               ELSE ~s.raw /\ (u.t = "V" /\ s.f # <<>> => Truth(s.f, u.o) # Truth(s.f, u.w))
Flag(u, s) == IF s.f = <<>> THEN "" ELSE IF Truth(s.f, u.w) THEN ":T" ELSE ":F"
Data(u, s) == IF u.t = "V" THEN ToString(u.o) \o ">" \o ToString(u.w) \o Flag(u, s) ELSE u.d
TypeOf(u) == IF u.t = "V" THEN 2 ELSE IF u.t = "R" THEN -1 ELSE 3
Live(n) == IF Exists(n) THEN {i \in DOMAIN ps : ps[i].att /\ Covers(ps[i].n, n)} ELSE {}
ByP(p, u) == Exists(u.n) /\ Info[u.n].p = p
(* the consumer's subscriptions that a publication reaches *)
(* (if there is any subscription, raw data goes to all who subscribed to that name, even if the provider dropped that
    subscription with a row) *)
Reaches(p, u) == IF ~ByP(p, u) \/ Live(u.n) = {} THEN {}
              ELSE IF u.t = "R" THEN
                {j \in DOMAIN cs : cs[j].raw /\ cs[j].n = u.n /\ ~cs[j].dirty}
              ELSE {j \in DOMAIN cs : \E i \in Live(u.n) : Key(ps[i]) = Key(cs[j]) /\ Fires(u, ps[i])}
Clean(p, u) == {j \in Reaches(p, u) : ~cs[j].dirty}
RECURSIVE Listed(_)
Listed(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o Listed(s \ {x})
EventsOf(p, u) == LET q == Listed(Clean(p, u)) IN
  [i \in DOMAIN q |-> LET s == cs[q[i]] IN [c |-> s.c, tag |-> s.tag, sub |-> s.n, n |-> u.n, t |-> TypeOf(u), d |-> Data(u, s)]]
(* -1: success, or nobody there, because only subscriptions are left that have been withdrawn *)
PubRc(p, u) == IF ~ByP(p, u) THEN 17 ELSE IF Live(u.n) = {} THEN 23
            ELSE IF \E i \in Live(u.n) : \E j \in DOMAIN cs : Key(cs[j]) = Key(ps[i]) /\ ~cs[j].dirty THEN 0 ELSE -1
Hit(p, us) == UNION {{j \in Reaches(p, us[x]) : cs[j].dirty} : x \in DOMAIN us}
RECURSIVE TellAll(_, _, _)
TellAll(q, action, rf) == IF q = <<>> THEN <<>> ELSE Tell(Head(q).n, action, Head(q).f, IF Head(q).n \in DOMAIN rf THEN rf[Head(q).n] ELSE 0) \o TellAll(Tail(q), action, rf)
None0 == [x \in {} |-> 0]
Publish(p, us) == \E hit \in {Hit(p, us)} : \E gone \in {{Key(cs[j]) : j \in hit}} :
  /\ p \in up
  /\ out' = [rc |-> 0, rcs |-> [x \in DOMAIN us |-> PubRc(p, us[x])], got |-> [x \in DOMAIN us |-> EventsOf(p, us[x])],
             told |-> TellAll(SelectSeq(cs, LAMBDA s : Key(s) \in gone), 1, None0)]
  /\ cs' = Del(cs, LAMBDA s : Key(s) \in gone)
  /\ ps' = Del(ps, LAMBDA s : Key(s) \in gone)
  /\ UNCHANGED <<up, rows, vals, refuse, hs>>

(* ---- rows ---- *)
RowEvent(t, r, d) == [n |-> "T.", t |-> t, d |-> d, o |-> 0, w |-> 0]
RowSubs == {j \in DOMAIN cs : cs[j].n = "T." /\ \E i \in Live("T.") : Key(ps[i]) = Key(cs[j])}
RowGot(type, d) == LET q == Listed({j \in RowSubs : ~cs[j].dirty}) IN
  <<[i \in DOMAIN q |-> [c |-> cs[q[i]].c, tag |-> cs[q[i]].tag, sub |-> "T.", n |-> "T.", t |-> type, d |-> d]]>>
RowHit == {Key(cs[j]) : j \in {i \in RowSubs : cs[i].dirty}}
Back(s) == ~s.att
AddRow(r, alias) == \E gone \in {RowHit} : \E wait \in {SelectSeq(ps, LAMBDA s : ~s.att /\ s.n \in Names /\ Info[s.n].row = r)} :
  /\ "P" \in up /\ r \notin rows
  /\ rows' = rows \cup {r}
  /\ ps' = Del(ps, LAMBDA s : Key(s) \in gone \/ (~s.att /\ Info[s.n].row = r))
           \o [i \in DOMAIN SelectSeq(wait, LAMBDA s : RefusalOf(s.n) = 0) |-> [SelectSeq(wait, LAMBDA s : RefusalOf(s.n) = 0)[i] EXCEPT !.att = TRUE]]
  /\ cs' = Del(cs, LAMBDA s : Key(s) \in gone)
  /\ out' = [rc |-> 0, rcs |-> <<>>, got |-> RowGot(0, RN(r, "") \o ":" \o ToString(r) \o ":" \o alias),
             told |-> TellAll(SelectSeq(cs, LAMBDA s : Key(s) \in gone), 1, None0) \o TellAll(wait, 0, refuse)]
  /\ UNCHANGED <<up, vals, refuse, hs>>
(* subscriptions to elements of that very row end with it *)
DelRow(r) == \E gone \in {RowHit} :
  /\ r \in rows
  /\ rows' = rows \ {r}
  /\ ps' = Del(ps, LAMBDA s : Key(s) \in gone \/ (s.att /\ Info[s.n].row = r))
  /\ cs' = Del(cs, LAMBDA s : Key(s) \in gone)
  /\ out' = [rc |-> 0, rcs |-> <<>>, got |-> RowGot(1, RN(r, "")), told |-> TellAll(SelectSeq(cs, LAMBDA s : Key(s) \in gone), 1, None0)]
  /\ UNCHANGED <<up, vals, refuse, hs>>

(* ---- providers come and go (orderly or not) ---- *)
Down(p) == /\ p \in up
           /\ up' = up \ {p}
           /\ rows' = IF p = "P" THEN {} ELSE rows
           /\ ps' = [i \in DOMAIN ps |-> IF Info[ps[i].n].p = p THEN [ps[i] EXCEPT !.att = FALSE] ELSE ps[i]]
           /\ Quiet /\ UNCHANGED <<vals, refuse, hs, cs>>
Up(p) == \E wait \in {SelectSeq(ps, LAMBDA s : Info[s.n].p = p /\ Info[s.n].row = 0)} :
         /\ p \notin up
         /\ up' = up \cup {p}
         /\ ps' = Del(ps, LAMBDA s : Info[s.n].p = p /\ Info[s.n].row = 0)
                  \o [i \in DOMAIN SelectSeq(wait, LAMBDA s : RefusalOf(s.n) = 0) |-> [SelectSeq(wait, LAMBDA s : RefusalOf(s.n) = 0)[i] EXCEPT !.att = TRUE]]
         /\ out' = [rc |-> 0, rcs |-> <<>>, got |-> <<>>, told |-> TellAll(wait, 0, refuse)]
         /\ UNCHANGED <<rows, vals, refuse, hs, cs>>

(* ---- consumers come and go ---- *)
Gone(C) == LET k == SelectSeq(ps, LAMBDA s : s.c \in C /\ s.att) IN
         /\ hs' = hs \ C
         /\ ps' = Del(ps, LAMBDA s : s.c \in C)
         /\ cs' = Del(cs, LAMBDA s : s.c \in C)
         /\ out' = [rc |-> 0, rcs |-> <<>>, got |-> <<>>, told |-> TellAll(k, 1, None0)]
         /\ UNCHANGED <<up, rows, vals, refuse>>
CloseHandle(c) == c \in hs /\ Gone({c})
(* the process is killed; new one comes with the same names *)
Kill(a) == LET C == {c \in hs : Agent(c) = a} IN Gone(C)
Open(c) == c \notin hs /\ hs' = hs \cup {c} /\ Quiet /\ UNCHANGED <<up, rows, vals, refuse, ps, cs>>

(* ---- provider's own state ---- *)
SetVal(n, v) == vals' = [vals EXCEPT ![n] = v] /\ Quiet /\ UNCHANGED <<up, rows, refuse, hs, ps, cs>>
Refuse(n, code) == /\ refuse' = IF code = 0 THEN [x \in DOMAIN refuse \ {n} |-> refuse[x]] ELSE (n :> code) @@ refuse
                   /\ Quiet /\ UNCHANGED <<up, rows, vals, hs, ps, cs>>
Init == /\ up = {"P", "Q"} /\ rows = {1} /\ vals = [n \in Props |-> 0] /\ refuse = [x \in {} |-> 0] /\ hs = Handles
        /\ ps = <<>> /\ cs = <<>> /\ out = [rc |-> 0, rcs |-> <<>>, told |-> <<>>, got |-> <<>>]
=============================================================================
