-------------------------------- MODULE Watch --------------------------------
(* Watch: what subscribers see of properties that the library watches for them - value changes found by
   polling, and values reported at intervals, for a duration - as requirements with times.
   P has the properties A.p (with a subscribe handler), A.q (without one), A.s (whose subscribe handler says that
   P publishes changes itself), A.w (which cannot be read) and T.{i}.x.
   A state says what is in force; the operators ..OK say which events may be seen in it, Overdue which must have been. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Poll, Eps, Slack, Lag, Grace
VARIABLES
  now,
  slow,    \* time P's get handlers take
  hist,    \* property -> its latest values: [v, from, sure, to, by]: set between from and sure, replaced at latest at to;
           \* by: the components that set it
  rows,    \* row -> time at which it surely was there
  gone,    \* row -> time at which it surely was gone
  subs,    \* subscriptions: [c, n, iv, dur, f, tag, prov ("yes", "no", "wait"), t0, t1, k, last, kn, re]
  okq,     \* whether A.q can be read [on, since, bad: when it could not be read any more]
  ended,   \* ended subscriptions: [s, end]
  hs       \* open handles
wvars == <<now, slow, hist, rows, gone, subs, okq, ended, hs>>

RN(r) == "T." \o ToString(r) \o ".x"
AllRows == {1, 2}
RowProps == {RN(r) : r \in AllRows}
RowOf(p) == IF p \in RowProps THEN CHOOSE r \in AllRows : p = RN(r) ELSE 0
Props == {"A.p", "A.q", "A.s", "A.w"} \cup RowProps
Unwatched == {"A.s", "A.w"}
Names == Props \cup {"T.*.x"}
Handles == {"Kh", "Kg", "Lh"}
Covers(n, p) == n = p \/ (n = "T.*.x" /\ p \in RowProps)
Big == 1000000000
Max2(a, b) == IF a > b THEN a ELSE b
(* P runs one handler of a property at a time: a call can wait for those of all subscriptions *)
Queue == slow * (2 + Len(subs) + Len(ended))
PollD == Poll + Slack + Queue
LagD == Lag + Queue
WorksSince(p) == IF p # "A.q" THEN 0 ELSE IF okq.on THEN okq.since ELSE Big
(* when a value that was noticed at t may last have been looked at before *)
Before(p, t) == (IF p = "A.q" /\ (~okq.on \/ t <= okq.since + PollD + LagD) THEN IF okq.bad < t THEN okq.bad ELSE t ELSE t) - PollD
Here(p) == RowOf(p) = 0 \/ RowOf(p) \in DOMAIN rows

RECURSIVE Truth(_, _)
Truth(f, v) ==
  CASE f[1] = "rel" -> (CASE f[2] = ">" -> v > f[3] [] f[2] = ">=" -> v >= f[3] [] f[2] = "<" -> v < f[3]
                          [] f[2] = "<=" -> v <= f[3] [] f[2] = "=" -> v = f[3] [] f[2] = "!=" -> v # f[3])
    [] f[1] = "not" -> ~Truth(f[2], v)
(* what a subscriber can tell of a value *)
Seen(f, v) == IF f = <<>> THEN v ELSE IF Truth(f, v) THEN 1 ELSE 0

Last(p) == hist[p][Len(hist[p])]
Held(p, v, a, b) == \E i \in DOMAIN hist[p] : hist[p][i].v = v /\ hist[p][i].from <= b /\ hist[p][i].to >= a
Key(s) == <<s.c, s.n, s.iv, s.dur, s.f>>
Watched(p) == \E i \in DOMAIN subs : subs[i].iv = 0 /\ subs[i].prov = "yes" /\ Covers(subs[i].n, p)
(* what a value-change subscription that starts at t may know: the value there is, or, if the property was being watched
   already, one whose replacement has not been noticed yet *)
Knows(n, f, t) == [p \in {q \in Props \ Unwatched : Covers(n, q) /\ Here(q)} |->
   {Seen(f, Last(p).v)} \cup IF Watched(p) THEN {Seen(f, hist[p][i].v) : i \in {j \in DOMAIN hist[p] : hist[p][j].to >= Before(p, t)}} ELSE {}]
Exists(n) == n = "T.*.x" \/ (n \in Names /\ Here(n))
Started(s, t0, t1) == [s EXCEPT !.prov = "yes", !.t0 = t0, !.t1 = t1, !.k = 0, !.last = t1, !.kn = IF s.iv = 0 THEN Knows(s.n, s.f, t0) ELSE [p \in {} |-> {}]]

(* ---- what must have happened by t ---- *)
Overdue(s, t) ==
  /\ s.prov = "yes"
  /\ IF s.iv > 0 THEN s.n \notin Unwatched /\ t > Max2(s.last, WorksSince(s.n)) + s.iv + Slack + Queue
     ELSE \E p \in DOMAIN s.kn : t > Max2(Max2(Last(p).sure, s.t1), WorksSince(p)) + PollD /\ Seen(s.f, Last(p).v) \notin s.kn[p]
Settled(s, t) == [s EXCEPT !.kn = [p \in DOMAIN @ |-> IF t > Max2(Max2(Last(p).sure, s.t1), WorksSince(p)) + PollD THEN {Seen(s.f, Last(p).v)} ELSE @[p]]]
Past(t) == /\ \A i \in DOMAIN subs : ~Overdue(subs[i], t)
           /\ now' = Max2(now, t)

(* ---- what may happen: value changes ---- *)
Read(p, t) == p # "A.q" \/ okq.on \/ t <= okq.since + LagD
(* e = [n, o, w, by, flt] at t *)
ChangeOK(s, e, t) ==
  /\ s.iv = 0 /\ e.n \in DOMAIN s.kn /\ Read(e.n, t)
  /\ e.o # e.w /\ Seen(s.f, e.o) # Seen(s.f, e.w)
  /\ Seen(s.f, e.o) \in s.kn[e.n]
  /\ Held(e.n, e.w, t - LagD, t)
  /\ Held(e.n, e.o, Before(e.n, t) - LagD, t)
  /\ e.flt = (IF s.f = <<>> THEN "" ELSE IF Truth(s.f, e.w) THEN "T" ELSE "F")
  /\ \E i \in DOMAIN hist[e.n] : hist[e.n][i].to >= t - LagD - PollD /\ e.by \in hist[e.n][i].by
Changed(s, e) == [s EXCEPT !.kn[e.n] = {Seen(s.f, e.w)}]
(* ---- ticks: e = [data: sequence of <<name, value>>, entries (-1: not a wildcard)] at t ---- *)
DataOK(s, e, t) ==
  LET got == {e.data[i][1] : i \in DOMAIN e.data}
      must == {p \in Props : Covers(s.n, p) /\ (RowOf(p) = 0 \/ (Here(p) /\ rows[RowOf(p)] <= t - LagD))}
      may == {p \in Props : Covers(s.n, p) /\ (Here(p) \/ (RowOf(p) \in DOMAIN gone /\ gone[RowOf(p)] >= t - LagD))}
  IN /\ Cardinality(got) = Len(e.data) /\ must \subseteq got /\ got \subseteq may
     /\ \A i \in DOMAIN e.data : Held(e.data[i][1], e.data[i][2], t - LagD, t)
     /\ e.entries = IF s.n = "T.*.x" THEN Len(e.data) ELSE -1
Due(s, t) == t >= s.t0 + (s.k + 1) * s.iv - Eps
TickOK(s, e, t) == s.iv > 0 /\ s.n \notin Unwatched /\ Read(s.n, t) /\ Due(s, t) /\ (s.dur = 0 \/ s.k < s.dur \div s.iv) /\ DataOK(s, e, t)
Ticked(s, t) == [s EXCEPT !.k = @ + 1, !.last = Max2(@, t)]
DoneOK(s, e, t) == s.iv > 0 /\ s.dur > 0 /\ s.k = s.dur \div s.iv /\ t >= s.t0 + s.dur - Eps /\ t >= s.last /\ s.n \notin Unwatched /\ Read(s.n, t)
(* what was on its way when a subscription ended *)
Late(c, tag, t) == \E i \in DOMAIN ended : ended[i].s.c = c /\ ended[i].s.tag = tag /\ t <= ended[i].end + Grace + Queue
Its(c, tag) == {i \in DOMAIN subs : subs[i].c = c /\ subs[i].tag = tag /\ subs[i].prov = "yes"}

Event(e, t) ==
  /\ Past(t)
  /\ IF Its(e.c, e.tag) = {} THEN Late(e.c, e.tag, t) /\ UNCHANGED subs
     ELSE \E i \in Its(e.c, e.tag) : LET s == Settled(subs[i], t) IN
       /\ s.n = e.sub
       /\ CASE e.k = "chg" /\ ChangeOK(s, e, t) -> subs' = [subs EXCEPT ![i] = Changed(s, e)]
            [] e.k = "tick" /\ TickOK(s, e, t) -> subs' = [subs EXCEPT ![i] = Ticked(s, t)]
            [] e.k = "done" /\ DoneOK(s, e, t) -> subs' = SelectSeq(subs, LAMBDA x : Key(x) # Key(s))
            [] OTHER -> t <= s.re + Grace /\ UNCHANGED subs
  /\ UNCHANGED <<okq, slow, hist, rows, gone, ended, hs>>
(* P is asked for a value on nobody's behalf: only while somebody watches the property *)
Asked(p, t) ==
  /\ Past(t)
  /\ \/ p \notin Unwatched /\ \E i \in DOMAIN subs : subs[i].prov = "yes" /\ Covers(subs[i].n, p)
     \/ \E i \in DOMAIN ended : Covers(ended[i].s.n, p) /\ t <= ended[i].end + Grace + Queue
  /\ Here(p) \/ (RowOf(p) \in DOMAIN gone /\ t <= gone[RowOf(p)] + Grace + Queue)
  /\ UNCHANGED <<okq, slow, hist, rows, gone, subs, ended, hs>>

(* ---- what applications do, between t0 and t1; rc: the result (-1: success or a bus error) ---- *)
Mine(k) == {i \in DOMAIN subs : Key(subs[i]) = k}
SubRc(c, x) == IF Mine(<<c, x.n, x.iv, x.dur, x.f>>) # {} THEN 24 ELSE IF ~Exists(x.n) THEN 17 ELSE 0
Subscribe(c, x, t0, t1) ==
  /\ Past(t0)
  /\ subs' = IF SubRc(c, x) # 0 THEN subs
             ELSE Append(subs, Started([c |-> c, n |-> x.n, iv |-> x.iv, dur |-> x.dur, f |-> x.f, tag |-> x.tag, prov |-> "yes", t0 |-> t0, t1 |-> t1,
                                        k |-> 0, last |-> t1, kn |-> <<>>, re |-> -Big], t0, t1))
  /\ UNCHANGED <<okq, slow, hist, rows, gone, ended, hs>>
End(P(_), t1) == SelectSeq(ended, LAMBDA x : x.end + Grace + Queue >= now) \o [i \in DOMAIN SelectSeq(subs, P) |-> [s |-> SelectSeq(subs, P)[i], end |-> t1]]
UnsubRc(c, x) == LET m == Mine(<<c, x.n, x.iv, x.dur, x.f>>) IN IF m = {} THEN 9 ELSE IF \E i \in m : subs[i].prov = "yes" THEN 0 ELSE -1
Unsubscribe(c, x, t0, t1) == LET k == <<c, x.n, x.iv, x.dur, x.f>> IN
  /\ Past(t0)
  /\ ended' = End(LAMBDA s : Key(s) = k, t1)
  /\ subs' = SelectSeq(subs, LAMBDA s : Key(s) # k)
  /\ UNCHANGED <<okq, slow, hist, rows, gone, hs>>
Close(c, t0, t1) ==
  /\ Past(t0) /\ c \in hs /\ hs' = hs \ {c}
  /\ ended' = End(LAMBDA s : s.c = c, t1)
  /\ subs' = SelectSeq(subs, LAMBDA s : s.c # c)
  /\ UNCHANGED <<okq, slow, hist, rows, gone>>
(* a consumer's process is killed *)
ProcOf(c) == IF c = "Lh" THEN "L" ELSE "K"
Kill(k, t0, t1) ==
  /\ Past(t0) /\ hs' = {c \in hs : ProcOf(c) # k}
  /\ ended' = End(LAMBDA s : ProcOf(s.c) = k, t1)
  /\ subs' = SelectSeq(subs, LAMBDA s : ProcOf(s.c) # k)
  /\ UNCHANGED <<okq, slow, hist, rows, gone>>
Open(c, t0) == Past(t0) /\ c \notin hs /\ hs' = hs \cup {c} /\ UNCHANGED <<okq, slow, hist, rows, gone, subs, ended>>
Latest(q) == IF Len(q) <= 12 THEN q ELSE SubSeq(q, Len(q) - 11, Len(q))
Value(p, v, by, t0, t1) ==
  /\ Past(t0)
  /\ hist' = [hist EXCEPT ![p] = IF Last(p).v = v THEN [@ EXCEPT ![Len(@)].by = @ \cup {by}]
                                   ELSE Latest(Append([@ EXCEPT ![Len(@)].to = t1], [v |-> v, from |-> t0, sure |-> t1, to |-> Big, by |-> {by}]))]
  /\ UNCHANGED <<okq, slow, rows, gone, subs, ended, hs>>
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
AddRow(r, t0, t1) == LET p == RN(r) IN
  /\ Past(t0)
  /\ rows' = (r :> t1) @@ rows
  /\ subs' = [i \in DOMAIN subs |-> LET s == subs[i] IN
       IF s.n = p /\ s.prov = "wait" THEN [s EXCEPT !.prov = "yes", !.t0 = t0, !.t1 = t1, !.k = 0, !.last = t1, !.kn = IF s.iv = 0 THEN p :> {Seen(s.f, Last(p).v)} ELSE @]
       ELSE IF s.n = "T.*.x" /\ s.iv = 0 /\ s.prov = "yes" THEN [s EXCEPT !.kn = (p :> {Seen(s.f, Last(p).v)}) @@ @] ELSE s]
  /\ UNCHANGED <<okq, slow, hist, gone, ended, hs>>
DelRow(r, t0, t1) == LET p == RN(r) IN
  /\ Past(t0)
  /\ rows' = Without(rows, r) /\ gone' = (r :> t1) @@ gone
  /\ ended' = End(LAMBDA s : Covers(s.n, p) /\ s.prov = "yes", t1)
  /\ subs' = [i \in DOMAIN subs |-> LET s == subs[i] IN
       IF s.n = p /\ s.prov = "yes" THEN [s EXCEPT !.prov = "no", !.kn = [q \in {} |-> {}]]
       ELSE [s EXCEPT !.kn = Without(@, p)]]
  /\ UNCHANGED <<okq, slow, hist, hs>>
(* reading A.q begins to fail, or to work again *)
Fail(on, t0, t1) ==
  /\ Past(t0) /\ on # okq.on
  /\ okq' = IF on THEN [okq EXCEPT !.on = TRUE, !.since = t1] ELSE [on |-> FALSE, since |-> t1, bad |-> t0]
  /\ UNCHANGED <<slow, hist, rows, gone, subs, ended, hs>>
(* P is replaced by a new process, which has no rows *)
Restart(t0, t1) ==
  /\ Past(t0)
  /\ rows' = [x \in {} |-> 0] /\ gone' = [r \in DOMAIN rows \cup DOMAIN gone |-> IF r \in DOMAIN rows THEN t0 ELSE gone[r]]
  /\ ended' = End(LAMBDA s : s.prov = "yes", t1)
  /\ subs' = [i \in DOMAIN subs |-> LET s == subs[i] IN
       IF s.prov # "yes" THEN s
       ELSE IF s.n \in RowProps THEN [s EXCEPT !.prov = "wait", !.kn = [q \in {} |-> {}]]
       ELSE [s EXCEPT !.t0 = t0, !.t1 = t1, !.last = t1, !.k = 0, !.re = t1,
                      !.kn = [q \in {y \in DOMAIN @ : y \notin RowProps} |-> {Seen(s.f, Last(q).v)}]]]
  /\ UNCHANGED <<okq, slow, hist, hs>>
Wait(t0) == Past(t0) /\ UNCHANGED <<okq, slow, hist, rows, gone, subs, ended, hs>>
Init == /\ okq = [on |-> TRUE, since |-> 0, bad |-> 0] /\ now = 0 /\ slow = 0 /\ hs = Handles /\ subs = <<>> /\ ended = <<>>
        /\ rows = (1 :> 0) /\ gone = [x \in {} |-> 0]
        /\ hist = [p \in Props |-> <<[v |-> 0, from |-> 0, sure |-> 0, to |-> Big, by |-> {"P"}]>>]
=============================================================================
