------------------------------ MODULE AsyncSub ------------------------------
(* Asynchronous subscriptions, as requirements with times: each call has exactly one outcome, unless it is cancelled or
   its handle is closed, in which case nothing of it remains.
   P provides E.a, E.b, A.p, and E.c once it is registered; each name has an answer: -1 while nobody provides it,
   0 if a subscription is accepted, another error code if it is refused. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Eps, Slack, Lag, Grace, Answer
VARIABLES
  now,
  ans,     \* name -> latest answers: [v, from, sure, to]
  slow,    \* time P takes to answer and response handlers take
  hs,      \* open handles -> their time-out
  pend,    \* [c, n, f, iv, tag, t0, t1, lim]
  subs,    \* [c, n, f, iv, tag, at, last]
  ended,   \* ended in any way: [s, end]
  odd,     \* names of which P may know subscriptions that we do not
  pubs     \* latest publications: [n, d, t1, must, got]
avars == <<now, ans, slow, hs, pend, subs, ended, odd, pubs>>
Names == {"E.a", "E.b", "E.c", "A.p"}
Handles == {"Kh", "Kg", "Lh"}
ProcOf(c) == IF c = "Lh" THEN "L" ELSE "K"
Big == 1000000000
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Queue == slow * 6
LagD == Lag + Queue
Cur(n) == ans[n][Len(ans[n])]
Up(n) == Cur(n).v # -1
Held(n, v, a, b) == \E i \in DOMAIN ans[n] : ans[n][i].v = v /\ ans[n][i].from <= b /\ ans[n][i].to >= a
(* P vanished between a and b: an attempt that was being made then ends without an answer, at the latest after Answer *)
Died(n, a, b) == \E i \in DOMAIN ans[n] : ans[n][i].v # -1 /\ ans[n][i].to >= a /\ ans[n][i].to <= b
Same(s, c, x) == s.c = c /\ s.n = x.n /\ s.f = x.f
Key(s) == <<s.c, s.n, s.f, s.iv>>
At(q, P(_)) == {i \in DOMAIN q : P(q[i])}

(* ---- what must have happened by t ---- *)
(* P vanished while the same process waited for an answer to another attempt *)
Hung(p, t) == IF \E n \in Names : Died(n, p.t0 - Answer, t) THEN Answer * Len(pend) ELSE 0
(* attempts are made at once and then after waiting 1 s, 2 s, 4 s ..., so at the latest after twice the time elapsed *)
Late(p, t) ==
  \/ t > p.t0 + p.lim + Slack + Queue + Hung(p, t)
  \/ Up(p.n) /\ LET s == Max2(Cur(p.n).sure, p.t1) IN t > Min2(p.t0 + 2 * (s - p.t0) + 1000, Max2(p.t0 + p.lim, s)) + Slack + Queue + Hung(p, t)
Silent(s, t) == s.iv > 0 /\ Up(s.n) /\ t > Max2(Max2(s.last, s.at), Cur(s.n).sure) + s.iv + Slack + Queue
Lost(p, t) == t > p.t1 + LagD /\ ~(p.must \subseteq p.got)
Past(t) == /\ \A i \in DOMAIN pend : ~Late(pend[i], t)
           /\ \A i \in DOMAIN subs : ~Silent(subs[i], t)
           /\ \A i \in DOMAIN pubs : ~Lost(pubs[i], t)
           /\ now' = Max2(now, t)
End(q, P(_), t1) == SelectSeq(ended, LAMBDA x : x.end + Grace + LagD >= now) \o [i \in DOMAIN SelectSeq(q, P) |-> [s |-> SelectSeq(q, P)[i], end |-> t1]]
(* events on their way to a subscription that ends need not arrive *)
Excuse(P(_)) == [i \in DOMAIN pubs |-> [pubs[i] EXCEPT !.must = {m \in @ : ~(\E j \in DOMAIN subs : subs[j].c = m[1] /\ subs[j].tag = m[2] /\ P(subs[j]))}]]

(* ---- the outcome of one ---- *)
RespOK(p, rc, t) ==
  CASE rc = 0 -> Held(p.n, 0, t - LagD, t)
    [] rc = 20 -> t >= p.t0 + p.lim - Eps /\ Held(p.n, -1, t - LagD, t)
    [] OTHER -> rc # -1 /\ ((rc = 24 /\ p.n \in odd) \/ Held(p.n, rc, t - LagD, t) \/ (rc = 1 /\ Died(p.n, t - Answer - LagD, t)))
Resp(e, t) ==
  /\ Past(t)
  /\ LET its == At(pend, LAMBDA p : p.c = e.c /\ p.tag = e.tag) IN
     IF its # {} THEN
       \E i \in its : LET p == pend[i] IN
         /\ e.sub = p.n /\ RespOK(p, e.rc, t)
         /\ pend' = SelectSeq(pend, LAMBDA q : q # p)
         /\ subs' = IF e.rc = 0 THEN Append(subs, [c |-> p.c, n |-> p.n, f |-> p.f, iv |-> p.iv, tag |-> p.tag, at |-> t, last |-> t]) ELSE subs
         (* P may have died after it accepted: it still knows the subscription when it returns *)
         /\ odd' = IF e.rc = 1 /\ Died(p.n, t - Answer - LagD, t) THEN odd \cup {p.n} ELSE odd
         /\ ended' = IF e.rc = 0 THEN ended ELSE Append(ended, [s |-> [p EXCEPT !.t1 = -1], end |-> t])
     (* while a call that cancels it has not returned *)
     ELSE /\ \E i \in DOMAIN ended : LET x == ended[i] IN x.s.c = e.c /\ x.s.tag = e.tag /\ "lim" \in DOMAIN x.s /\ x.s.t1 # -1 /\ t <= x.end + Eps
          /\ ended' = [i \in DOMAIN ended |-> IF ended[i].s.c = e.c /\ ended[i].s.tag = e.tag THEN [ended[i] EXCEPT !.s = [@ EXCEPT !.t1 = -1]] ELSE ended[i]]
          /\ UNCHANGED <<pend, subs, odd>>
  /\ UNCHANGED <<ans, slow, hs, pubs>>

(* ---- calls, between t0 and t1 ---- *)
Exists(c, x) == (\E i \in DOMAIN subs : Key(subs[i]) = <<c, x.n, x.f, x.iv>>) \/ (\E i \in DOMAIN pend : Same(pend[i], c, x))
(* items which are repeated in one call, or exist: the call fails, and those before it are undone *)
BadItem(c, xs) == {j \in DOMAIN xs : Exists(c, xs[j]) \/ \E k \in 1..(j - 1) : xs[k].n = xs[j].n /\ xs[k].f = xs[j].f}
(* one that P refuses ends before its handler is called *)
Ending(p, t) == p.lim + p.t0 <= t + Answer \/ \E i \in DOMAIN ans[p.n] : ans[p.n][i].v \notin {-1, 0} /\ ans[p.n][i].from <= t /\ ans[p.n][i].to >= t - LagD
AsyncRcs(c, xs, t) ==
  LET bad == BadItem(c, xs) IN
  IF bad = {} THEN {0}
  ELSE IF \A j \in bad : /\ ~(\E i \in DOMAIN subs : Key(subs[i]) = <<c, xs[j].n, xs[j].f, xs[j].iv>>)
                          /\ ~(\E k \in 1..(j - 1) : xs[k].n = xs[j].n /\ xs[k].f = xs[j].f)
                          /\ \A i \in DOMAIN pend : Same(pend[i], c, xs[j]) => Ending(pend[i], t)
       THEN {0, 24} ELSE {24}
Item(c, x, t0, t1, lim) == [c |-> c, n |-> x.n, f |-> x.f, iv |-> x.iv, tag |-> x.tag, t0 |-> t0, t1 |-> t1, lim |-> lim]
Async(c, xs, lim, rc, t0, t1) ==
  /\ Past(t0)
  /\ LET new == [j \in DOMAIN xs |-> Item(c, xs[j], t0, t1, lim)]
         bad == BadItem(c, xs)
         first == IF bad = {} THEN 0 ELSE CHOOSE j \in bad : \A k \in bad : j <= k
     IN IF rc = 0 THEN pend' = pend \o new /\ UNCHANGED ended
        ELSE /\ ended' = ended \o [j \in 1..(first - 1) |-> [s |-> new[j], end |-> t1]] /\ UNCHANGED pend
  /\ UNCHANGED <<ans, slow, hs, subs, odd, pubs>>
SyncRcs(c, x, t) == (IF Exists(c, x) THEN {24} ELSE {}) \cup
                   (IF 0 \in AsyncRcs(c, <<x>>, t) THEN {IF ~Up(x.n) THEN 20 ELSE Cur(x.n).v} \cup (IF x.n \in odd THEN {24} ELSE {}) ELSE {})
Sync(c, x, rc, t0, t1) ==
  /\ Past(t0)
  /\ subs' = IF rc = 0 THEN Append(subs, [c |-> c, n |-> x.n, f |-> x.f, iv |-> x.iv, tag |-> x.tag, at |-> t1, last |-> t1]) ELSE subs
  /\ UNCHANGED <<ans, slow, hs, pend, ended, odd, pubs>>
(* P died while one of these was being attempted, perhaps *)
Torn(P(_), t1) == {pend[i].n : i \in At(pend, LAMBDA p : P(p) /\ Died(p.n, p.t0, t1))}
(* how = "one": the call that names the event only need not find a pending one *)
UnsubRcs(c, x, how, t) ==
  IF \E i \in DOMAIN subs : Key(subs[i]) = <<c, x.n, x.f, x.iv>> THEN {0}
  ELSE IF \E i \in DOMAIN pend : Same(pend[i], c, x) THEN (IF how = "one" \/ \A i \in DOMAIN pend : Same(pend[i], c, x) => Ending(pend[i], t) THEN {0, 9} ELSE {0}) ELSE {9}
Unsub(c, x, how, rc, t0, t1) ==
  /\ Past(t0)
  /\ IF rc # 0 THEN UNCHANGED <<pend, subs, ended, pubs>>
     ELSE IF \E i \in DOMAIN subs : Key(subs[i]) = <<c, x.n, x.f, x.iv>> THEN
       LET its(s) == Key(s) = <<c, x.n, x.f, x.iv>> IN
       /\ pubs' = Excuse(its) /\ ended' = End(subs, its, t1) /\ subs' = SelectSeq(subs, LAMBDA s : ~its(s)) /\ UNCHANGED pend
     ELSE /\ ended' = End(pend, LAMBDA p : Same(p, c, x), t1) /\ pend' = SelectSeq(pend, LAMBDA p : ~Same(p, c, x)) /\ UNCHANGED <<subs, pubs>>
  /\ odd' = odd \cup Torn(LAMBDA p : Same(p, c, x), t1)
  /\ UNCHANGED <<ans, slow, hs>>
Gone(P(_), t1) ==
  /\ pubs' = Excuse(P)
  /\ ended' = End(subs \o pend, P, t1)
  /\ subs' = SelectSeq(subs, LAMBDA s : ~P(s)) /\ pend' = SelectSeq(pend, LAMBDA s : ~P(s))
Without(f, D) == [y \in DOMAIN f \ D |-> f[y]]
(* P is not told of handles that close while it is away, and not of applications that are killed *)
Close(c, t0, t1) ==
  /\ Past(t0) /\ c \in DOMAIN hs /\ hs' = Without(hs, {c})
  /\ Gone(LAMBDA s : s.c = c, t1)
  /\ odd' = odd \cup {subs[i].n : i \in At(subs, LAMBDA s : s.c = c /\ ~Up(s.n))} \cup Torn(LAMBDA p : p.c = c, t1)
  /\ UNCHANGED <<ans, slow>>
Kill(k, t0, t1) ==
  /\ Past(t0) /\ hs' = Without(hs, {c \in DOMAIN hs : ProcOf(c) = k})
  /\ Gone(LAMBDA s : ProcOf(s.c) = k, t1)
  /\ odd' = odd \cup {subs[i].n : i \in At(subs, LAMBDA s : ProcOf(s.c) = k)} \cup {pend[i].n : i \in At(pend, LAMBDA s : ProcOf(s.c) = k)}
  /\ UNCHANGED <<ans, slow>>
Open(c, lim, t0) == Past(t0) /\ c \notin DOMAIN hs /\ hs' = ((c :> lim) @@ hs) /\ UNCHANGED <<ans, slow, pend, subs, ended, odd, pubs>>

(* ---- P ---- *)
Latest(q, k) == IF Len(q) <= k THEN q ELSE SubSeq(q, Len(q) - k + 1, Len(q))
Answers(a, t0, t1) == ans' = [n \in Names |-> IF n \notin DOMAIN a \/ a[n] = Cur(n).v THEN ans[n]
                                ELSE Latest(Append([ans[n] EXCEPT ![Len(ans[n])].to = t1], [v |-> a[n], from |-> t0, sure |-> t1, to |-> Big]), 8)]
(* P starts or registers E.c, refuses or accepts from now on, or is killed: a: the names whose answer changes *)
Change(a, t0, t1) == /\ Past(t0) /\ Answers(a, t0, t1)
                     /\ pubs' = IF \E n \in DOMAIN a : a[n] = -1 THEN [i \in DOMAIN pubs |-> [pubs[i] EXCEPT !.must = @ \cap pubs[i].got]] ELSE pubs
                     /\ UNCHANGED <<slow, hs, pend, subs, ended, odd>>
Its(n) == {<<subs[i].c, subs[i].tag>> : i \in At(subs, LAMBDA s : s.n = n /\ s.iv = 0)}
PubRcs(n, t1) ==
  LET sure == \E i \in DOMAIN subs : subs[i].n = n
      may == n \in odd \/ (\E i \in DOMAIN pend : pend[i].n = n) \/ (\E i \in DOMAIN ended : ended[i].s.n = n /\ t1 <= ended[i].end + Grace + LagD)
  IN IF sure THEN {0} ELSE IF may THEN {0, 23} ELSE {23}
Publish(n, d, t0, t1) ==
  /\ Past(t0) /\ Up(n)
  /\ pubs' = Latest(Append(pubs, [n |-> n, d |-> d, t1 |-> t1, must |-> Its(n), got |-> {}]), 12)
  /\ UNCHANGED <<ans, slow, hs, pend, subs, ended, odd>>
Event(e, t) ==
  /\ Past(t)
  /\ \/ \E i \in DOMAIN subs : /\ subs[i].c = e.c /\ subs[i].tag = e.tag /\ subs[i].n = e.sub /\ e.sub = e.n
          /\ IF e.k = "tick" THEN subs[i].iv > 0 /\ subs' = [subs EXCEPT ![i].last = t] /\ UNCHANGED pubs
             ELSE /\ subs[i].iv = 0 /\ \E j \in DOMAIN pubs : pubs[j].n = e.n /\ pubs[j].d = e.d /\ <<e.c, e.tag>> \notin pubs[j].got
                                           /\ pubs' = [pubs EXCEPT ![j].got = @ \cup {<<e.c, e.tag>>}]
                  /\ UNCHANGED subs
     \/ /\ \E i \in DOMAIN ended : ended[i].s.c = e.c /\ ended[i].s.tag = e.tag /\ t <= ended[i].end + Grace + LagD
        /\ UNCHANGED <<subs, pubs>>
  /\ UNCHANGED <<ans, slow, hs, pend, ended, odd>>
Wait(t0) == Past(t0) /\ UNCHANGED <<ans, slow, hs, pend, subs, ended, odd, pubs>>
Init == /\ now = 0 /\ slow = 0 /\ hs = [c \in Handles |-> 6000] /\ pend = <<>> /\ subs = <<>> /\ ended = <<>> /\ odd = {} /\ pubs = <<>>
        /\ ans = [n \in Names |-> <<[v |-> -1, from |-> 0, sure |-> 0, to |-> Big]>>]
=============================================================================
