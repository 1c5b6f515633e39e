------------------------------- MODULE WatchMC -------------------------------
(* How the library meets the requirements of Watch, in steps of time: one thread polls all watched properties every
   Poll, one per interval subscription wakes up every interval; both may be late. Every event they produce must be one
   that Watch allows, and none may be overdue. *)
EXTENDS Watch
CONSTANTS MNames, MIvs, MDurs, MFilts, MVals, MHands, MaxT, MaxOps, Jitter, MFail
VARIABLES polled,   \* watched property -> the value it had when it was last looked at
          pnext,    \* when the polling thread wakes up (-1: there is none)
          ticker,   \* interval subscription -> [next, cnt]
          ops, ok,
          got       \* what each value-change subscription knows, from the events alone
mcvars == <<wvars, polled, pnext, ticker, ops, ok, got>>
MF0 == {<<>>}
MF1 == {<<>>, <<"rel", ">", 0>>}
MFiltsOf(iv) == IF iv = 0 THEN MFilts ELSE {<<>>}
MNone == [x \in {} |-> 0]
WatchedIn(q) == {p \in Props \ Unwatched : \E i \in DOMAIN q : q[i].iv = 0 /\ q[i].prov = "yes" /\ Covers(q[i].n, p) /\ p \in DOMAIN q[i].kn}
(* bring the library's records in line with who watches what; a property is looked at when it begins to be watched *)
Sync(q) ==
  /\ polled' = [p \in WatchedIn(q) |-> IF p \in DOMAIN polled THEN polled[p] ELSE Last(p).v]
  /\ pnext' = IF WatchedIn(q) = {} THEN -1 ELSE IF pnext = -1 THEN now + Poll ELSE pnext
  /\ ticker' = [k \in {Key(q[i]) : i \in {j \in DOMAIN q : q[j].iv > 0 /\ q[j].prov = "yes" /\ q[j].n \notin Unwatched}} |->
                IF k \in DOMAIN ticker THEN ticker[k] ELSE [next |-> now + k[3], cnt |-> 0]]
  /\ got' = [g \in {<<Key(q[i]), p>> : i \in {j \in DOMAIN q : q[j].iv = 0}, p \in WatchedIn(q)} |-> IF g \in DOMAIN got THEN got[g] ELSE <<>>]
Op == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED ok
DoSub == \E c \in hs \cap MHands, n \in MNames, iv \in MIvs : \E d \in (IF iv = 0 THEN {0} ELSE MDurs), f \in MFiltsOf(iv) :
  /\ (n = "A.q" => okq.on) /\ Op /\ SubRc(c, [n |-> n, iv |-> iv, dur |-> d, f |-> f, tag |-> 0]) = 0
  /\ Subscribe(c, [n |-> n, iv |-> iv, dur |-> d, f |-> f, tag |-> ops], now, now) /\ Sync(subs')
DoUnsub == \E i \in DOMAIN subs : Op /\ Unsubscribe(subs[i].c, [n |-> subs[i].n, iv |-> subs[i].iv, dur |-> subs[i].dur, f |-> subs[i].f], now, now) /\ Sync(subs')
DoValue == \E p \in MNames \cap Props, v \in MVals : v # Last(p).v /\ Op /\ Value(p, v, "P", now, now) /\ UNCHANGED <<polled, pnext, ticker, got>>
DoRow == RN(1) \in MNames /\ Op /\ (IF 1 \in DOMAIN rows THEN DelRow(1, now, now) ELSE AddRow(1, now, now)) /\ Sync(subs')
DoFail == "A.q" \in MNames /\ MFail /\ Op /\ Fail(~okq.on, now, now) /\ UNCHANGED <<polled, pnext, ticker, got>>
DoClose == \E c \in hs \cap MHands : Op /\ Close(c, now, now) /\ Sync(subs')

Readable(p) == p # "A.q" \/ okq.on
RECURSIVE Tell(_, _)
(* the polling thread's events: job = set of <<i, p>> *)
Tell(q, jobs) ==
  IF jobs = {} THEN [q |-> q, ok |-> TRUE]
  ELSE LET j == CHOOSE x \in jobs : TRUE
           s == Settled(q[j[1]], now)
           e == [n |-> j[2], o |-> polled[j[2]], w |-> Last(j[2]).v, by |-> "P",
                 flt |-> IF s.f = <<>> THEN "" ELSE IF Truth(s.f, Last(j[2]).v) THEN "T" ELSE "F"]
       IN IF ChangeOK(s, e, now) THEN Tell([q EXCEPT ![j[1]] = Changed(s, e)], jobs \ {j}) ELSE [q |-> q, ok |-> FALSE]
DoPoll ==
  /\ pnext # -1 /\ now >= pnext
  /\ LET jobs == {<<i, p>> \in (DOMAIN subs) \X DOMAIN polled :
                    /\ subs[i].iv = 0 /\ subs[i].prov = "yes" /\ Covers(subs[i].n, p) /\ p \in DOMAIN subs[i].kn /\ Readable(p)
                    /\ polled[p] # Last(p).v /\ Seen(subs[i].f, polled[p]) # Seen(subs[i].f, Last(p).v)}
         r == Tell(subs, jobs)
     IN subs' = r.q /\ ok' = (ok /\ r.ok)
        /\ got' = [g \in DOMAIN got |-> IF \E j \in jobs : g = <<Key(subs[j[1]]), j[2]>> THEN <<Last(g[2]).v>> ELSE got[g]]
  /\ polled' = [p \in DOMAIN polled |-> IF Readable(p) THEN Last(p).v ELSE polled[p]]
  /\ pnext' = now + Poll
  /\ UNCHANGED <<now, okq, slow, hist, rows, gone, ended, hs, ticker, ops>>
DoTick == \E k \in DOMAIN ticker :
  /\ now >= ticker[k].next
  /\ \E i \in DOMAIN subs : Key(subs[i]) = k /\
     LET s == subs[i]
         names == {p \in Props : Covers(s.n, p) /\ Here(p)}
         e == [data |-> [j \in 1..Cardinality(names) |-> LET f == CHOOSE g \in [1..Cardinality(names) -> names] : \A x, y \in DOMAIN g : g[x] = g[y] => x = y IN <<f[j], Last(f[j]).v>>],
               entries |-> IF s.n = "T.*.x" THEN Cardinality(names) ELSE -1]
     IN IF ~Readable(s.n) THEN ticker' = [ticker EXCEPT ![k].next = now + k[3]] /\ UNCHANGED <<ok, subs>>
        ELSE IF s.dur > 0 /\ ticker[k].cnt >= s.dur \div s.iv
        THEN /\ ok' = (ok /\ DoneOK(s, e, now)) /\ subs' = SelectSeq(subs, LAMBDA x : Key(x) # k)
             /\ ticker' = [x \in DOMAIN ticker \ {k} |-> ticker[x]]
        ELSE /\ ok' = (ok /\ TickOK(s, e, now)) /\ subs' = [subs EXCEPT ![i] = Ticked(s, now)]
             /\ ticker' = [ticker EXCEPT ![k] = [next |-> now + k[3], cnt |-> @.cnt + 1]]
  /\ UNCHANGED <<now, okq, slow, hist, rows, gone, ended, hs, polled, pnext, ops, got>>
Advance ==
  /\ now < MaxT
  /\ pnext # -1 => now < pnext + Jitter
  /\ \A k \in DOMAIN ticker : now < ticker[k].next + Jitter
  /\ now' = now + 1
  /\ UNCHANGED <<okq, slow, hist, rows, gone, subs, ended, hs, polled, pnext, ticker, ops, ok, got>>
MInit == Init /\ polled = MNone /\ pnext = -1 /\ ticker = MNone /\ ops = 0 /\ ok = TRUE /\ got = MNone
MNext == DoSub \/ DoUnsub \/ DoValue \/ DoRow \/ DoClose \/ DoFail \/ DoPoll \/ DoTick \/ Advance
MSpec == MInit /\ [][MNext]_mcvars
(* times only matter as distances; what ended does not matter, nor do tags *)
Rel(q) == [i \in DOMAIN q |-> [c |-> q[i].c, n |-> q[i].n, iv |-> q[i].iv, dur |-> q[i].dur, f |-> q[i].f, prov |-> q[i].prov, t0 |-> IF q[i].iv = 0 THEN 0 ELSE q[i].t0, t1 |-> q[i].t1, k |-> q[i].k, last |-> q[i].last, kn |-> q[i].kn]]
View == <<now, [p \in MNames \cap Props |-> SelectSeq(hist[p], LAMBDA x : x.to >= now - PollD)], rows, {Rel(subs)[i] : i \in DOMAIN subs}, polled, pnext, ticker, ops, ok, got, okq>>
Accepted == ok
NoneOverdue == \A i \in DOMAIN subs : ~Overdue(subs[i], now)
(* whoever watches a value that has long been the same has it from the events and the value it began with *)
Caught == \A i \in DOMAIN subs : subs[i].iv = 0 => \A p \in DOMAIN subs[i].kn : now > Max2(Max2(Last(p).sure, subs[i].t1), WorksSince(p)) + PollD =>
            (<<Key(subs[i]), p>> \in DOMAIN got /\ (got[<<Key(subs[i]), p>>] = <<>> \/ Seen(subs[i].f, got[<<Key(subs[i]), p>>][1]) = Seen(subs[i].f, Last(p).v)))
(* only what somebody watches is looked at *)
OnlyWatched == DOMAIN polled = WatchedIn(subs) /\ DOMAIN ticker \subseteq {Key(subs[i]) : i \in DOMAIN subs}
Bounded == \A i \in DOMAIN subs : (subs[i].iv > 0 /\ subs[i].dur > 0) => subs[i].k <= subs[i].dur \div subs[i].iv
=============================================================================
