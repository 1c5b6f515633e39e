----------------------------- MODULE EventsTrace -----------------------------
(* Recorded runs of the real library against Events. *)
EXTENDS Events, TraceBase, SequencesExt
VARIABLES t, l
tvars == <<evars, t, l>>
ev == Traces[t][l]
Same == Quiet /\ UNCHANGED <<up, rows, vals, refuse, hs, ps, cs>>
Plain(x) == [n |-> x.n, f |-> x.f, raw |-> x.raw]
RaceStep(e) == IF e.kind = "sub" THEN Subscribe(e.c, <<e.x>>) ELSE Unsubscribe(e.c, <<Plain(e.x)>>)
Step(e) ==
  CASE e.op = "sub"    -> Subscribe(e.c, e.xs)
    [] e.op = "unsub"  -> Unsubscribe(e.c, e.xs)
    [] e.op = "pub"    -> Publish(e.p, e.us)
    [] e.op = "race"   -> RaceStep(e)
    [] e.op = "addrow" -> AddRow(e.r, e.alias)
    [] e.op = "delrow" -> DelRow(e.r)
    [] e.op = "refuse" -> Refuse(e.n, e.code)
    [] e.op = "val"    -> SetVal(e.n, e.v)
    [] e.op = "down"   -> Down(e.p)
    [] e.op = "up"     -> Up(e.p)
    [] e.op = "close"  -> CloseHandle(e.c)
    [] e.op = "open"   -> Open(e.c)
    [] e.op = "kill"   -> Kill(e.a)
    [] e.op \in {"setup", "has", "end"} -> Same
    [] OTHER -> FALSE
Bag(q, s) == Len(q) = Len(s) /\ \A v \in ToSet(q) : Cardinality({i \in DOMAIN q : q[i] = v}) = Cardinality({i \in DOMAIN s : s[i] = v})
RECURSIVE Chunks(_, _)
Chunks(q, cc) == IF cc = <<>> THEN q = <<>>
                 ELSE /\ Len(q) >= Len(Head(cc)) /\ Bag(SubSeq(q, 1, Len(Head(cc))), Head(cc))
                      /\ Chunks(SubSeq(q, Len(Head(cc)) + 1, Len(q)), Tail(cc))
For(a, cc) == [i \in DOMAIN cc |-> SelectSeq(cc[i], LAMBDA x : Agent(x.c) = a)]
GotOK(e, cc) == \A a \in {"K", "L"} : Chunks(SelectSeq(e.got, LAMBDA x : Agent(x.c) = a), For(a, cc))
RcIn(x, want) == x = want \/ (want = -1 /\ x \in {0, 1, 23})
RcOK(e) ==
  CASE e.op = "sub" -> e.rc = out'.rc
    [] e.op = "unsub" -> IF Len(e.xs) = 1 THEN RcIn(e.rc, out'.rc)
                         ELSE IF 9 \in ToSet(out'.rcs) THEN (IF out'.rc = 9 THEN e.rc \in {9, 1} ELSE e.rc \in {0, 1, 9})
                         ELSE e.rc = 0 \/ (e.rc = 1 /\ -1 \in ToSet(out'.rcs))
    [] e.op = "pub" -> Len(e.rcs) = Len(out'.rcs) /\ \A i \in DOMAIN e.rcs : RcIn(e.rcs[i], out'.rcs[i])
    [] e.op = "has" -> (e.rc = 1) = Has(e.c, e.x)
    [] OTHER -> e.rc = 0
(* publications beside a subscribe or unsubscribe: that subscription gets a suffix or a prefix, the others everything *)
IsMine(e, x) == x.c = e.c /\ x.sub = e.x.n /\ (IF e.kind = "sub" THEN x.tag = e.x.tag
                ELSE \E i \in At(cs, <<e.c, e.x.n, <<>>, FALSE>>) : x.tag = cs[i].tag)
TagNow(e) == IF e.kind = "sub" THEN e.x.tag ELSE cs[CHOOSE i \in At(cs, <<e.c, e.x.n, <<>>, FALSE>>) : TRUE].tag
RaceOK(e) ==
  LET base == [i \in DOMAIN e.us |-> SelectSeq(EventsOf(e.p, e.us[i]), LAMBDA x : ~IsMine(e, x))]
      mine == SelectSeq(e.got, LAMBDA x : IsMine(e, x))
      all == [i \in DOMAIN e.us |-> [c |-> e.c, tag |-> TagNow(e), sub |-> e.x.n, n |-> e.us[i].n, t |-> 3, d |-> e.us[i].d]]
      others == \E i \in Live(e.us[1].n) : Key(ps[i]) # <<e.c, e.x.n, <<>>, FALSE>>
  IN /\ GotOK([e EXCEPT !.got = SelectSeq(@, LAMBDA x : ~IsMine(e, x))], base)
     /\ IF e.kind = "sub" THEN IsSuffix(mine, all) ELSE IsPrefix(mine, all)
     /\ RcIn(e.rc, out'.rc)
     /\ \A i \in DOMAIN e.rcs : e.rcs[i] \in (IF others THEN {0} ELSE {0, 23})
     /\ Bag(e.told, out'.told)
Matches == IF ev.op = "race" THEN RaceOK(ev)
           ELSE RcOK(ev) /\ GotOK(ev, out'.got) /\ Bag(ev.told, out'.told)
TInit == Init /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ Step(ev)
         /\ \/ Matches
            \/ PrintT(<<"MISMATCH", t, l, out', ps, cs>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
