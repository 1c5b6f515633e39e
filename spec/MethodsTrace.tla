---------------------------- MODULE MethodsTrace ----------------------------
EXTENDS Methods, TraceBase, SequencesExt
VARIABLES t, l, half   \* half: calls that timed out while this step was made have been accounted for
tvars == <<reg, beh, open, used, runs, done, t, l, half>>
ev == Traces[t][l]
Step(e) ==
  CASE e.op = "start"   -> Start(e.calls)
    [] e.op = "respond" -> Respond(e.rs)
    [] e.op = "beh"     -> Behave(e.m, [code |-> e.code, out |-> e.out, later |-> e.later])
    [] e.op = "reg"     -> Register(e.c, e.m)
    [] e.op = "unreg"   -> Unregister(e.c, e.m)
    [] e.op = "expire"  -> (\A i \in DOMAIN open : ~open[i].short) /\ runs' = {} /\ done' = {} /\ UNCHANGED <<reg, beh, open, used>>
    [] e.op = "end"     -> runs' = {} /\ done' = {} /\ UNCHANGED <<reg, beh, open, used>>
    [] OTHER -> FALSE
Count(s, v) == Cardinality({x \in s : x[2] = v})
SameBag(q, s) == Len(q) = Cardinality(s) /\ \A v \in ToSet(q) : Cardinality({n \in DOMAIN q : q[n] = v}) = Count(s, v)
(* a call which timed out although the provider's answer was on its way at about that time *)
Matches == /\ SameBag(ev.runs, runs') /\ SameBag(ev.done, done')
TInit == Init /\ t \in 1..NTraces /\ l = 1 /\ half = FALSE /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ IF ~half /\ ev.expired # <<>>
            THEN /\ Expire(ToSet(ev.expired)) /\ half' = TRUE /\ UNCHANGED <<t, l>>
            ELSE /\ Step(ev)
                 /\ \/ Matches
                    \/ PrintT(<<"MISMATCH", t, l, runs', done', DOMAIN open>>) /\ FALSE
                 /\ l' = l + 1 /\ t' = t /\ half' = FALSE
                 /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
