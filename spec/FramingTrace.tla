----------------------------- MODULE FramingTrace -----------------------------
(* What raw clients wrote to and received from the real daemon, against Stream. *)
EXTENDS Stream, TraceBase
VARIABLES t, l
tvars == <<open, frames, written, got, ghost, t, l>>
TClient == {"a", "b", "c", "d"}
ev == Traces[t][l]
Step(e) ==
  CASE e.op = "open"  -> Open(e.c)
    [] e.op = "frame" -> Frame(e.c, e.f)
    [] e.op = "write" -> Write(e.c, e.n)
    [] e.op = "got"   -> Deliver(e.from, e.to, e.id, e.intact)
    [] e.op = "close" -> Close(e.c)
    [] e.op = "drop"  -> Spoilt(e.c) /\ Close(e.c)     \* the daemon ended a spoilt connection
    [] e.op = "sync"  -> Settled /\ UNCHANGED svars
    [] OTHER -> FALSE
TInit == SInit /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ \/ Step(ev)
            \/ ~ENABLED Step(ev) /\ PrintT(<<"MISMATCH", t, l, [p \in {q \in Client \X Client : q[1] \in open /\ q[2] \in open} |-> <<Due(p[1], p[2]), got[p]>>], 0>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
