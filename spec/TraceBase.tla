----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications: a batch of recorded traces, each of which must be a
   behaviour of the specification.  Registers keep how far each trace could be followed. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
NTraces == Len(Traces)
Note(t, l) == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
InitRegs == \A i \in 1..NTraces : TLCSet(i, 0)
Rejected == {i \in 1..NTraces : TLCGet(i) # Len(Traces[i]) + 1}
Report == /\ \A i \in Rejected : PrintT(<<"REJECTED", i, TLCGet(i)>>)
          /\ PrintT(<<"VALIDATED", NTraces - Cardinality(Rejected)>>)
=============================================================================
