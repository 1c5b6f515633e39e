--------------------------- MODULE DataModelTrace ---------------------------
(* Recorded runs of the real library against DataModel. *)
EXTENDS DataModel, TraceBase
CONSTANT Focus
VARIABLES t, l
tvars == <<reg, rows, vals, cfg, nexti, ghosts, tsub, ans, calls, notes, t, l>>
TComp == {"P", "Q"}
ev == Traces[t][l]
El(x) == [p |-> x.p, k |-> x.k, f |-> ToSet(x.f)]
Step(e) ==
  CASE e.op = "reg"      -> Register(e.c, [i \in DOMAIN e.els |-> El(e.els[i])])
    [] e.op = "unreg"    -> Unregister(e.c, {x.p : x \in ToSet(e.ps)})
    [] e.op = "get"      -> Get(e.k, e.p, e.dot)
    [] e.op = "set"      -> Set(e.k, e.p, e.dot, e.v, e.session, e.commit)
    [] e.op = "getm"     -> GetMany(e.k, e.ps)
    [] e.op = "getw"     -> GetWild(e.k, e.p, e.dot)
    [] e.op = "setm"     -> SetMany(e.k, e.ps, e.session, e.commit)
    [] e.op = "addrow"   -> AddRow(e.k, e.p, e.dot, e.alias)
    [] e.op = "delrow"   -> DelRow(e.k, e.p, e.dot)
    [] e.op = "regrow"   -> RegRow(e.c, e.p, e.inst, e.alias)
    [] e.op = "unregrow" -> UnregRow(e.c, e.p)
    [] e.op = "rows"     -> RowNames(e.k, e.p, e.dot)
    [] e.op = "info"     -> Info(e.k, e.p, e.dot, e.depth)
    [] e.op = "store"    -> Store(e.c, e.p, e.v)
    [] e.op = "cfg"      -> Configure(e.c, e.kind, e.p, e.v, e.code)
    [] e.op = "subt"     -> SubTable(e.k, e.p)
    [] OTHER -> FALSE
SameBag(x, y) == Len(x) = Len(y) /\ \A v \in ToSet(x) : Cardinality({k \in DOMAIN x : x[k] = v}) = Cardinality({k \in DOMAIN y : y[k] = v})
AnsOK(a, e) ==
  /\ e.rc \in a.rc
  /\ e.rc = 0 => CASE a.op = "get"    -> e.v = a.v
                   [] a.op = "getm"   -> SameBag(e.props, a.props)
                   [] a.op = "getw"   -> ToSet(e.props) = a.set /\ Len(e.props) = Cardinality(a.set) /\ e.num = Len(e.props)
                   [] a.op = "addrow" -> e.inst = a.inst
                   [] a.op = "rows"   -> SameBag(e.rows, a.rows)
                   [] a.op = "info"   -> ~a.all \/ (Len(e.els) = Cardinality(a.set) /\ {[x EXCEPT !.f = ToSet(@)] : x \in ToSet(e.els)} = a.set)
                   [] OTHER -> TRUE
  /\ a.op = "setm" => e.failed \in a.failed \/ SUCCESS \in a.rc
(* what the provider applications hold: the whole store, when it was read *)
StoreOK(e) == "store" \in DOMAIN e => \A c \in Comp : ToSet(e.store[c]) = {<<p, vals'[c][p]>> : p \in DOMAIN vals'[c]}
CallsOK(e) == (e.op \notin {"getw", "setm", "getm"} \/ calls' # <<>>) => \A c \in Comp : SelectSeq(e.calls, LAMBDA x : x.c = c) = SelectSeq(calls', LAMBDA x : x.c = c)
NotesOK(e) == Len(e.notes) = Cardinality(notes') /\ ToSet(e.notes) = notes'
Matches == CASE Focus = "D01" -> (ev.op \in {"get", "set"} => AnsOK(ans', ev) /\ CallsOK(ev)) /\ (ev.op = "set" => StoreOK(ev))
             [] Focus = "D02" -> (ev.op = "setm" => AnsOK(ans', ev)) /\ StoreOK(ev)
             [] Focus = "D03" -> (ev.op \in {"getm", "getw", "info"} => AnsOK(ans', ev))
             [] Focus = "D04" -> (ev.op \in {"addrow", "delrow", "regrow", "unregrow", "rows", "getw", "info", "get", "set"} => AnsOK(ans', ev)) /\ NotesOK(ev) /\ (ev.op \in {"addrow", "delrow"} => CallsOK(ev))
             [] OTHER -> AnsOK(ans', ev) /\ CallsOK(ev) /\ StoreOK(ev) /\ NotesOK(ev)
TInit == Init /\ t \in 1..NTraces /\ l = 1 /\ InitRegs /\ Note(t, 1)
TNext == /\ l <= Len(Traces[t])
         /\ Step(ev)
         /\ \/ Matches
            \/ PrintT(<<"MISMATCH", t, l, ans', calls', notes'>>) /\ FALSE
         /\ l' = l + 1 /\ t' = t
         /\ Note(t, l + 1)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
