---------------------------- MODULE DataModelMC ----------------------------
(* Exhaustive exploration of DataModel for a small catalogue. *)
EXTENDS DataModel
E(p, k, f) == [p |-> p, k |-> k, f |-> f]
MComp == {"P", "Q"}
SetP == <<E(<<"A", "x">>, "p", {"g", "s"}), E(<<"T", Cu>>, "t", {"a", "r"}), E(<<"T", Cu, "x">>, "p", {"g", "s"})>>
SetQ == <<E(<<"A", "y">>, "p", {"g"}), E(<<"B">>, "p", {"g", "s"})>>
Extra == E(<<"S">>, "p", {"g", "s"})
V == {"v1", "v2"}
Names == {<<"A", "x">>, <<"A", "y">>, <<"B">>, <<"S">>, <<"T", "1", "x">>}
CONSTANTS MaxRows, Wide
MNext ==
  \/ Register("P", SetP) \/ Register("Q", SetQ) \/ Register("P", <<Extra>>) \/ Register("Q", <<Extra>>)
  \/ \E c \in Comp : Unregister(c, {<<"S">>})
  \/ \E p \in Names : Get("K", p, FALSE)
  \/ \E p \in Names, v \in V : Set("K", p, FALSE, v, 0, TRUE)
  \/ \E p, q \in Names, v \in V : p # q /\ SetMany("K", <<<<p, v>>, <<q, v>>>>, 0, TRUE)
  \/ GetMany("K", <<<<"A", "x">>, <<"B">>>>)
  \/ \E p \in {<<"A">>, <<"T">>, <<"T", "1">>} : GetWild("K", p, TRUE) \/ Info("K", p, TRUE, 2)
  \/ GetWild("K", <<"T", "*", "x">>, FALSE)
  \/ \E a \in {"", "al"} : (a = "" \/ ~\E r \in ToSet(rows) : r.alias = a) /\ AddRow("K", <<"T">>, TRUE, a)
  \/ \E p \in {<<"T", "1">>, <<"T", "[al]">>} : DelRow("K", p, TRUE) \/ (Wide /\ UnregRow("P", p))
  \/ RowNames("K", <<"T">>, TRUE)
  \/ Configure("P", "refuse", <<"A", "x">>, "v2", 9)
  \/ (Wide /\ Configure("Q", "set", <<"B">>, "", 7))
MSpec == Init /\ [][MNext]_dvars
Bound == nexti["P"] <= MaxRows + 1
(* what a value read says, and what wildcards return, follows from the store *)
View == <<reg, rows, vals, cfg, nexti, ghosts>>
ReadWhatIsStored == ans.op = "get" /\ ans.rc = {SUCCESS} => \E c \in Comp : \E p \in DOMAIN vals[c] : vals[c][p] = ans.v
WildExact == \A p \in {<<"A">>, <<"T">>} : \A x \in Matching(p, TRUE) : IsPrefix(p, x[3]) /\ Find(x[1], x[3]).ok /\ Owner(x[3]) = x[1]
EachOwned == \A c \in Comp : \A x \in Instances(c) : Owner(x[2]) = c /\ Find(c, x[2]).ok
=============================================================================
