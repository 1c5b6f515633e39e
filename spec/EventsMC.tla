------------------------------ MODULE EventsMC ------------------------------
(* The events specification by itself: every history of a small system. *)
EXTENDS Events
CONSTANTS MNames, MHandles, MFilters, MRefuse, MRaw
F0 == {<<>>}
F1 == {<<>>, <<"rel", "=", 1>>}
VARIABLES bal,     \* told of subscriptions minus told of their ends, per element
          orphan,  \* subscriptions that a provider dropped: with a row, or refusing them when it was back
          last     \* the last operation
mvars == <<evars, bal, orphan, last>>
MSubs == {[n |-> n, f |-> f, raw |-> raw, tag |-> 0, pos |-> FALSE] : n \in MNames, f \in MFilters, raw \in MRaw}
Sane(x) == ~(x.raw /\ x.f # <<>>) /\ ~(x.n = "T." /\ x.f # <<>>) /\ (x.raw => x.n \notin {"T.*.ev!", "T.*.v"})
One == {x \in MSubs : Sane(x)}
RECURSIVE Count(_, _, _)
Count(q, n, a) == IF q = <<>> THEN 0 ELSE (IF Head(q).n = n /\ Head(q).a = a /\ (a = 1 \/ Head(q).rc = 0) THEN 1 ELSE 0) + Count(Tail(q), n, a)
Tally(b) == [n \in DOMAIN b |-> b[n] + Count(out'.told, n, 0) - Count(out'.told, n, 1)]
Keys(q, P(_)) == {Key(x) : x \in {q[i] : i \in {j \in DOMAIN q : P(q[j])}}}
Att == Keys(ps, LAMBDA x : x.att)
All(x) == TRUE
MInit == Init /\ bal = [n \in MNames |-> 0] /\ orphan = {} /\ last = "init"
Kept == orphan' = orphan \cap Keys(cs', All)
MNext ==
  \/ /\ \E c \in hs \cap MHandles, x \in One : \E more \in {<<>>} \cup {<<y>> : y \in {z \in One : z # x /\ z.raw = x.raw}} :
          Subscribe(c, <<x>> \o more) /\ orphan' = {k \in orphan : At(cs', k) # {} /\ At(ps', k) = {}}
     /\ bal' = Tally(bal) /\ last' = "sub"
  \/ \E c \in hs \cap MHandles, x \in One : Unsubscribe(c, <<x>>) /\ bal' = Tally(bal) /\ Kept /\ last' = "unsub"
  \/ \E n \in {m \in Names : Exists(m) /\ m \notin {"T.", "T.*.ev!", "T.*.v"} /\ \E x \in MNames : Covers(x, m)}, t \in {"G"} \cup (IF TRUE \in MRaw THEN {"R"} ELSE {}), w \in 0..1 :
       Publish(Info[n].p, <<[n |-> n, t |-> t, d |-> "d", o |-> 0, w |-> w]>>) /\ bal' = Tally(bal) /\ Kept /\ last' = "pub"
  \/ AddRow(1, "") /\ bal' = Tally(bal) /\ last' = "row"
       /\ orphan' = (orphan \cap Keys(cs', All)) \cup {k \in Keys(ps, LAMBDA x : ~x.att) : At(ps', k) = {} /\ At(cs', k) # {}}
  \/ DelRow(1) /\ bal' = [n \in DOMAIN bal |-> IF Info[n].row = 1 THEN 0 ELSE Tally(bal)[n]] /\ last' = "row"
       /\ orphan' = (orphan \cap Keys(cs', All)) \cup {k \in Att : At(ps', k) = {} /\ At(cs', k) # {}}
  \/ \E p \in {"P"} : Down(p) /\ bal' = [n \in DOMAIN bal |-> IF Info[n].p = p THEN 0 ELSE bal[n]] /\ orphan' = orphan /\ last' = "down"
  \/ \E p \in {"P"} : Up(p) /\ bal' = Tally(bal) /\ last' = "up"
       /\ orphan' = orphan \cup {k \in Keys(ps, LAMBDA x : ~x.att) : At(ps', k) = {} /\ At(cs', k) # {}}
  \/ \E c \in MHandles : CloseHandle(c) /\ bal' = Tally(bal) /\ Kept /\ last' = "close"
  \/ \E c \in MHandles : Open(c) /\ UNCHANGED <<bal, orphan>> /\ last' = "open"
  \/ \E n \in MRefuse, code \in {0, 1} : (code = 0) = (n \in DOMAIN refuse) /\ Refuse(n, code) /\ UNCHANGED <<bal, orphan>> /\ last' = "refuse"
MSpec == MInit /\ [][MNext]_mvars

Distinct(q) == \A i, j \in DOMAIN q : Key(q[i]) = Key(q[j]) => i = j
(* nobody is held twice for the same thing *)
Unique == Distinct(ps) /\ Distinct(cs)
(* a subscription that a consumer holds and did not withdraw is in effect, unless its element is away
   or the provider dropped it, and a provider holds none but for such consumers *)
InEffect == \A i \in DOMAIN cs : (~cs[i].dirty /\ Exists(cs[i].n) /\ Key(cs[i]) \notin orphan) => Key(cs[i]) \in Att
Owed == \A k \in Att : At(cs, k) # {}
(* the subscribe handler is told of the beginning and the end of each subscription in turn *)
Told == \A n \in MNames : Handled(n) => bal[n] = Cardinality({i \in DOMAIN ps : ps[i].att /\ ps[i].n = n})
(* nothing is left of a consumer that has gone *)
NothingLeft == \A i \in DOMAIN ps : ps[i].c \in hs
Attached == \A i \in DOMAIN ps : ps[i].att => Exists(ps[i].n)
(* a subscription that fails changes nothing *)
AllOrNone == [][last' = "sub" /\ out'.rc # 0 => Keys(ps', All) \subseteq Keys(ps, All) /\ Keys(cs', LAMBDA x : ~x.dirty) \subseteq Keys(cs, LAMBDA x : ~x.dirty) /\ out'.got = <<>>]_mvars
(* coming back, a provider has all its subscriptions that it does not refuse *)
Restored == [][last' = "up" => \A i \in DOMAIN cs : (~cs[i].dirty /\ Info[cs[i].n].p \in up' \ up /\ Info[cs[i].n].row = 0
                               /\ RefusalOf(cs[i].n) = 0 /\ Key(cs[i]) \notin orphan) => Key(cs[i]) \in {Key(ps'[j]) : j \in {k \in DOMAIN ps' : ps'[k].att}}]_mvars
View == <<up, rows, refuse, hs, {ps[i] : i \in DOMAIN ps}, {cs[i] : i \in DOMAIN cs}, bal, orphan>>
=============================================================================
