------------------------------ MODULE FramingGen ------------------------------
(* Generator: ways of cutting, interleaving and spoiling the byte streams of four clients. *)
EXTENDS Stream, Json, IOUtils, TLC
CONSTANTS Depth
VARIABLE hist
gvars == <<open, frames, written, got, ghost, hist>>
GClient == {"a", "b", "c", "d"}
R(S) == RandomElement(S)
Ev(r) == hist' = Append(hist, r)
Hdr == 64                                     \* 52 + topic (6) + reply topic (6)
Sizes == {0, 0, 1, 7, 58, 200, 4095, 65470, 65535, 65536, 65537, 70000, 200000}
BadHow == {"marker", "version", "hlen0", "hlen3", "hlen6", "hlensmall", "hlenbig", "plenbig", "plenhuge", "endmarker", "topiclen", "replylen"}
NoneHow == {"nowhere", "nowherereq", "junksub", "junksub2", "emptysub", "junkquery", "emptyquery", "junkowner", "emptyowner", "junkenum", "emptyenum", "emptydiag", "junkdiag"}
Left(c) == EndOf(frames[c], Len(frames[c])) - written[c]
NextEnd(c) == LET ks == {k \in DOMAIN frames[c] : EndOf(frames[c], k) > written[c]} IN
              EndOf(frames[c], CHOOSE k \in ks : \A j \in ks : k <= j)
NextLen(c) == LET ks == {k \in DOMAIN frames[c] : EndOf(frames[c], k) > written[c]} IN
              frames[c][CHOOSE k \in ks : \A j \in ks : k <= j].len
GFrame(c, kind, how, to, size) ==
  LET f == [id |-> Len(hist) + 1, to |-> to, len |-> Hdr + size, kind |-> kind] IN
  Frame(c, f) /\ Ev([op |-> "frame", c |-> c, f |-> f, how |-> how, size |-> size])
GWrite(c, n) == n > 0 /\ Write(c, n) /\ Ev([op |-> "write", c |-> c, n |-> n])
Cut(c) == \* how many bytes to write: into the preamble, into or to the end of the header, into or to the end of the payload, beyond
  LET e == NextEnd(c) - written[c]
      s == NextLen(c) - e      \* bytes of that frame already written
      k == R(1..10)
      w == CASE k = 1 -> R(1..5) [] k = 2 -> R(7..(Hdr - 1)) [] k = 3 -> Hdr - s [] k = 4 -> Hdr - s + 1
             [] k = 5 -> R(1..e) [] k = 6 -> e [] k = 7 -> e - 1 [] k = 8 -> e + R(1..6) [] OTHER -> Left(c)
  IN IF w <= 0 THEN 1 ELSE IF w > Left(c) THEN Left(c) ELSE w
GNext ==
  /\ Len(hist) < Depth
  /\ IF open # GClient /\ (Cardinality(open) < 2 \/ R(1..8) = 1)
     THEN \E c \in {R(GClient \ open)} : Open(c) /\ Ev([op |-> "open", c |-> c])
     ELSE \E c \in {R(open)}, k \in {R(1..100)} :
       IF Left(c) > 0 /\ k <= 50 THEN \E n \in {Cut(c)} : GWrite(c, n)
       ELSE IF k <= 84 THEN \E d \in {R(open)}, s \in {R(Sizes)} : GFrame(c, "good", "", d, s)
       ELSE IF k <= 90 THEN \E h \in {R(NoneHow)} : GFrame(c, "none", h, c, 20)
       ELSE IF k <= 93 THEN \E h \in {R(BadHow)}, d \in {R(open)} : GFrame(c, "bad", h, d, R({0, 7, 200}))
       ELSE IF k <= 96 /\ Cardinality(open) > 1 THEN Close(c) /\ Ev([op |-> "close", c |-> c])
       ELSE UNCHANGED svars /\ Ev([op |-> "sync"])
GInit == SInit /\ hist = <<>>
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(hist) = Depth => JsonSerialize(IOEnv.GEN \o ToString(TLCGet("stats").traces) \o ".json", hist)
=============================================================================
