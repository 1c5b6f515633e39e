-------------------------------- MODULE Stream --------------------------------
(* What the routing daemon does with the byte streams of its clients, as the clients see it.

   Every client writes a sequence of frames, in pieces of any size.  A frame is [id, to, len, kind]:
   kind "good" (a message for the client `to`), "none" (well formed, for nobody), or "bad" (no
   message at all: from there on nothing is promised about that client's own stream).
   A message is delivered when its last byte has been written: not before, not twice, in order,
   and whatever the other clients write.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS Client
VARIABLES open,      \* clients connected
          frames,    \* client -> Seq of frames it has started to write or will write next
          written,   \* client -> number of bytes written
          got,       \* <<from, to>> -> Seq of ids delivered
          ghost      \* ids of frames of ended connections whose streams were spoilt: may still come out
svars == <<open, frames, written, got, ghost>>

RECURSIVE EndOf(_, _)
EndOf(fs, k) == IF k = 0 THEN 0 ELSE EndOf(fs, k - 1) + fs[k].len
Complete(c)  == {k \in DOMAIN frames[c] : EndOf(frames[c], k) <= written[c]}
FirstBad(c)  == LET b == {k \in DOMAIN frames[c] : frames[c][k].kind = "bad"} IN
                IF b = {} THEN Len(frames[c]) + 1 ELSE CHOOSE k \in b : \A j \in b : k <= j
(* a stream is spoilt as soon as a byte of a bad frame has been written *)
Spoilt(c)    == FirstBad(c) <= Len(frames[c]) /\ written[c] > EndOf(frames[c], FirstBad(c) - 1)
Due(c, d)    == LET ks == {k \in Complete(c) : k < FirstBad(c) /\ frames[c][k].kind = "good" /\ frames[c][k].to = d}
                    s  == SetToSortSeq(ks, <)
                IN [i \in DOMAIN s |-> frames[c][s[i]].id]
(* what may come out of the rest of a spoilt stream: at most once each, in order, maybe damaged *)
Late(c, d)   == {frames[c][k].id : k \in {j \in DOMAIN frames[c] : j >= FirstBad(c) /\ written[c] > EndOf(frames[c], j - 1)}}

SInit == open = {} /\ frames = [c \in Client |-> <<>>] /\ written = [c \in Client |-> 0]
         /\ got = [p \in Client \X Client |-> <<>>] /\ ghost = {}
Open(c) == /\ c \notin open
           /\ open' = open \cup {c}
           \* what was completed for an earlier connection of c is not for this one
           /\ frames' = [x \in Client |-> IF x = c THEN <<>> ELSE
                          [k \in DOMAIN frames[x] |-> IF frames[x][k].kind = "good" /\ frames[x][k].to = c /\ k \in Complete(x)
                                                     THEN [frames[x][k] EXCEPT !.kind = "none"] ELSE frames[x][k]]]
           /\ written' = [written EXCEPT ![c] = 0]
           /\ got' = [p \in Client \X Client |-> IF c \in {p[1], p[2]} THEN <<>> ELSE got[p]]
           /\ UNCHANGED ghost
Frame(c, f) == /\ c \in open /\ frames' = [frames EXCEPT ![c] = Append(@, f)]
               /\ UNCHANGED <<open, written, got, ghost>>
Write(c, n) == /\ c \in open /\ written[c] + n <= EndOf(frames[c], Len(frames[c]))
               /\ written' = [written EXCEPT ![c] = @ + n]
               /\ UNCHANGED <<open, frames, got, ghost>>
Deliver(c, d, id, intact) ==
  IF id \in ghost THEN d \in open /\ UNCHANGED svars ELSE
  /\ c \in open /\ d \in open
  /\ got' = [got EXCEPT ![<<c, d>>] = Append(@, id)]
  /\ IF IsPrefix(got'[<<c, d>>], Due(c, d)) THEN intact
     ELSE Spoilt(c) /\ id \in Late(c, d) /\ (IF got[<<c, d>>] = <<>> THEN TRUE ELSE Last(got[<<c, d>>]) < id)
  /\ UNCHANGED <<open, frames, written, ghost>>
Close(c) == /\ c \in open /\ open' = open \ {c}
            /\ ghost' = IF Spoilt(c) THEN ghost \cup UNION {Late(c, d) : d \in Client} ELSE ghost
            /\ UNCHANGED <<frames, written, got>>
(* the daemon has nothing left to do *)
Settled == \A c, d \in open : IsPrefix(Due(c, d), got[<<c, d>>])
SNext == \E c \in Client :
  \/ Open(c) \/ Close(c)
  \/ \E n \in 1..100 : Write(c, n)
  \/ \E d \in Client, k \in DOMAIN frames[c] : Deliver(c, d, frames[c][k].id, TRUE)
  \/ \E f \in [id : Nat, to : Client, len : Nat, kind : {"good", "none", "bad"}] : Frame(c, f)
(* nothing unfinished, foreign or out of order has ever been delivered from an unspoilt stream *)
InOrder == \A c, d \in open : Spoilt(c) \/ IsPrefix(got[<<c, d>>], Due(c, d))
=============================================================================
