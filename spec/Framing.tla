------------------------------- MODULE Framing -------------------------------
(* The daemon's reading of its clients' sockets (rtRouted_OnReadyRead ...): one state machine per
   client - preamble, rest of the header, payload - which asks for the bytes it still misses and
   takes what is there.  It refines Stream: for every way of cutting and interleaving the streams. *)
EXTENDS Stream, TLC
CONSTANTS Pre,       \* bytes of the preamble
          MaxA, MaxB \* frames per client
VARIABLES consumed,  \* client -> bytes read by the daemon
          st,        \* client -> "pre", "hdr", "pay", or "lost"
          miss,      \* client -> bytes still missing in that state
          cur        \* client -> index of the frame being read
fvars == <<open, frames, written, got, ghost, consumed, st, miss, cur>>
FClient == {"a", "b"}
FInit == SInit /\ consumed = [c \in Client |-> 0] /\ st = [c \in Client |-> "pre"] /\ miss = [c \in Client |-> Pre]
         /\ cur = [c \in Client |-> 1]
(* (a client that comes back is known to the daemon when what was sent before has been handled) *)
AllRead == \A c \in open : consumed[c] = written[c] \/ st[c] = "lost"
FOpen(c) == /\ AllRead /\ Open(c) /\ consumed' = [consumed EXCEPT ![c] = 0] /\ st' = [st EXCEPT ![c] = "pre"]
            /\ miss' = [miss EXCEPT ![c] = Pre] /\ cur' = [cur EXCEPT ![c] = 1]
F == UNCHANGED <<consumed, st, miss, cur>>
(* header lengths: the frame says how long its header is; len = header + payload *)
Hdr(f) == f.hdr
Pay(f) == f.len - f.hdr
Dispatch(c, f) ==
  got' = IF f.kind = "good" /\ f.to \in open THEN [got EXCEPT ![<<c, f.to>>] = Append(@, f.id)] ELSE got
Go(c, s, m, k) == st' = [st EXCEPT ![c] = s] /\ miss' = [miss EXCEPT ![c] = m] /\ cur' = [cur EXCEPT ![c] = k]
Read(c) ==
  /\ c \in open /\ st[c] # "lost"
  /\ \E n \in 1..(written[c] - consumed[c]) :
       /\ n <= miss[c]
       /\ consumed' = [consumed EXCEPT ![c] = @ + n]
       /\ LET f == frames[c][cur[c]] IN
          IF n < miss[c] THEN Go(c, st[c], miss[c] - n, cur[c]) /\ UNCHANGED got
          ELSE IF st[c] = "pre" THEN
                 (IF f.kind = "bad" THEN Go(c, "lost", 1, cur[c]) ELSE Go(c, "hdr", Hdr(f) - Pre, cur[c])) /\ UNCHANGED got
          ELSE IF st[c] = "hdr" /\ Pay(f) > 0 THEN Go(c, "pay", Pay(f), cur[c]) /\ UNCHANGED got
          ELSE Dispatch(c, f) /\ Go(c, "pre", Pre, cur[c] + 1)
  /\ UNCHANGED <<open, frames, written, ghost>>
NewId == 1 + Max({0} \cup ghost \cup {frames[x][k].id : <<x, k>> \in {p \in Client \X (1..(MaxA + MaxB)) : p[2] \in DOMAIN frames[p[1]]}})
Kinds(c) == {[id |-> NewId, to |-> d, hdr |-> Pre + 1, len |-> Pre + 1 + p, kind |-> k] :
               d \in Client \ {c}, p \in 0..2, k \in {"good", "bad"}}
FNext == \E c \in Client :
  \/ FOpen(c)
  \/ Close(c) /\ F
  \/ Len(frames[c]) < (IF c = "a" THEN MaxA ELSE MaxB) /\ open = Client /\ (\E f \in Kinds(c) : Frame(c, f)) /\ F
  \/ \E n \in 1..5 : Write(c, n) /\ F
  \/ Read(c)
FSpec == FInit /\ [][FNext]_fvars
(* when everything written has been read, everything due has been delivered *)
Settling == AllRead => \A c, d \in open : Spoilt(c) \/ IsPrefix(Due(c, d), got[<<c, d>>])
(* every step is a step of Stream (or changes nothing Stream speaks of) *)
Sub_ == [][\/ \E c \in Client : Open(c) \/ Close(c) \/ (\E n \in 1..5 : Write(c, n)) \/ (\E f \in Kinds(c) : Frame(c, f))
           \/ \E c, d \in Client : \E k \in DOMAIN frames[c] : Deliver(c, d, frames[c][k].id, TRUE)]_svars
Few == NewId <= MaxA + MaxB + 1
NotBehind == \A c \in open : st[c] # "lost" => EndOf(frames[c], cur[c] - 1) <= consumed[c]
=============================================================================
