------------------------------ MODULE Handles -------------------------------
(* Handles of two processes: what each of them has made, and what becomes of it when it is closed.
   A handle: [s: slot, c: component name, n: number]. Things made: [s, k: "el"|"sub"|"msg", x: name, tag]. *)
EXTENDS Integers, Sequences, FiniteSets
OK == 0
NOHANDLE == 11
Proc(s) == IF s \in {"a", "b", "e"} THEN "P" ELSE "Q"
(* the handle a process has open under a component name *)
Named(H, p, c) == {h \in H : h.c = c /\ Proc(h.s) = p}
Made(M, s) == {m \in M : m.s = s}
Kind(M, k) == {m \in M : m.k = k}
Owner(M, x) == {m \in M : m.k = "el" /\ m.x = x}
Hearing(M, k, x) == {m \in M : m.k = k /\ m.x = x}
=============================================================================
