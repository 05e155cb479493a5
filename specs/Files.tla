------------------------------- MODULE Files -------------------------------
(* The file system steps of an operation on a dataset.  A state has         *)
(* here (files that exist), open (files being written) and kept (files that *)
(* the published state of the dataset refers to, with the entry point).     *)
(* A process may die after any step: whatever is published must be complete *)
(* when it is published and must not be touched afterwards.                 *)
EXTENDS Integers, Sequences, FiniteSets

Fs(here, open, kept) == [here |-> here, open |-> open, kept |-> kept]

\* s: the step [k, p, q]; entry: the entry point; new: the files the state
\* that is published by this operation refers to.
Touches(s) == IF s.k \in {"openw", "write", "unlink"} THEN {s.p}
              ELSE IF s.k = "rename" THEN {s.p, s.q} ELSE {}
Publishes(s, entry) == s.k = "rename" /\ s.p = entry

Complete(f, ps) == ps \subseteq f.here /\ ps \cap f.open = {}

Allowed(f, s, entry, new) ==
  IF Publishes(s, entry) THEN Complete(f, new \cup {s.q}) /\ s.q \notin f.kept
  ELSE Touches(s) \cap (f.kept \cup {entry}) = {}

After(f, s, entry, new) ==
  CASE s.k = "openw" -> [f EXCEPT !.here = @ \cup {s.p}, !.open = @ \cup {s.p}]
    [] s.k = "close" -> [f EXCEPT !.open = @ \ {s.p}]
    [] s.k = "unlink" -> [f EXCEPT !.here = @ \ {s.p}, !.open = @ \ {s.p}]
    [] s.k = "rename" ->
         [f EXCEPT !.here = (@ \ {s.q}) \cup {s.p},
                   !.open = IF s.q \in @ THEN (@ \ {s.q}) \cup {s.p} ELSE @ \ {s.p},
                   !.kept = IF s.p = entry THEN @ \cup new \cup {entry} ELSE @]
    [] OTHER -> f
=============================================================================
