------------------------------- MODULE Commit ------------------------------
(* The commit of google/space as file system steps: data files, a metadata  *)
(* file, a temporary file that is renamed to the entry point.  Processes    *)
(* interleave step by step and may die at any of them.  Window: whether     *)
(* other steps can come between a writer's last look at the entry point and *)
(* its renaming (there is no lock in google/space; known finding            *)
(* conc.window).                                                            *)
EXTENDS Files, TLC
CONSTANTS Procs, NFiles, MaxOps, Window
VARIABLES fs, entry, meta, pc, nops, log

vars == <<fs, entry, meta, pc, nops, log>>
Entry == <<"entry">>
Data(v, i) == <<"data", v, i>>
Meta(v) == <<"meta", v>>
Tmp(v) == <<"tmp", v>>

\* Versions are <<process, number>>; meta[v] = [base, files]: what the metadata file holds.
V0 == <<0, 0>>
Reach(m, v) == {Meta(v)} \cup m[v].files

Init ==
  /\ meta = (V0 :> [base |-> V0, files |-> {}])
  /\ fs = Fs({Entry, Meta(V0)}, {}, {Entry, Meta(V0)})
  /\ entry = V0
  /\ pc = [p \in Procs |-> [at |-> "idle", base |-> V0, i |-> 0]]
  /\ nops = 0
  /\ log = <<V0>>

Do(s, new) == /\ Allowed(fs, s, Entry, new)
              /\ fs' = After(fs, s, Entry, new)
S(k, p, q) == [k |-> k, p |-> p, q |-> q]
Go(p, at) == pc' = [pc EXCEPT ![p].at = at]

Begin(p) ==
  /\ pc[p].at = "idle" /\ nops < MaxOps
  /\ nops' = nops + 1
  /\ pc' = [pc EXCEPT ![p] = [at |-> "data", base |-> entry, i |-> 1, v |-> <<p, nops + 1>>]]
  /\ UNCHANGED <<fs, entry, meta, log>>

WriteData(p) ==
  LET f == Data(pc[p].v, pc[p].i) IN
  /\ pc[p].at = "data"
  /\ IF f \in fs.open
     THEN /\ Do(S("close", f, f), {})
          /\ pc' = IF pc[p].i = NFiles THEN [pc EXCEPT ![p].at = "meta"] ELSE [pc EXCEPT ![p].i = @ + 1]
     ELSE Do(S("openw", f, f), {}) /\ UNCHANGED pc
  /\ UNCHANGED <<entry, meta, nops, log>>

WriteMeta(p) ==
  LET v == pc[p].v
      f == Meta(v) IN
  /\ pc[p].at = "meta"
  /\ IF f \in fs.open
     THEN /\ Do(S("close", f, f), {}) /\ Go(p, "tmp")
          /\ meta' = (v :> [base |-> pc[p].base,
                            files |-> meta[pc[p].base].files \cup {Data(v, i) : i \in 1..NFiles}]) @@ meta
     ELSE Do(S("openw", f, f), {}) /\ UNCHANGED <<pc, meta>>
  /\ UNCHANGED <<entry, nops, log>>

WriteTmp(p) ==
  LET f == Tmp(pc[p].v) IN
  /\ pc[p].at = "tmp"
  /\ IF f \in fs.open THEN Do(S("close", f, f), {}) /\ Go(p, "check")
     ELSE Do(S("openw", f, f), {}) /\ UNCHANGED pc
  /\ UNCHANGED <<entry, meta, nops, log>>

Swap(p) ==
  LET v == pc[p].v IN
  /\ Do(S("rename", Entry, Tmp(v)), Reach(meta, v))
  /\ entry' = v /\ log' = Append(log, v) /\ Go(p, "idle")
  /\ UNCHANGED <<meta, nops>>

Check(p) ==
  /\ pc[p].at = "check"
  /\ IF entry # pc[p].base
     THEN Go(p, "idle") /\ UNCHANGED <<fs, entry, meta, nops, log>>
     ELSE IF Window THEN Go(p, "swap") /\ UNCHANGED <<fs, entry, meta, nops, log>>
     ELSE Swap(p)
Rename(p) == pc[p].at = "swap" /\ Swap(p)

\* The process dies: its files stay as they are, also incomplete ones; another
\* one takes its place.
Die(p) ==
  /\ pc[p].at # "idle"
  /\ Go(p, "idle")
  /\ UNCHANGED <<fs, entry, meta, nops, log>>

Next == \E p \in Procs : Begin(p) \/ WriteData(p) \/ WriteMeta(p) \/ WriteTmp(p) \/ Check(p) \/ Rename(p) \/ Die(p)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* What is visible is complete, whoever died.
Readable == Entry \in fs.here /\ Complete(fs, Reach(meta, entry))
\* All committed versions stay readable.
Kept == \A i \in 1..Len(log) : Complete(fs, Reach(meta, log[i]))
\* Every version continues the one that was current when it was committed.
NoneLost == \A i \in 2..Len(log) : meta[log[i]].base = log[i - 1]
\* No step of a process is ever refused by the rules of Files.
NeverStuck == \A p \in Procs : pc[p].at \notin {"idle"} =>
  ENABLED (WriteData(p) \/ WriteMeta(p) \/ WriteTmp(p) \/ Check(p) \/ Rename(p))
=============================================================================
