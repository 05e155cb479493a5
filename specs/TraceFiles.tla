----------------------------- MODULE TraceFiles ----------------------------
(* Validates the file system steps of real operations against Files, at     *)
(* every step: whichever the process died at, what is visible is complete.  *)
(* Events: start (the files of a dataset), op (steps of an operation and     *)
(* the files it published), where files are numbers and 1 is the entry point.*)
EXTENDS Files, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fs, dead, tr
vars == <<l, fs, dead, tr>>
Init == l = 1 /\ fs = Fs({}, {}, {}) /\ dead = TRUE /\ tr = ""
Entry == 1
Set(s) == {s[i] : i \in 1..Len(s)}

Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names_(cs) == [i \in 1..Len(cs) |-> cs[i][1]]

\* The state after the steps from i on, or the first step that is not allowed.
RECURSIVE Run(_, _, _, _)
Run(f, ss, i, new) ==
  IF i > Len(ss) THEN [f |-> f, bad |-> 0]
  ELSE IF ~Allowed(f, ss[i], Entry, new) THEN [f |-> f, bad |-> i]
  ELSE Run(After(f, ss[i], Entry, new), ss, i + 1, new)

Why(f, s, new) ==
  IF Publishes(s, Entry) THEN
    IF ~((new \cup {s.q}) \subseteq f.here) THEN "order.publish/missing" ELSE "order.publish/incomplete"
  ELSE IF Entry \in Touches(s) THEN "order.entry/" \o s.k ELSE "order.kept/" \o s.k

Publications(ss) == Cardinality({i \in 1..Len(ss) : Publishes(ss[i], Entry)})

\* rw: whether the operation is meant to change the dataset and has succeeded
OpCs(ev) ==
  LET new == Set(ev.new)
      r == Run(fs, ev.steps, 1, new) IN
  [s |-> r.f,
   cs |-> << <<IF r.bad = 0 THEN "order" ELSE Why(r.f, ev.steps[r.bad], new), r.bad = 0>>,
             <<"order.published", r.bad = 0 => Publications(ev.steps) = IF ev.rw THEN 1 ELSE 0>>,
             <<"order.end", r.bad = 0 => Complete(r.f, new)>>,
             \* what was published before stays
             <<"order.forgotten", r.bad = 0 => ev.there>> >>]

Step(ev) ==
  CASE ev.ev = "start" -> [s |-> Fs(Set(ev.here), {}, Set(ev.kept)), cs |-> <<>>]
    [] ev.ev = "op" -> OpCs(ev)
    [] ev.ev = "fact" -> [s |-> fs, cs |-> << <<ev.what, ev.ok>> >>]
    [] OTHER -> [s |-> fs, cs |-> << <<"unknown event " \o ev.ev, FALSE>> >>]

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.ev = "reset" THEN fs' = Fs({}, {}, {}) /\ dead' = FALSE /\ tr' = ev.tr
     ELSE IF dead THEN UNCHANGED <<fs, dead, tr>>
     ELSE LET r == Step(ev)
              f == Failing(r.cs)
          IN IF f = <<>> THEN fs' = r.s /\ UNCHANGED <<dead, tr>>
             ELSE PrintT(<<"FAIL", tr, l, Names_(f)>>) /\ dead' = TRUE /\ UNCHANGED <<fs, tr>>
Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
