----------------------------- MODULE TracePrune ----------------------------
(* Validates which files a filtered read of a real dataset opens, and what  *)
(* it returns, against Prune.                                               *)
(* Events: files (the rows of every file, read directly), prune (the files  *)
(* kept for a filter), pread (the rows a filtered read returned), pdelete   *)
(* (the rows left after a deletion).                                        *)
EXTENDS Prune, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, files, dead, tr
vars == <<l, files, dead, tr>>
Init == l = 1 /\ files = <<>> /\ dead = TRUE /\ tr = ""

Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names_(cs) == [i \in 1..Len(cs) |-> cs[i][1]]
AllRows == Flatten(files)
HasMatch(rows, e) == \E i \in 1..Len(rows) : Matches(e, rows[i])
\* The recorded statistics [column, known, lo, hi] of a file.
StatOk(rows, s) ==
  LET x == Stat(rows, s[1]) IN
  /\ x.k => (s[2] = 1 /\ s[3] = x.lo /\ s[4] = x.hi)
  /\ ~x.k => s[2] = 0

Step(ev) ==
  CASE ev.ev = "files" ->
         [s |-> ev.files,
          cs |-> << <<"layout.rows", SameBag(Flatten(ev.files), ev.rows)>>,
                    <<"layout.stats", \A i \in 1..Len(ev.files) :
                        \A j \in 1..Len(ev.stats[i]) : StatOk(ev.files[i], ev.stats[i][j])>> >>]
    [] ev.ev = "prune" ->
         [s |-> files,
          cs |-> IF ev.out # "ok" THEN << <<"prune.outcome/" \o ev.out, FALSE>> >>
                 ELSE << <<"prune.lost", \A i \in 1..Len(files) :
                             HasMatch(files[i], ev.pred) => i \in Range(ev.kept)>>,
                         <<"prune.unknown", Range(ev.kept) \subseteq 1..Len(files)>>,
                         <<"prune.twice", ~HasDup(ev.kept)>> >>]
    [] ev.ev = "pread" ->
         [s |-> files,
          cs |-> IF ev.out # "ok" THEN << <<"prune.outcome/" \o ev.out, FALSE>> >>
                 ELSE << <<"prune.rows", SameBag(Where(AllRows, ev.pred), ev.rows)>> >>]
    [] ev.ev = "pdelete" ->
         [s |-> files,
          cs |-> IF ev.out # "ok" THEN << <<"pdelete.outcome/" \o ev.out, FALSE>> >>
                 ELSE << <<"pdelete.rows", SameBag(WhereNot(AllRows, ev.pred), ev.rows)>> >>]
    [] ev.ev = "fact" -> [s |-> files, cs |-> << <<ev.what, ev.ok>> >>]
    [] OTHER -> [s |-> files, cs |-> << <<"unknown event " \o ev.ev, FALSE>> >>]

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.ev = "reset" THEN files' = <<>> /\ dead' = FALSE /\ tr' = ev.tr
     ELSE IF dead THEN UNCHANGED <<files, dead, tr>>
     ELSE LET r == Step(ev)
              f == Failing(r.cs)
          IN IF f = <<>> THEN files' = r.s /\ UNCHANGED <<dead, tr>>
             ELSE PrintT(<<"FAIL", tr, l, Names_(f)>>) /\ dead' = TRUE /\ UNCHANGED <<files, tr>>
Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
