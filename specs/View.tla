------------------------------- MODULE View -------------------------------
(* Views: chains of map and filter transforms of a dataset, and             *)
(* materialized views that are brought up to date from its change log.      *)
(*                                                                          *)
(* A stage is [t, cols, p, rows]: it reads the columns cols of its input;   *)
(*   filter: keeps the rows that satisfy p                                  *)
(*   map: every row becomes one row per template [p, e] in rows whose       *)
(*        condition p holds; e are the expressions of its columns           *)
(* A materialized view mv is [head, vers]: vers maps the id of a version to *)
(*   [par, rows].                                                           *)
EXTENDS SpaceOps

RECURSIVE Exp(_, _)
Exp(e, row) ==
  CASE e.k = "c" -> row[e.x]
    [] e.k = "v" -> e.x
    [] e.k = "t" ->  \* a table of values
         IF \E i \in 1..Len(e.tab) : e.tab[i][1] = row[e.x]
         THEN (CHOOSE y \in {e.tab[i][2] : i \in {j \in 1..Len(e.tab) : e.tab[j][1] = row[e.x]}} : TRUE)
         ELSE e.d
    [] e.k = "if" -> IF Matches(e.p, row) THEN Exp(e.a, row) ELSE Exp(e.b, row)

MapRow(ts, row) ==
  Flatten([i \in 1..Len(ts) |-> IF Matches(ts[i].p, row)
                                THEN <<[j \in 1..Len(ts[i].e) |-> Exp(ts[i].e[j], row)]>> ELSE <<>>])

Stage(s, rows) ==
  LET in == ProjectAll(rows, s.cols) IN
  IF s.t = "filter" THEN Where(in, s.p) ELSE Flatten([i \in 1..Len(in) |-> MapRow(s.rows, in[i])])

RECURSIVE Chain(_, _)
Chain(ss, rows) == IF ss = <<>> THEN rows ELSE Chain(Tail(ss), Stage(Head(ss), rows))

---------------------------------------------------------------------------
\* The versions after version from up to version to; <<-1>> if from is not an ancestor.
RECURSIVE PathTo(_, _, _)
PathTo(snaps, from, to) ==
  IF to = from THEN <<>>
  ELSE IF to \notin DOMAIN snaps \/ to <= 0 THEN <<-1>>
  ELSE LET p == PathTo(snaps, from, snaps[to].par) IN IF p = <<-1>> THEN p ELSE Append(p, to)

InitMv == [head |-> 0, vers |-> [i \in {0} |-> [par |-> -1, rows |-> <<>>]]]

\* One source version is replayed: deletions by key, then additions.
Replay(rows, s, ss, vpk) ==
  SelectSeq(rows, LAMBDA r : ~KeyIn(Project(r, vpk), Range(s.del))) \o Chain(ss, s.add)

MvStep(mv, snaps, id, ss, vpk) ==
  [head |-> id,
   vers |-> [i \in DOMAIN mv.vers \cup {id} |->
               IF i = id THEN [par |-> mv.head, rows |-> Replay(mv.vers[mv.head].rows, snaps[id], ss, vpk)]
               ELSE mv.vers[i]]]

RECURSIVE MvRun(_, _, _, _, _)
MvRun(mv, snaps, ids, ss, vpk) ==
  IF ids = <<>> THEN mv ELSE MvRun(MvStep(mv, snaps, Head(ids), ss, vpk), snaps, Tail(ids), ss, vpk)

\* A refresh goes forward from the version of the view, never beyond main.
RefreshOk(mv, snaps, main, to) == to <= main /\ to # mv.head /\ PathTo(snaps, mv.head, to) # <<-1>>

Refresh(mv, snaps, to, ss, vpk) == MvRun(mv, snaps, PathTo(snaps, mv.head, to), ss, vpk)

---------------------------------------------------------------------------
\* Keys of a version, and of those before it, are unique and not null.
KeysUnique(rows, pk) ==
  LET ks == Keys(rows, pk) IN ~HasDup(ks) /\ \A i \in 1..Len(ks) : NoNull(ks[i])
RECURSIVE Clean(_, _, _)
Clean(snaps, id, pk) == id <= 0 \/ (KeysUnique(snaps[id].rows, pk) /\ Clean(snaps, snaps[id].par, pk))

\* The materialized view is the view of the source.
MvEquals(mv, snaps, id, ss, pk) ==
  Clean(snaps, id, pk) => SameBag(mv.vers[id].rows, Chain(ss, snaps[id].rows))
=============================================================================
