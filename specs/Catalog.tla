------------------------------ MODULE Catalog ------------------------------
(* Catalogs of datasets and materialized views.                             *)
(* cat: full name -> [kind, sch, rows, src, thr]; a full name is            *)
(* <<catalog, name>>.  A materialized view keeps the rows of its source     *)
(* whose column 2 is greater than thr, as of its last refresh.              *)
EXTENDS Rows

NoDs == [kind |-> "none", sch |-> 0, rows |-> <<>>, src |-> <<"", "">>, thr |-> 0]

Has(cat, n) == n \in DOMAIN cat
Get(cat, n) == IF Has(cat, n) THEN cat[n] ELSE NoDs
Put(cat, n, d) == [x \in DOMAIN cat \cup {n} |-> IF x = n THEN d ELSE cat[x]]

CreateOk(cat, n) == ~Has(cat, n)
Create(cat, n, s) ==
  IF CreateOk(cat, n) THEN Put(cat, n, [NoDs EXCEPT !.kind = "dataset", !.sch = s]) ELSE cat

\* src is the dataset or the view the new view reads
Materialize(cat, n, src, thr) ==
  IF CreateOk(cat, n)
  THEN Put(cat, n, [NoDs EXCEPT !.kind = "view", !.sch = Get(cat, src).sch, !.src = src, !.thr = thr])
  ELSE cat

Above(rows, thr) == SelectSeq(rows, LAMBDA r : r[2] > thr)

Append_(cat, n, rows) == Put(cat, n, [Get(cat, n) EXCEPT !.rows = @ \o rows])
Delete_(cat, n, e) == Put(cat, n, [Get(cat, n) EXCEPT !.rows = WhereNot(@, e)])
Refresh(cat, n) ==
  Put(cat, n, [Get(cat, n) EXCEPT !.rows = Above(Get(cat, Get(cat, n).src).rows, Get(cat, n).thr)])

Listed(cat, c) == {x[2] : x \in {y \in DOMAIN cat : y[1] = c}}
=============================================================================
