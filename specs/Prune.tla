------------------------------- MODULE Prune -------------------------------
(* Skipping files by the statistics of their columns.                       *)
(* A file is a sequence of rows; its statistics of a column are [k, lo, hi]:*)
(* minimum and maximum of the values that are neither null nor NaN; k tells *)
(* whether they are known.  Columns outside of the key have no statistics.  *)
EXTENDS Rows

Vals(rows, c) == {rows[i][c] : i \in 1..Len(rows)} \ {NULL, NAN}
Stat(rows, c) ==
  LET s == Vals(rows, c) IN
  IF s = {} THEN [k |-> FALSE, lo |-> 0, hi |-> 0]
  ELSE [k |-> TRUE, lo |-> CHOOSE x \in s : \A y \in s : x <= y,
        hi |-> CHOOSE x \in s : \A y \in s : x >= y]

---------------------------------------------------------------------------
(* The definition: the truth values a filter can take in a file with given  *)
(* statistics.  st maps columns to statistics.                              *)
Iv(o, st) == IF o.t = "c" THEN st[o.x] ELSE [k |-> TRUE, lo |-> o.x, hi |-> o.x]

CanBe(op, a, b) ==
  CASE op = "gt" -> a.hi > b.lo
    [] op = "gte" -> a.hi >= b.lo
    [] op = "lt" -> a.lo < b.hi
    [] op = "lte" -> a.lo <= b.hi
    [] op = "equal" -> a.hi >= b.lo /\ a.lo <= b.hi
    [] op = "not_equal" -> ~(a.lo = a.hi /\ b.lo = b.hi /\ a.lo = b.lo)

Neg(op) == CASE op = "gt" -> "lte" [] op = "gte" -> "lt" [] op = "lt" -> "gte"
             [] op = "lte" -> "gt" [] op = "equal" -> "not_equal" [] op = "not_equal" -> "equal"
IsCol(o) == o.t = "c"

RECURSIVE Poss(_, _)
Poss(e, st) ==
  CASE e.k = "true" -> {T}
    [] e.k = "false" -> {F}
    [] e.k = "cmp" ->
         LET a == Iv(e.l, st)
             b == Iv(e.r, st)
             col == IsCol(e.l) \/ IsCol(e.r)
         IN  IF ~a.k \/ ~b.k THEN {T, F, U}
             ELSE (IF CanBe(e.op, a, b) \/ (col /\ e.op = "not_equal") THEN {T} ELSE {})
                  \cup (IF CanBe(Neg(e.op), a, b) \/ (col /\ e.op # "not_equal") THEN {F} ELSE {})
                  \cup (IF col THEN {U} ELSE {})
    [] e.k = "and" -> {And3(x, y) : x \in Poss(e.l, st), y \in Poss(e.r, st)}
    [] e.k = "or" -> {Or3(x, y) : x \in Poss(e.l, st), y \in Poss(e.r, st)}
    [] e.k = "not" -> {Not3(x) : x \in Poss(e.l, st)}
    [] OTHER -> {T, F, U}
Keep(e, st) == T \in Poss(e, st)

---------------------------------------------------------------------------
(* The design: a filter on the statistics that is true for files to skip,   *)
(* built from the filter with the three valued logic of Arrow; a file is    *)
(* read only if the negation of that filter is true.  "none" stands for     *)
(* parts that cannot be decided by statistics.  neg: whether negations are  *)
(* turned into negations.                                                   *)

Flip(op) == CASE op = "gt" -> "lt" [] op = "gte" -> "lte" [] op = "lt" -> "gt"
              [] op = "lte" -> "gte" [] OTHER -> op

SkipCmp(op, a, b) ==
  IF ~a.k \/ ~b.k THEN U
  ELSE B3(CASE op = "gt" -> a.hi <= b.lo
            [] op = "gte" -> a.hi < b.lo
            [] op = "lt" -> a.lo >= b.hi
            [] op = "lte" -> a.lo > b.hi
            [] op = "equal" -> a.lo > b.hi \/ a.hi < b.lo
            [] op = "not_equal" -> a.lo = a.hi /\ b.lo = b.hi /\ a.lo = b.lo)

NONE == 3
\* keyed: columns with statistics; float: columns where not_equal is not used
RECURSIVE Skip(_, _, _, _, _)
Skip(e, st, keyed, float, neg) ==
  CASE e.k = "true" -> F
    [] e.k = "false" -> T
    [] e.k = "cmp" ->
         LET cols == {o.x : o \in {x \in {e.l, e.r} : IsCol(x)}}
         IN  IF ~(cols \subseteq keyed) THEN NONE
             ELSE IF e.op = "not_equal" /\ cols \cap float # {} THEN NONE
             ELSE IF IsCol(e.l) THEN SkipCmp(e.op, Iv(e.l, st), Iv(e.r, st))
             ELSE SkipCmp(Flip(e.op), Iv(e.r, st), Iv(e.l, st))
    [] e.k = "and" ->
         LET a == Skip(e.l, st, keyed, float, neg)
             b == Skip(e.r, st, keyed, float, neg)
         IN  IF a = NONE THEN b ELSE IF b = NONE THEN a ELSE Or3(a, b)
    [] e.k = "or" ->
         LET a == Skip(e.l, st, keyed, float, neg)
             b == Skip(e.r, st, keyed, float, neg)
         IN  IF a = NONE \/ b = NONE THEN NONE ELSE And3(a, b)
    [] e.k = "not" ->
         IF ~neg THEN NONE
         ELSE LET a == Skip(e.l, st, keyed, float, neg) IN IF a = NONE THEN NONE ELSE Not3(a)
    [] OTHER -> NONE
\* Files whose condition is unknown have no value that could match.
Reads(e, st, keyed, float, neg) ==
  LET s == Skip(e, st, keyed, float, neg) IN s = NONE \/ Not3(s) = T
=============================================================================
