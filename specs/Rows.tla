------------------------------- MODULE Rows -------------------------------
(* Values, rows, bags of rows and predicates of google/space datasets.      *)
(* A value is an integer: the harness maps every Arrow value to an integer  *)
(* by an order preserving code, so < and = on codes are < and = on values.  *)
(* A row is a sequence of values, one per column of the logical schema.     *)
(* A table is a sequence of rows that is compared as a bag.                 *)
EXTENDS Integers, Sequences, FiniteSets

NULL == -999
NAN == 500001  \* not a number: not equal, and in no order, to any value

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

SameBag(a, b) ==
  \/ a = b
  \/ /\ Len(a) = Len(b)
     /\ \A x \in {a[i] : i \in 1..Len(a)} : Count(a, x) = Count(b, x)

\* b is contained in a, with multiplicities.
SubBag(b, a) == \A x \in {b[i] : i \in 1..Len(b)} : Count(b, x) <= Count(a, x)

Range(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

Project(row, cols) == [j \in 1..Len(cols) |-> row[cols[j]]]
ProjectAll(rows, cols) == [i \in 1..Len(rows) |-> Project(rows[i], cols)]

---------------------------------------------------------------------------
(* Primary keys.  Keys are equal only if no component is null.              *)
NoNull(k) == \A j \in 1..Len(k) : k[j] # NULL /\ k[j] # NAN
KeyIn(k, keys) == NoNull(k) /\ k \in keys
Keys(rows, pk) == ProjectAll(rows, pk)
HasDup(s) == Cardinality(Range(s)) # Len(s)

---------------------------------------------------------------------------
(* Predicates, with the three valued (Kleene) logic of Arrow expressions.   *)
T == 1
F == 0
U == 2

Opd(o, row) == IF o.t = "c" THEN row[o.x] ELSE o.x

Cmp(op, a, b) ==
  CASE a = NAN \/ b = NAN -> op = "not_equal"
    [] op = "gt" -> a > b
    [] op = "gte" -> a >= b
    [] op = "lt" -> a < b
    [] op = "lte" -> a <= b
    [] op = "equal" -> a = b
    [] op = "not_equal" -> a # b

And3(a, b) == IF a = F \/ b = F THEN F ELSE IF a = T /\ b = T THEN T ELSE U
Or3(a, b) == IF a = T \/ b = T THEN T ELSE IF a = F /\ b = F THEN F ELSE U
Not3(a) == IF a = T THEN F ELSE IF a = F THEN T ELSE U
B3(b) == IF b THEN T ELSE F

RECURSIVE Ev(_, _)
Ev(e, row) ==
  CASE e.k = "true" -> T
    [] e.k = "false" -> F
    [] e.k = "cmp" ->
         LET a == Opd(e.l, row)
             b == Opd(e.r, row)
         IN  IF a = NULL \/ b = NULL THEN U ELSE B3(Cmp(e.op, a, b))
    [] e.k = "add" ->  \* column + constant <op> constant
         LET a == row[e.c]
         IN  IF a = NULL THEN U ELSE B3(Cmp(e.op, a + e.d, e.v))
    [] e.k = "null" -> B3(row[e.c] = NULL)
    [] e.k = "in" -> B3(row[e.c] \in Range(e.vs))
    [] e.k = "and" -> And3(Ev(e.l, row), Ev(e.r, row))
    [] e.k = "or" -> Or3(Ev(e.l, row), Ev(e.r, row))
    [] e.k = "not" -> Not3(Ev(e.l, row))

\* A row is selected by a filter only if the filter is true.
Matches(e, row) == Ev(e, row) = T
Where(rows, e) == SelectSeq(rows, LAMBDA r : Matches(e, r))
WhereNot(rows, e) == SelectSeq(rows, LAMBDA r : ~Matches(e, r))
=============================================================================
