------------------------------ MODULE Prune_mc -----------------------------
(* Every file of a few rows, every filter of a few operators.               *)
EXTENDS Prune, TLC
CONSTANTS ValSet, ConstSet, MaxRows, Depth
VARIABLES file

Cols == {1, 2, 3}        \* 1 (floating point) and 2 are keys
Keyed == {1, 2}
Float == {1}
Row == {<<a, b, c>> : a \in ValSet \cup {NULL, NAN}, b \in ValSet \cup {NULL}, c \in {0}}
Init == file \in {<<r>> : r \in Row}
\* the order of the rows is of no importance
RECURSIVE LE(_, _, _)
LE(a, b, i) == IF i > 3 THEN TRUE ELSE a[i] < b[i] \/ (a[i] = b[i] /\ LE(a, b, i + 1))
Next == Len(file) < MaxRows /\ \E r \in Row : LE(file[Len(file)], r, 1) /\ file' = Append(file, r)
Spec == Init /\ [][Next]_file

Ops == {"gt", "gte", "lt", "lte", "equal", "not_equal"}
C_(x) == [t |-> "c", x |-> x]
V_(x) == [t |-> "v", x |-> x]
Cmp_(o, a, b) == [k |-> "cmp", op |-> o, l |-> a, r |-> b]
Atoms ==
  {Cmp_(o, C_(c), V_(v)) : o \in Ops, c \in Keyed, v \in ConstSet}
  \cup {Cmp_(o, V_(v), C_(c)) : o \in Ops, c \in Keyed, v \in ConstSet}
  \cup {Cmp_(o, C_(a), C_(b)) : o \in Ops, a \in Keyed, b \in Keyed}
  \cup {Cmp_("equal", C_(3), V_(0)), [k |-> "null", c |-> 1], [k |-> "null", c |-> 2],
        [k |-> "true"], [k |-> "false"]}
Small ==
  {Cmp_(o, C_(c), V_(v)) : o \in Ops, c \in {1}, v \in {1}}
  \cup {Cmp_(o, C_(1), C_(2)) : o \in Ops}
  \cup {Cmp_(o, V_(1), C_(2)) : o \in {"gt", "not_equal", "lte"}}
  \cup {Cmp_("equal", C_(3), V_(0)), [k |-> "null", c |-> 2], [k |-> "true"], [k |-> "false"]}
Comb(A, B) == A \cup {[k |-> "not", l |-> a] : a \in A}
                \cup {[k |-> o, l |-> a, r |-> b] : o \in {"and", "or"}, a \in A, b \in B}
Preds == IF Depth = 1 THEN Comb(Atoms, Small) ELSE Comb(Atoms, Atoms) \cup Comb(Comb(Small, Small), Small)

St == [c \in Cols |-> IF c \in Keyed THEN Stat(file, c) ELSE [k |-> FALSE, lo |-> 0, hi |-> 0]]
Truths(e) == {Ev(e, file[i]) : i \in 1..Len(file)}

\* one pass over the filters for all invariants
Ok(e) ==
  LET t == Truths(e)
      m == T \in t IN
  /\ t \subseteq Poss(e, St)                                \* the definition is sound
  /\ m => Reads(e, St, Keyed, Float, FALSE)                  \* so is the design
Sound == \A e \in Preds : Ok(e)
\* The design turned around at negations loses rows: a file it skips has a match.
NegationLoses ==
  LET f == <<<<0, 0, 0>>, <<1, 0, 0>>>>
      s == [c \in Cols |-> Stat(f, c)]
      e == [k |-> "not", l |-> Cmp_("gt", C_(1), V_(0))]
  IN  (\E i \in 1..2 : Matches(e, f[i])) /\ ~Reads(e, s, Keyed, Float, TRUE)
ASSUME NegationLoses
=============================================================================
