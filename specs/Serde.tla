------------------------------- MODULE Serde -------------------------------
(* Fields with a feature specification.  Such a field holds bytes, which are *)
(* made from values, and made into values again, by the serializer of the    *)
(* field; a dataset gets one serializer per such field from its schema, when *)
(* it is created as well as when it is loaded.                               *)
(*                                                                           *)
(* A cell is <<"v", x>> (the value x) or <<"b", x>> (the bytes that stand    *)
(* for it).  A table is a sequence of columns [n, c]: a name and cells.      *)
EXTENDS Integers, Sequences, FiniteSets

Ser(c) == <<"b", c[2]>>
Deser(c) == <<"v", c[2]>>

\* feats: the names of the fields with a specification
Map(Op(_), cs) == [i \in 1..Len(cs) |-> Op(cs[i])]
SerTable(feats, t) == [i \in 1..Len(t) |-> IF t[i].n \in feats THEN [n |-> t[i].n, c |-> Map(Ser, t[i].c)] ELSE t[i]]
DeserTable(feats, t) == [i \in 1..Len(t) |-> IF t[i].n \in feats THEN [n |-> t[i].n, c |-> Map(Deser, t[i].c)] ELSE t[i]]

\* The rows of a dataset: functions from names to cells
RowsOf(t) == IF Len(t) = 0 THEN <<>>
             ELSE [j \in 1..Len(t[1].c) |-> [i \in 1..Len(t) |-> t[i].c[j]]]

Names(t) == [i \in 1..Len(t) |-> t[i].n]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Ran(s) == {s[i] : i \in 1..Len(s)}
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Ran(a) : Count(a, x) = Count(b, x)
=============================================================================
