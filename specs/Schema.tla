------------------------------ MODULE Schema ------------------------------
(* Logical schemas: what may be created, how fields are numbered, and how a *)
(* schema is encoded for storage (a tree of types and the names in depth    *)
(* first order) and decoded again.                                          *)
(* A type is [k: kind] with                                                 *)
(*   list: e (element type); struct: f (sequence of [n: name, t: type]);    *)
(*   feat / file: p (parameter).                                            *)
(* A definition is [f: fields, pk: names, rec: names].                      *)
EXTENDS Integers, Sequences, FiniteSets

Flat == {"bool", "i32", "i64", "fp32", "fp64", "string", "binary", "feat", "file"}
Nested == {"list", "struct"}

Rng(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Supported(_)
Supported(t) ==
  CASE t.k \in Flat -> TRUE
    [] t.k = "list" -> Supported(t.e)
    [] t.k = "struct" -> \A i \in 1..Len(t.f) : Supported(t.f[i].t)
    [] OTHER -> FALSE

FieldNames(fs) == {fs[i].n : i \in 1..Len(fs)}
TypeOf(fs, n) == (CHOOSE i \in 1..Len(fs) : fs[i].n = n)
T_(fs, n) == fs[TypeOf(fs, n)].t

\* The rules for keys and record fields.
KeysOk(d) ==
  /\ d.pk # <<>>
  /\ \A i \in 1..Len(d.pk) : /\ d.pk[i] \in FieldNames(d.f)
                             /\ T_(d.f, d.pk[i]).k \notin {"list", "struct", "feat"}
RecsOk(d) ==
  \A i \in 1..Len(d.rec) : /\ d.rec[i] \in FieldNames(d.f)
                           /\ d.rec[i] \notin Rng(d.pk)
                           /\ T_(d.f, d.rec[i]).k \in {"binary", "feat"}
TypesOk(d) == \A i \in 1..Len(d.f) : Supported(d.f[i].t)
Valid(d) == KeysOk(d) /\ RecsOk(d) /\ TypesOk(d)

---------------------------------------------------------------------------
(* Field numbers, in pre-order: a field, then what is inside of its type.   *)
RECURSIVE Size(_), SizeAll(_)
Size(t) == CASE t.k = "list" -> 1 + Size(t.e)
             [] t.k = "struct" -> 1 + SizeAll(t.f)
             [] OTHER -> 1
SizeAll(fs) == IF fs = <<>> THEN 0 ELSE Size(Head(fs).t) + SizeAll(Tail(fs))

RECURSIVE TopIds(_, _)
TopIds(fs, from) ==
  IF fs = <<>> THEN <<>> ELSE <<from>> \o TopIds(Tail(fs), from + Size(Head(fs).t))

---------------------------------------------------------------------------
(* Storage format: a sequence of type trees without names but with numbers, *)
(* and the names of all fields (not of list elements) in depth first order. *)
RECURSIVE NamesOf(_), NamesIn(_)
NamesIn(t) == CASE t.k = "list" -> NamesIn(t.e)
                [] t.k = "struct" -> NamesOf(t.f)
                [] OTHER -> <<>>
NamesOf(fs) == IF fs = <<>> THEN <<>>
               ELSE <<Head(fs).n>> \o NamesIn(Head(fs).t) \o NamesOf(Tail(fs))

RECURSIVE Enc(_, _), EncAll(_, _)
\* a type whose field has the number i
Enc(t, i) == CASE t.k = "list" -> [k |-> "list", i |-> i, e |-> Enc(t.e, i + 1)]
               [] t.k = "struct" -> [k |-> "struct", i |-> i, f |-> EncAll(t.f, i + 1)]
               [] t.k \in {"feat", "file"} -> [k |-> t.k, i |-> i, p |-> t.p]
               [] OTHER -> [k |-> t.k, i |-> i]
EncAll(fs, from) ==
  IF fs = <<>> THEN <<>> ELSE <<Enc(Head(fs).t, from)>> \o EncAll(Tail(fs), from + Size(Head(fs).t))
Encode(fs) == [types |-> EncAll(fs, 0), names |-> NamesOf(fs)]

\* Decoding takes names from the front of the list; returns [x: result, ns: rest]
RECURSIVE Dec(_, _), DecAll(_, _)
Dec(e, ns) ==
  CASE e.k = "list" -> LET r == Dec(e.e, ns) IN [x |-> [k |-> "list", e |-> r.x], ns |-> r.ns]
    [] e.k = "struct" -> LET r == DecAll(e.f, ns) IN [x |-> [k |-> "struct", f |-> r.x], ns |-> r.ns]
    [] e.k \in {"feat", "file"} -> [x |-> [k |-> e.k, p |-> e.p], ns |-> ns]
    [] OTHER -> [x |-> [k |-> e.k], ns |-> ns]
DecAll(es, ns) ==
  IF es = <<>> THEN [x |-> <<>>, ns |-> ns]
  ELSE LET r == Dec(Head(es), Tail(ns))
           q == DecAll(Tail(es), r.ns)
       IN  [x |-> <<[n |-> Head(ns), t |-> r.x]>> \o q.x, ns |-> q.ns]
Decode(x) == DecAll(x.types, x.names).x

RECURSIVE AllIds(_)
AllIds(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es) IN
       <<e.i>> \o (CASE e.k = "list" -> AllIds(<<e.e>>) [] e.k = "struct" -> AllIds(e.f) [] OTHER -> <<>>)
         \o AllIds(Tail(es))

---------------------------------------------------------------------------
(* A location.                                                              *)
NoStore == [on |-> FALSE]
Create(s, d) == IF ~s.on /\ Valid(d) THEN [on |-> TRUE, d |-> d] ELSE s
=============================================================================
