---------------------------- MODULE Schema_mc ----------------------------
(* All small definitions: every step creates a storage with one of them at  *)
(* one location, and loads it.  The trees behind the definitions are also   *)
(* written to a file (environment CASES) and replayed by the harness.       *)
EXTENDS Schema, TLC, Json, IOUtils, SequencesExt
CONSTANTS Wide    \* more field types
VARIABLES store, got, step

K(x) == [k |-> x]
A == [k |-> "feat", p |-> 1]
B == [k |-> "file", p |-> 1]
F1(n, t) == <<[n |-> n, t |-> t]>>
Leaf == {K("i64"), K("string"), K("binary")} \cup IF Wide THEN {K("fp32"), B, A, K("i8")} ELSE {A}
Struct1 == {[k |-> "struct", f |-> F1(n, t)] : n \in {"a", "b"}, t \in Leaf}
Struct2 == {[k |-> "struct", f |-> F1("a", s) \o F1(n, t)] : s \in {K("i64"), [k |-> "struct", f |-> F1("c", K("i64"))]},
                                                             n \in {"b", "x"}, t \in {K("string"), K("binary")}}
List1 == {[k |-> "list", e |-> t] : t \in Leaf}
List2 == {[k |-> "list", e |-> t] : t \in Struct1 \cup Struct2 \cup {[k |-> "list", e |-> K("i32")]}}
SL == {[k |-> "struct", f |-> F1("a", t) \o F1("x", K("i64"))] : t \in List2}
First == Leaf \cup Struct1 \cup Struct2 \cup List1 \cup List2 \cup SL
Second == {K("i64"), K("binary"), A, [k |-> "struct", f |-> F1("x", K("binary"))]}
PKs == {<<"x">>, <<"y">>} \cup IF Wide THEN {<<>>, <<"y", "x">>, <<"a">>} ELSE {<<"y", "x">>}
Recs == {<<>>, <<"x">>, <<"y">>} \cup IF Wide THEN {<<"x", "y">>, <<"z">>} ELSE {<<"x", "y">>}

Defs == {[f |-> F1("x", t) \o F1("y", u), pk |-> p, rec |-> r] : t \in First, u \in Second, p \in PKs, r \in Recs}
          \cup {[f |-> F1("x", t) \o F1("y", u) \o F1("z", K("i64")), pk |-> <<"z">>, rec |-> r] : t \in First, u \in Second, r \in Recs}
          \cup {[f |-> F1("x", t), pk |-> p, rec |-> r] : t \in First, p \in PKs, r \in Recs}

ASSUME "CASES" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.CASES, SetToSeq(Defs))

Init == store = NoStore /\ got = <<>> /\ step = [a |-> "init"]
Make(d) == store' = Create(store, d) /\ step' = [a |-> "create", d |-> d] /\ UNCHANGED got
Load == store.on /\ got' = Decode(Encode(store.d.f)) /\ step' = [a |-> "load"] /\ UNCHANGED store
Again == [f |-> F1("x", K("i64")), pk |-> <<"x">>, rec |-> <<>>]
Next == (step.a = "init" /\ \E d \in Defs : Make(d)) \/ (step.a = "create" /\ Load) \/ (step.a = "load" /\ Make(Again))
Spec == Init /\ [][Next]_<<store, got, step>>

RoundTrip == step.a # "load" \/ got = store.d.f
OnlyValid == store.on => Valid(store.d)
Numbered == store.on =>
  LET ids == AllIds(Encode(store.d.f).types) IN
  /\ ids = [i \in 1..Len(ids) |-> i - 1]
  /\ LET top == TopIds(store.d.f, 0) IN
     \A i \in 1..Len(top) : Encode(store.d.f).types[i].i = top[i] /\ (i > 1 => top[i] > top[i - 1])
Stays == [][store.on => store' = store]_<<store, got, step>>
=============================================================================
