----------------------------- MODULE TraceSerde -----------------------------
(* Validates the use of real serializers against Serde.                     *)
EXTENDS Serde, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, dead, tr
vars == <<l, s, dead, tr>>
\* fields: all names in order; feats: those with a specification; rows: what the dataset holds
None == [fields |-> <<>>, feats |-> {}, rows |-> <<>>]
Init == l = 1 /\ s = None /\ dead = TRUE /\ tr = ""
Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names_(cs) == [i \in 1..Len(cs) |-> cs[i][1]]

Step(t, ev) ==
  CASE ev.ev = "define" ->
         [s |-> [t EXCEPT !.fields = ev.fields, !.feats = Ran(ev.feats), !.rows = <<>>],
          cs |-> << <<"serde.define/" \o ev.out, ev.out = "ok">> >>]
    [] ev.ev = "serde" ->  \* a table went through a serializer
         LET want == IF ev.dir = "ser" THEN SerTable(t.feats, ev.in) ELSE DeserTable(t.feats, ev.in) IN
         [s |-> t,
          cs |-> << <<"serde.outcome." \o ev.dir \o "/" \o ev.out, ev.out = "ok">>,
                    <<"serde.fields", ev.out = "ok" => SameBag(Names(ev.got), Names(want))>>,
                    <<"serde.values", ev.out = "ok" => SameBag(ev.got, want)>> >>]
    [] ev.ev = "single" ->  \* one value and the serializer of its field
         [s |-> t,
          cs |-> IF ev.field \notin t.feats THEN << <<"serde.none", ev.out = "none">> >>
                 ELSE << <<"serde.outcome.single/" \o ev.out, ev.out = "ok">>,
                         <<"serde.single", ev.out = "ok" => ev.got = IF ev.dir = "ser" THEN Ser(ev.in) ELSE Deser(ev.in)>> >>]
    [] ev.ev = "write" ->
         [s |-> [t EXCEPT !.rows = @ \o RowsOf(ev.table)], cs |-> << <<"serde.write/" \o ev.out, ev.out = "ok">> >>]
    [] ev.ev = "drop" ->  \* rows with some values of the first field
         [s |-> [t EXCEPT !.rows = SelectSeq(@, LAMBDA r : r[1] \notin Ran(ev.ids))],
          cs |-> << <<"serde.drop/" \o ev.out, ev.out = "ok">> >>]
    [] ev.ev = "read" ->  \* stored bytes, and the values made of them
         LET want == DeserTable(t.feats, ev.table) IN
         [s |-> t,
          cs |-> << <<"serde.read/" \o ev.out, ev.out = "ok">>,
                    <<"serde.rows", ev.out = "ok" => SameBag(RowsOf(ev.table), t.rows)>>,
                    <<"serde.back", ev.out = "ok" => ev.got = want>> >>]
    [] ev.ev = "access" ->  \* values by position, of one or several fields
         LET ix == {i \in 1..Len(t.fields) : t.fields[i] \in Ran(ev.fields)}
             Want(r) == {<<t.fields[i], Deser(r[i])>> : i \in ix}
             Got(k) == {<<ev.fields[i], ev.items[k][i]>> : i \in 1..Len(ev.fields)}
         IN [s |-> t,
             cs |-> << <<"serde.access/" \o ev.out, ev.out = "ok">>,
                       <<"serde.items", ev.out = "ok" =>
                          SameBag([j \in 1..Len(t.rows) |-> Want(t.rows[j])], [k \in 1..Len(ev.items) |-> Got(k)])>> >>]
    [] ev.ev = "seen" ->  \* what a function was given for records of external files
         [s |-> t, cs |-> << <<"serde.seen", ev.got = Map(Deser, ev.in)>> >>]
    [] ev.ev = "fact" -> [s |-> t, cs |-> << <<ev.what, ev.ok>> >>]
    [] OTHER -> [s |-> t, cs |-> << <<"unknown event " \o ev.ev, FALSE>> >>]

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.ev = "reset" THEN s' = None /\ dead' = FALSE /\ tr' = ev.tr
     ELSE IF dead THEN UNCHANGED <<s, dead, tr>>
     ELSE LET r == Step(s, ev)
              f == Failing(r.cs)
          IN IF f = <<>> THEN s' = r.s /\ UNCHANGED <<dead, tr>>
             ELSE PrintT(<<"FAIL", tr, l, Names_(f)>>) /\ dead' = TRUE /\ UNCHANGED <<s, tr>>
Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
