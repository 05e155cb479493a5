------------------------------ MODULE Serde_mc ------------------------------
(* A client that serializes values, writes, deletes and reads them, with a   *)
(* serializer that comes from a new or a loaded dataset.                     *)
EXTENDS Serde, TLC
CONSTANTS Vals, MaxRows
Fields == <<"id", "f", "g">>
Feats == {"f", "g"}
VARIABLES store, given, got
vars == <<store, given, got>>
Init == store = <<>> /\ given = <<>> /\ got = <<>>
Col(n, rows, i) == [n |-> n, c |-> [j \in 1..Len(rows) |-> rows[j][i]]]
Tab(rows) == [i \in 1..3 |-> Col(Fields[i], rows, i)]
\* given: the values the client has put in; store: what is stored
Put == /\ Len(given) < MaxRows
       /\ \E a, b \in Vals :
            LET row == <<<<"v", Len(given)>>, <<"v", a>>, <<"v", b>>>>
            IN /\ given' = Append(given, row)
               /\ store' = store \o RowsOf(SerTable(Feats, Tab(<<row>>)))
       /\ UNCHANGED got
Drop == \E i \in 1..Len(given) :
          LET Cut(s) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
          IN given' = Cut(given) /\ store' = Cut(store) /\ UNCHANGED got
Get == got' = RowsOf(DeserTable(Feats, Tab(store))) /\ UNCHANGED <<store, given>>
Next == Put \/ Drop \/ Get
Spec == Init /\ [][Next]_vars
Stored == \A j \in 1..Len(store) : store[j][1][1] = "v" /\ store[j][2][1] = "b" /\ store[j][3][1] = "b"
\* what is read back is what was put in
Faithful == [][got' # got => got' = given]_vars
Inverse == DeserTable(Feats, SerTable(Feats, Tab(given))) = Tab(given)
=============================================================================
