---------------------------- MODULE Catalog_mc ----------------------------
(* All short histories of a few names in two catalogs.                      *)
EXTENDS Catalog, TLC
CONSTANTS Cats, Names, MaxRows
VARIABLES cat, born, last
vars == <<cat, born, last>>

Full == Cats \X Names
Init == cat = <<>> /\ born = {} /\ last = <<"", "">>

\* born: what was successfully created, with the kind it was created as
DoCreate(n) == /\ cat' = Create(cat, n, 1) /\ last' = n
               /\ born' = IF CreateOk(cat, n) THEN born \cup {<<n, "dataset">>} ELSE born
DoMat(n, s) == /\ Has(cat, s) /\ Get(cat, s).kind = "dataset"
               /\ cat' = Materialize(cat, n, s, 0) /\ last' = n
               /\ born' = IF CreateOk(cat, n) THEN born \cup {<<n, "view">>} ELSE born
DoAppend(n, v) == /\ Get(cat, n).kind = "dataset" /\ Len(Get(cat, n).rows) < MaxRows
                  /\ cat' = Append_(cat, n, <<<<1, v>>>>) /\ last' = n /\ UNCHANGED born
DoRefresh(n) == /\ Get(cat, n).kind = "view" /\ cat' = Refresh(cat, n) /\ last' = n /\ UNCHANGED born

Next == \E n \in Full :
          \/ DoCreate(n) \/ DoRefresh(n)
          \/ \E s \in Full : DoMat(n, s)
          \/ \E v \in {0, 1} : DoAppend(n, v)
Spec == Init /\ [][Next]_vars

ListExact == \A c \in Cats : Listed(cat, c) = {x[1][2] : x \in {y \in born : y[1][1] = c}}
OpensAsCreated == \A x \in born : Get(cat, x[1]).kind = x[2]
ViewFits == \A n \in DOMAIN cat : cat[n].kind = "view" => \A i \in 1..Len(cat[n].rows) : cat[n].rows[i][2] > 0
\* only the named entry changes; an existing one keeps its kind and definition
Isolated == [][\A n \in DOMAIN cat : /\ n \in DOMAIN cat'
                                     /\ n # last' => cat'[n] = cat[n]
                                     /\ cat'[n].kind = cat[n].kind /\ cat'[n].src = cat[n].src]_vars
=============================================================================
