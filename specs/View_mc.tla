------------------------------ MODULE View_mc ------------------------------
(* A source with branches is changed by two handles and a materialized view *)
(* of it is refreshed to any version.                                       *)
EXTENDS View, TLC
CONSTANTS KeySet, ValSet, MaxSnap
VARIABLES st, mv, chain

Row == {<<k, v>> : k \in KeySet, v \in ValSet}
True == [k |-> "true"]
Eq(c, x) == [k |-> "cmp", op |-> "equal", l |-> [t |-> "c", x |-> c], r |-> [t |-> "v", x |-> x]]
Col(x) == [k |-> "c", x |-> x]
Val(x) == [k |-> "v", x |-> x]
Filter(p) == [t |-> "filter", cols |-> <<1, 2>>, p |-> p, rows |-> <<>>]
Map(cols, ts) == [t |-> "map", cols |-> cols, p |-> True, rows |-> ts]
\* chains whose key is column 1 at the end
Chains ==
  { <<>>,
    <<Filter(Eq(2, 1))>>,
    <<Filter([k |-> "false"])>>,
    <<Map(<<2, 1>>, << [p |-> True, e |-> <<Col(2), Val(7)>>] >>)>>,
    <<Map(<<1, 2>>, << [p |-> True, e |-> <<Col(1), Col(2)>>], [p |-> Eq(2, 1), e |-> <<Col(1), Val(9)>>] >>)>>,
    <<Filter(Eq(2, 1)), Map(<<1, 2>>, << [p |-> Eq(1, 1), e |-> <<Col(1), Val(5)>>] >>)>>,
    <<Map(<<1, 2>>, << [p |-> True,
        e |-> <<Col(1), [k |-> "if", p |-> Eq(2, 1), a |-> Val(2), b |-> Val(1)]>>] >>), Filter(Eq(2, 2))>> }

Init == st = InitStore({"a", "b"}) /\ mv = InitMv /\ chain \in Chains

Preds == {Eq(1, k) : k \in KeySet} \cup {Eq(2, v) : v \in ValSet}
Plans(rows0) ==
  {PlanInsert(rows0, <<r>>, <<1>>) : r \in Row} \cup {PlanUpsert(rows0, <<r>>, <<1>>) : r \in Row}
  \cup {PlanDelete(rows0, e, <<1>>) : e \in Preds}

Write(h) ==
  LET s1 == Reload(st, h)
      base == BeginBase(s1, h)
      new == MaxId(st) + 1
  IN  /\ base # -1 /\ new <= MaxSnap
      /\ \E p \in Plans(Rows(s1, base)) :
           /\ p.k = "patch"
           /\ st' = CommitState(s1, h, s1.h[h].b, base, p, new)
      /\ UNCHANGED <<mv, chain>>

Branch(h) ==
  \/ /\ ~HasRef(Cur(st), "x") /\ MaxId(st) < MaxSnap
     /\ st' = [st EXCEPT !.metas = Append(@, [Cur(st) EXCEPT !.refs = {[n |-> "x", k |-> "branch", id |-> Cur(st).main]}])]
     /\ UNCHANGED <<mv, chain>>
  \/ /\ HasRef(Cur(st), "x") /\ st.h[h].b = MAIN /\ h = "b"
     /\ st' = WithBranch(st, h, "x") /\ UNCHANGED <<mv, chain>>

DoRefresh ==
  \E to \in DOMAIN st.snaps :
    /\ RefreshOk(mv, st.snaps, Cur(st).main, to)
    /\ mv' = Refresh(mv, st.snaps, to, chain, <<1>>)
    /\ UNCHANGED <<st, chain>>

Next == (\E h \in {"a", "b"} : Write(h)) \/ Branch("b") \/ DoRefresh
Spec == Init /\ [][Next]_<<st, mv, chain>>
view == <<st.snaps, Cur(st), st.h["b"].b, mv, chain>>

\* The view equals its view of the source, in every version.
ViewExact == \A id \in DOMAIN mv.vers : SameBag(mv.vers[id].rows, Chain(chain, st.snaps[id].rows))
SourceClean == \A id \in DOMAIN st.snaps : Clean(st.snaps, id, <<1>>)
\* Version ids of the view are source versions; parents are parents of the source.
SameHistory == \A id \in DOMAIN mv.vers : id \in DOMAIN st.snaps /\ mv.vers[id].par = st.snaps[id].par
\* Versions of the view are never changed.
Frozen == [][\A id \in DOMAIN mv.vers : id \in DOMAIN mv'.vers /\ mv'.vers[id] = mv.vers[id]]_<<st, mv, chain>>
=============================================================================
