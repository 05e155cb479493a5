----------------------------- MODULE SpaceOps -----------------------------
(* The logical state of a Space storage and the effect of every operation.  *)
(*                                                                          *)
(* st.metas : history of metadata versions; the last one is what the entry  *)
(*            point file refers to.  [main, refs, ids]                      *)
(*              main: current snapshot of the main branch                   *)
(*              refs: set of [n: name, k: "tag"/"branch", id]               *)
(*              ids : snapshots recorded in the metadata                    *)
(* st.snaps : snapshot id -> [par, rows, add, del]; grow only.              *)
(*              rows: all rows; add: rows added to the parent by the        *)
(*              commit; del: primary keys of the rows it deleted            *)
(* st.h     : handle -> [v: index in metas it has loaded, b: branch]        *)
(* pk       : primary key column numbers                                    *)
EXTENDS Rows

MAIN == "main"

InitMeta == [main |-> 0, refs |-> {}, ids |-> {0}]
InitSnap == [par |-> -1, rows |-> <<>>, add |-> <<>>, del |-> <<>>]

InitStore(hs) ==
  [metas |-> <<InitMeta>>,
   snaps |-> [i \in {0} |-> InitSnap],
   h |-> [x \in hs |-> [v |-> 1, b |-> MAIN]]]

Last(s) == s[Len(s)]
Cur(st) == Last(st.metas)
MetaOf(st, hd) == st.metas[st.h[hd].v]

RefsNamed(m, n) == {r \in m.refs : r.n = n}
HasRef(m, n) == RefsNamed(m, n) # {}
Ref(m, n) == CHOOSE r \in m.refs : r.n = n

\* Snapshot ID of the head of a branch, -1 if there is no such reference.
HeadOf(m, br) ==
  IF br = MAIN THEN m.main ELSE IF HasRef(m, br) THEN Ref(m, br).id ELSE -1

Rows(st, id) == st.snaps[id].rows
MaxId(st) == CHOOSE i \in DOMAIN st.snaps : \A j \in DOMAIN st.snaps : j <= i

Reload(st, hd) == [st EXCEPT !.h[hd].v = Len(st.metas)]
WithBranch(st, hd, br) == [st EXCEPT !.h[hd].b = br]
OpenHandle(st, hd) ==
  [st EXCEPT !.h = [x \in DOMAIN st.h \cup {hd} |->
                      IF x = hd THEN [v |-> Len(st.metas), b |-> MAIN]
                      ELSE st.h[x]]]

PushMeta(st, hd, m) ==
  [st EXCEPT !.metas = Append(@, m), !.h[hd].v = Len(st.metas) + 1]

---------------------------------------------------------------------------
(* What a data operation wants to change, computed from the rows of the     *)
(* snapshot the transaction started from.                                   *)
None == [k |-> "none", rows |-> <<>>, add |-> <<>>, del |-> <<>>]
Fail == [k |-> "fail", rows |-> <<>>, add |-> <<>>, del |-> <<>>]

PlanAppend(rows0, rows) ==
  IF rows = <<>> THEN None
  ELSE [k |-> "patch", rows |-> rows0 \o rows, add |-> rows, del |-> <<>>]

PlanDelete(rows0, e, pk) ==
  LET hit == Where(rows0, e) IN
  IF hit = <<>> THEN None
  ELSE [k |-> "patch", rows |-> WhereNot(rows0, e), add |-> <<>>,
        del |-> Keys(hit, pk)]

PlanInsert(rows0, rows, pk) ==
  IF rows = <<>> THEN None
  ELSE LET ks == Keys(rows, pk) IN
       IF HasDup(ks) THEN Fail
       ELSE IF \E i \in 1..Len(rows0) : KeyIn(Project(rows0[i], pk), Range(ks))
       THEN Fail
       ELSE PlanAppend(rows0, rows)

PlanUpsert(rows0, rows, pk) ==
  IF rows = <<>> THEN None
  ELSE LET ks == Keys(rows, pk)
           hit(r) == KeyIn(Project(r, pk), Range(ks))
       IN  IF HasDup(ks) THEN Fail
           ELSE [k |-> "patch",
                 rows |-> SelectSeq(rows0, LAMBDA r : ~hit(r)) \o rows,
                 add |-> rows,
                 del |-> Keys(SelectSeq(rows0, hit), pk)]

---------------------------------------------------------------------------
(* Transactions.  Begin reloads the handle and remembers the head of the    *)
(* branch; Commit reloads again and gives up if the head has moved.         *)
BeginBase(st, hd) == HeadOf(Cur(st), st.h[hd].b)

CommitOutcome(st, br, base, plan) ==
  LET m == Cur(st)
      head == HeadOf(m, br)
  IN  IF plan.k = "fail" \/ head = -1 \/ head # base THEN "failed"
      ELSE IF plan.k = "none" THEN "skipped"
      ELSE IF br # MAIN /\ Ref(m, br).k # "branch" THEN "failed"
      ELSE "succeeded"

CommitState(st, hd, br, base, plan, newid) ==
  LET m == Cur(st)
      m2 == IF br = MAIN
            THEN [m EXCEPT !.main = newid, !.ids = @ \cup {newid}]
            ELSE [m EXCEPT !.refs = {IF r.n = br THEN [r EXCEPT !.id = newid]
                                     ELSE r : r \in m.refs},
                           !.ids = @ \cup {newid}]
      s == [par |-> base, rows |-> plan.rows, add |-> plan.add,
            del |-> plan.del]
      st2 == [st EXCEPT !.snaps = [i \in DOMAIN st.snaps \cup {newid} |->
                                     IF i = newid THEN s ELSE st.snaps[i]]]
  IN  IF CommitOutcome(st, br, base, plan) = "succeeded"
      THEN PushMeta(st2, hd, m2)
      ELSE Reload(st, hd)

---------------------------------------------------------------------------
(* References.                                                              *)
AddRefOk(m, n, id) ==
  /\ n # "" /\ n # MAIN
  /\ id \in m.ids
  /\ ~HasRef(m, n)

\* id = -1: the current snapshot of the main branch
AddRefId(m, id) == IF id = -1 THEN m.main ELSE id

AddRef(st, hd, n, kind, id) ==
  LET m == Cur(st) IN
  IF AddRefOk(m, n, AddRefId(m, id))
  THEN PushMeta(st, hd, [m EXCEPT !.refs = @ \cup
                           {[n |-> n, k |-> kind, id |-> AddRefId(m, id)]}])
  ELSE Reload(st, hd)

RemoveRefOk(m, n, kind) == HasRef(m, n) /\ Ref(m, n).k = kind

RemoveRef(st, hd, n, kind) ==
  LET m == Cur(st) IN
  IF RemoveRefOk(m, n, kind)
  THEN PushMeta(st, hd, [m EXCEPT !.refs = @ \ RefsNamed(m, n)])
  ELSE Reload(st, hd)

SetBranchOk(m, br) == br = MAIN \/ (HasRef(m, br) /\ Ref(m, br).k = "branch")

---------------------------------------------------------------------------
(* Versions and the change feed.                                            *)
\* A version is [t: "head"], [t: "id", x: snapshot id] or [t: "ref", n: name].
Resolve(m, br, ver) ==
  IF ver.t = "head" THEN HeadOf(m, br)
  ELSE IF ver.t = "ref" THEN IF HasRef(m, ver.n) THEN Ref(m, ver.n).id ELSE -1
  ELSE IF ver.x \in m.ids THEN ver.x ELSE -1

RECURSIVE Ancestors(_, _)
Ancestors(st, id) ==
  IF id = -1 THEN {} ELSE {id} \cup Ancestors(st, st.snaps[id].par)

\* Snapshots after s up to and including e, oldest first.
RECURSIVE PathFrom(_, _, _)
PathFrom(st, s, e) ==
  IF e = s THEN <<>> ELSE Append(PathFrom(st, s, st.snaps[e].par), e)

DiffOk(st, s, e) == s # -1 /\ e # -1 /\ s < e /\ s \in Ancestors(st, e)
=============================================================================
