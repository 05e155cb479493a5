---------------------------- MODULE SpaceStore ----------------------------
(* Clients with their own handles run data operations (as transactions with *)
(* a separate begin and commit), manage tags and branches, and switch       *)
(* branches.  Every commit is atomic here; SpaceCommit refines it to file   *)
(* system steps and crashes.                                                *)
EXTENDS SpaceOps, TLC

CONSTANTS Clients, Names, KeySet, ValSet, MaxSnap, MaxMeta, WithRefs

VARIABLES st,    \* the store, see SpaceOps
          txn,   \* client -> idle or the transaction in progress
          act    \* the last action, for test generation (hidden by the VIEW)

vars == <<st, txn, act>>
view == <<st, txn>>

Idle == [on |-> FALSE]
PK == <<1>>
RowSet == {<<k, v>> : k \in KeySet, v \in ValSet}
Preds == {[k |-> "cmp", op |-> "equal", l |-> [t |-> "c", x |-> 1],
           r |-> [t |-> "v", x |-> k]] : k \in KeySet}

Init == /\ st = InitStore(Clients)
        /\ txn = [c \in Clients |-> Idle]
        /\ act = [op |-> "init"]

Small == Len(st.metas) < MaxMeta

\* The operations a client may want to run, with the plan they make.
Ops(c) ==
  LET r0 == Rows(st, BeginBase(st, c)) IN
  {[o |-> "append", rows |-> <<r>>, plan |-> PlanAppend(r0, <<r>>)] : r \in RowSet}
  \cup {[o |-> "upsert", rows |-> <<r>>, plan |-> PlanUpsert(r0, <<r>>, PK)] : r \in RowSet}
  \cup {[o |-> "insert", rows |-> <<r>>, plan |-> PlanInsert(r0, <<r>>, PK)] : r \in RowSet}
  \cup {[o |-> "delete", rows |-> <<>>, e |-> e, plan |-> PlanDelete(r0, e, PK)] : e \in Preds}

Begin(c) ==
  /\ ~txn[c].on
  /\ Cardinality(DOMAIN st.snaps) <= MaxSnap
  /\ BeginBase(st, c) # -1
  /\ \E o \in Ops(c) :
       /\ txn' = [txn EXCEPT ![c] = [on |-> TRUE, br |-> st.h[c].b,
                                     base |-> BeginBase(st, c), plan |-> o.plan]]
       /\ st' = Reload(st, c)
       /\ act' = [op |-> "begin", c |-> c, o |-> o.o, rows |-> o.rows,
                  key |-> IF o.o = "delete" THEN o.e.r.x ELSE 0]

Commit(c) ==
  /\ txn[c].on
  /\ st' = CommitState(st, c, txn[c].br, txn[c].base, txn[c].plan, MaxId(st) + 1)
  /\ txn' = [txn EXCEPT ![c] = Idle]
  /\ act' = [op |-> "commit", c |-> c]

\* The client dies before its commit: nothing is visible.
Abort(c) ==
  /\ txn[c].on
  /\ txn' = [txn EXCEPT ![c] = Idle]
  /\ st' = OpenHandle(st, c)
  /\ act' = [op |-> "crash", c |-> c]

AddTag(c, n, id) ==
  /\ WithRefs /\ ~txn[c].on /\ Small
  /\ st' = AddRef(st, c, n, "tag", id) /\ txn' = txn
  /\ act' = [op |-> "add_tag", c |-> c, n |-> n, id |-> id]

AddBranch(c, n) ==
  /\ WithRefs /\ ~txn[c].on /\ Small
  /\ st' = AddRef(st, c, n, "branch", -1) /\ txn' = txn
  /\ act' = [op |-> "add_branch", c |-> c, n |-> n]

RemoveTag(c, n) ==
  /\ WithRefs /\ ~txn[c].on /\ Small
  /\ st' = RemoveRef(st, c, n, "tag") /\ txn' = txn
  /\ act' = [op |-> "remove_tag", c |-> c, n |-> n]

RemoveBranch(c, n) ==
  /\ WithRefs /\ ~txn[c].on /\ Small
  /\ st' = IF st.h[c].b = n THEN st ELSE RemoveRef(st, c, n, "branch")
  /\ txn' = txn
  /\ act' = [op |-> "remove_branch", c |-> c, n |-> n]

SetBranch(c, n) ==
  /\ WithRefs /\ ~txn[c].on
  /\ n # st.h[c].b
  /\ st' = IF SetBranchOk(MetaOf(st, c), n) THEN WithBranch(st, c, n) ELSE st
  /\ txn' = txn
  /\ act' = [op |-> "set_branch", c |-> c, n |-> n]

Read(c) ==
  /\ ~txn[c].on
  /\ st' = Reload(st, c) /\ txn' = txn
  /\ act' = [op |-> "read", c |-> c]

Next == \E c \in Clients :
  \/ Begin(c) \/ Commit(c) \/ Abort(c) \/ Read(c)
  \/ \E n \in Names : \/ AddBranch(c, n) \/ RemoveTag(c, n) \/ RemoveBranch(c, n)
                      \/ \E id \in {-1} \cup Cur(st).ids : AddTag(c, n, id)
  \/ \E n \in Names \cup {MAIN} : SetBranch(c, n)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties.                                                              *)
TypeOK ==
  /\ \A i \in DOMAIN st.snaps : st.snaps[i].par < i
  /\ \A c \in Clients : st.h[c].v \in 1..Len(st.metas)

\* Every reference and the main branch point to a recorded snapshot, names are
\* unique and not reserved.
RefsOK ==
  LET m == Cur(st) IN
  /\ m.main \in m.ids /\ m.ids = DOMAIN st.snaps
  /\ \A r \in m.refs : r.id \in m.ids /\ r.n # MAIN /\ r.n # ""
  /\ \A r1, r2 \in m.refs : r1.n = r2.n => r1 = r2

\* A snapshot is its parent minus the deleted keys plus the added rows.
LogOK ==
  \A i \in DOMAIN st.snaps \ {0} :
    LET s == st.snaps[i]
        p == Rows(st, s.par)
    IN /\ Len(s.rows) = Len(p) - Len(s.del) + Len(s.add)
       /\ SubBag(s.add, s.rows)
       /\ SubBag(s.del, Keys(p, PK))
       /\ SameBag(s.rows, SelectSeq(p, LAMBDA r : Project(r, PK) \notin Range(s.del)) \o s.add)

\* Inserts and upserts never make a key appear twice when it was unique.
InsertedOnce ==
  \A i \in DOMAIN st.snaps \ {0} :
    LET s == st.snaps[i] IN
    (s.del # <<>> /\ s.add # <<>>) =>
       \A k \in Range(Keys(s.add, PK)) : Count(Keys(s.rows, PK), k) = 1

\* Snapshots are immutable, and only ever added with a higher ID.
Immutable ==
  [][/\ DOMAIN st.snaps \subseteq DOMAIN st'.snaps
     /\ \A i \in DOMAIN st.snaps : st'.snaps[i] = st.snaps[i]
     /\ \A i \in DOMAIN st'.snaps \ DOMAIN st.snaps : i > MaxId(st)]_vars

\* A commit moves exactly one head: that of the branch of its transaction, and
\* only from the snapshot the transaction started from.
HeadMove ==
  [][LET m == Cur(st)
         n == Cur(st')
     IN  act'.op = "commit" =>
         LET c == act'.c
             br == txn[c].br
         IN /\ (br # MAIN => n.main = m.main)
            /\ \A r \in m.refs : r.n # br => r \in n.refs
            /\ {r.n : r \in n.refs} = {r.n : r \in m.refs}
            /\ HeadOf(n, br) # HeadOf(m, br) =>
                 /\ HeadOf(m, br) = txn[c].base
                 /\ st'.snaps[HeadOf(n, br)].par = txn[c].base
                 /\ txn[c].plan.k = "patch"]_vars

\* Nothing but a commit moves a branch head; removed references excepted.
NoSpuriousMove ==
  [][LET m == Cur(st)
         n == Cur(st')
     IN  act'.op # "commit" =>
           /\ n.main = m.main
           /\ \A r \in m.refs : HasRef(n, r.n) => r \in n.refs
           /\ st'.snaps = st.snaps]_vars

\* No committed rows are lost: the head of a branch descends from its old head.
NoLostCommit ==
  [][LET m == Cur(st)
         n == Cur(st')
     IN /\ m.main \in Ancestors(st', n.main)
        /\ \A r \in m.refs : (HasRef(n, r.n) /\ r.k = "branch" /\ Ref(n, r.n).k = "branch"
                              /\ act'.op = "commit")
                             => r.id \in Ancestors(st', Ref(n, r.n).id)]_vars

\* At most one of the transactions with the same base and branch commits.
OneWinner ==
  \A i, j \in DOMAIN st.snaps :
     (i # j /\ i # 0 /\ j # 0 /\ st.snaps[i].par = st.snaps[j].par) => WithRefs
=============================================================================
