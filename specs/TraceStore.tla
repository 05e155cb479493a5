---------------------------- MODULE TraceStore ----------------------------
(* Validates traces recorded from the real code against SpaceOps.           *)
(* The input file (ndjson) holds many traces; an event "reset" starts the   *)
(* next one.  Verdicts are total: a trace that does not conform prints      *)
(* <<"FAIL", trace, event number, clauses>> and the rest of it is skipped.  *)
EXTENDS SpaceOps, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,    \* next event
          st,   \* SpaceOps state
          pk,   \* primary key columns
          txn,  \* handle -> transactions in progress
          its,  \* open iterators -> expected rows
          pend, \* client process -> the operation it is in the middle of
          stat, \* snapshot -> recorded totals, filled by layout events
          dead, \* the current trace has failed
          tr    \* name of the current trace

vars == <<l, st, pk, txn, its, pend, stat, dead, tr>>

Init == /\ l = 1 /\ st = InitStore({}) /\ pk = <<>> /\ txn = <<>> /\ its = <<>> /\ pend = <<>>
        /\ stat = <<>> /\ dead = TRUE /\ tr = ""

---------------------------------------------------------------------------
(* A clause is <<name, holds>>; failing ones are reported.                  *)
Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names(cs) == [i \in 1..Len(cs) |-> cs[i][1]]
Cond(b, cs) == IF b THEN cs ELSE <<>>

\* The observation [main, refs, snaps] made by a fresh handle.
ObsOk(s, o) ==
  LET m == Cur(s) IN
  << <<"meta.main", o.main = m.main>>,
     <<"meta.refs", /\ Len(o.refs) = Cardinality(m.refs)
                    /\ \A i \in 1..Len(o.refs) :
                         [n |-> o.refs[i].n, k |-> o.refs[i].k, id |-> o.refs[i].id] \in m.refs>>,
     <<"meta.snaps", /\ Len(o.snaps) = Cardinality(m.ids)
                     /\ \A i \in 1..Len(o.snaps) : o.snaps[i][1] \in m.ids>>,
     \* the path that the change feed follows
     <<"meta.par", \A i \in 1..Len(o.snaps) : o.snaps[i][1] \in m.ids =>
                     s.snaps[o.snaps[i][1]].par = o.snaps[i][2]>> >>

---------------------------------------------------------------------------
Plan(ev, rows0) ==
  CASE ev.o = "append" -> PlanAppend(rows0, ev.rows)
    [] ev.o = "delete" -> PlanDelete(rows0, ev.pred, pk)
    [] ev.o = "insert" -> PlanInsert(rows0, ev.rows, pk)
    [] ev.o = "upsert" -> PlanUpsert(rows0, ev.rows, pk)

\* br, base: branch and head when the transaction began.
\* soft: the transaction may have begun as late as its commit.
\* The rows of a new version; if only record fields (columns other than ev.nr)
\* differ the clause says so.
RowsCs(name, ev, want) ==
  IF ev.new.err = "" /\ SameBag(ev.new.rows, want) THEN <<name, TRUE>>
  ELSE IF ev.new.err = "" /\ "nr" \in DOMAIN ev
          /\ SameBag(ProjectAll(ev.new.rows, ev.nr), ProjectAll(want, ev.nr)) THEN <<name \o "/rec", FALSE>>
  ELSE IF ev.new.err # "" THEN <<name \o "/unreadable", FALSE>>
  ELSE <<name, FALSE>>

CommitEv(ev, s, br, base0, soft) ==
  LET h == ev.h
      head == HeadOf(Cur(s), br)
      base == IF soft /\ head # -1 /\ ev.out # "failed" THEN head ELSE base0
      plan == IF base = -1 THEN Fail ELSE Plan(ev, Rows(s, base))
      want == CommitOutcome(s, br, base, plan)
      \* a soft transaction may also fail because the head has moved
      s1 == IF ev.out = "succeeded" THEN CommitState(s, h, br, base, plan, ev.new.id)
            ELSE IF ev.ev = "op" THEN Reload(s, h) ELSE s
      o == ev.o
      \* clauses about transactions whose branch head or metadata has moved
      tx == IF ev.ev = "commit" THEN "txn." ELSE ""
  IN IF ev.out # want
     THEN [s |-> s, cs |-> << <<tx \o "outcome." \o o \o "." \o want \o "/" \o ev.out, FALSE>> >>]
     ELSE IF want # "succeeded"
     THEN [s |-> s1, cs |-> ObsOk(s1, ev.obs)]
     ELSE [s |-> s1,
           cs |-> << <<"newid", ev.new.id > MaxId(s)>>,
                     RowsCs(tx \o "rows." \o o, ev, plan.rows),
                     <<"log." \o o, ev.new.log = "" /\ SameBag(ev.new.add, plan.add)
                                    /\ SameBag(ev.new.del, plan.del)>>,
                     <<"upd." \o o, ev.upd = -1000000
                                    \/ ev.upd = Len(plan.rows) - Len(Rows(s, base))>> >>
                  \o ObsOk(s1, ev.obs)]

\* The process died or got an I/O error in the middle of an operation: either
\* nothing happened or everything did.  A reported success has happened; a
\* reported failure has not.
CrashEv(ev, s, br, base) ==
  LET plan == Plan(ev, Rows(s, base))
      \* a handle that survives an I/O error goes on with its branch
      live(x) == IF ev.keep THEN x ELSE OpenHandle(x, ev.h)
      pre == live(s)
      can == plan.k = "patch" /\ ev.new.id # -1
             /\ CommitOutcome(s, br, base, plan) = "succeeded"
      done == CommitState(s, ev.h, br, base, plan, ev.new.id)
      \* its cached metadata may be older than the commit
      post == IF can THEN live([done EXCEPT !.h[ev.h].v = s.h[ev.h].v]) ELSE pre
      isPost == ev.new.id # -1
      t == IF isPost THEN post ELSE pre
  IN [s |-> t,
      cs |-> << <<"crash.partial", isPost => can>>,
                <<"crash.lost", ev.out = "succeeded" => isPost>>,
                <<"crash.effect", ev.out \in {"failed", "skipped"} => ~isPost>> >>
             \o Cond(isPost /\ can,
                  << <<"newid", ev.new.id > MaxId(s)>>,
                     <<"crash.rows", ev.new.err = "" /\ SameBag(ev.new.rows, plan.rows)>>,
                     <<"crash.log", ev.new.log = "" /\ SameBag(ev.new.add, plan.add)
                                    /\ SameBag(ev.new.del, plan.del)>> >>)
             \o ObsOk(t, ev.obs)]

---------------------------------------------------------------------------
\* Metadata versions a handle may have cached: st.h[h].v is the oldest.
Seen(s, h) == s.h[h].v..Len(s.metas)

RefEv(ev, s) ==
  LET m == Cur(s)
      kind == IF ev.ev \in {"add_tag", "remove_tag"} THEN "tag" ELSE "branch"
      add == ev.ev \in {"add_tag", "add_branch"}
      rejectCur == ev.ev = "remove_branch" /\ s.h[ev.h].b = ev.n
      ok == IF add THEN AddRefOk(m, ev.n, AddRefId(m, ev.id))
            ELSE ~rejectCur /\ RemoveRefOk(m, ev.n, kind)
      s1 == IF rejectCur THEN s
            ELSE IF add THEN AddRef(s, ev.h, ev.n, kind, ev.id)
            ELSE RemoveRef(s, ev.h, ev.n, kind)
      want == IF ok THEN "ok" ELSE "user"
  IN IF ev.out # want
     THEN [s |-> s, cs |-> << <<"outcome." \o ev.ev \o "." \o want \o "/" \o ev.out, FALSE>> >>]
     ELSE [s |-> s1, cs |-> ObsOk(s1, ev.obs)]

\* A reference operation that died or got an I/O error.
RefCrashEv(ev, s) ==
  LET m == Cur(s)
      kind == IF ev.o \in {"add_tag", "remove_tag"} THEN "tag" ELSE "branch"
      live(x) == IF ev.keep THEN [x EXCEPT !.h[ev.h].v = s.h[ev.h].v] ELSE OpenHandle(x, ev.h)
      pre == live(s)
      post == live(IF ev.o \in {"add_tag", "add_branch"}
                   THEN AddRef(s, ev.h, ev.n, kind, ev.id)
                   ELSE RemoveRef(s, ev.h, ev.n, kind))
      fits(t) == Failing(ObsOk(t, ev.obs)) = <<>>
      t == IF fits(post) THEN post ELSE pre
  IN [s |-> t,
      cs |-> << <<"crash.lost", ev.out = "ok" => fits(post)>>,
                <<"crash.effect", ev.out = "user" => fits(pre)>> >> \o ObsOk(t, ev.obs)]

\* set_current_branch looks at the metadata the handle has loaded; an
\* implementation that reloads first is fine as well.
SetBranchEv(ev, s) ==
  LET may == {SetBranchOk(s.metas[i], ev.n) : i \in Seen(s, ev.h)}
      s1 == IF ev.out = "ok" THEN WithBranch(s, ev.h, ev.n) ELSE s
      ok == \/ ev.out = "ok" /\ TRUE \in may
            \/ ev.out = "user" /\ FALSE \in may
  IN [s |-> s1, cs |-> << <<"outcome.set_branch." \o ev.out, ok>> >> \o ObsOk(s1, ev.obs)]

---------------------------------------------------------------------------
Expected(ev, rows) == ProjectAll(Where(rows, ev.pred), ev.cols)

ReadEv(ev, s) ==
  LET s1 == Reload(s, ev.h)
      id == Resolve(Cur(s), s.h[ev.h].b, ev.ver)
      want == IF id = -1 THEN "user" ELSE "ok"
  IN IF ev.out # want
     THEN [s |-> s1, cs |-> << <<"outcome.read." \o want \o "/" \o ev.out, FALSE>> >>]
     ELSE IF id = -1 THEN [s |-> s1, cs |-> <<>>]
     ELSE [s |-> s1,
           cs |-> << <<ev.what, SameBag(ev.rows, Expected(ev, Rows(s, id)))>>,
                     <<"read.batch", ev.maxb <= ev.b>> >>]

\* A diff by a handle on branch br that has loaded metadata m.
DiffCs(ev, s, m, br) ==
  LET a == Resolve(m, br, ev.s)
      b == Resolve(m, br, ev.e)
      ok == DiffOk(s, a, b)
      want == IF ok THEN "ok" ELSE "user"
      path == PathFrom(s, a, b)
      idx(id) == CHOOSE i \in 1..Len(path) : path[i] = id
      its_ == ev.items
      rowsOf(id, t) == Flatten([i \in 1..Len(its_) |->
                         IF its_[i].id = id /\ its_[i].t = t THEN its_[i].rows ELSE <<>>])
      rank(x) == 2 * idx(x.id) + (IF x.t = "d" THEN 0 ELSE 1)
  IN IF ev.out # want
     THEN << <<"outcome.diff." \o want \o "/" \o ev.out, FALSE>> >>
     ELSE IF ~ok THEN <<>>
     ELSE IF \E i \in 1..Len(its_) : its_[i].id \notin Range(path)
     THEN << <<"diff.path", FALSE>> >>
     ELSE << <<"diff.order", \A i \in 1..(Len(its_) - 1) :
                                rank(its_[i]) <= rank(its_[i + 1])>>,
             <<"diff.del", \A i \in 1..Len(path) :
                              SameBag(rowsOf(path[i], "d"), s.snaps[path[i]].del)>>,
             <<"diff.add", \A i \in 1..Len(path) :
                              SameBag(rowsOf(path[i], "a"), s.snaps[path[i]].add)>> >>

DiffEv(ev, s) ==
  [s |-> Reload(s, ev.h), cs |-> DiffCs(ev, s, Cur(s), s.h[ev.h].b)]

---------------------------------------------------------------------------
(* Operations of client processes that run step by step.  Invoked at event  *)
(* "inv", such an operation may take effect at one moment ("eff") until it  *)
(* responds ("res") or its process dies; p.lo is the metadata version at    *)
(* the invocation, p.beg that at the moment when it had certainly begun to  *)
(* compute its changes ("beg"), 0 before.                                   *)
Lived(s, p) == p.lo..Len(s.metas)
SeenHead(s, p, i) == HeadOf(s.metas[i], s.h[p.h].b)

EffEv(ev, s, p) ==
  LET br == s.h[p.h].b
      head == HeadOf(Cur(s), br)
      plan == IF head = -1 THEN Fail ELSE Plan(p, Rows(s, head))
  IN IF p.eff \/ p.what \notin {"data", "ref"}
     THEN [s |-> s, cs |-> << <<"conc.effect", FALSE>> >>]
     ELSE IF p.what = "ref"
     THEN LET kind == IF p.o \in {"add_tag", "remove_tag"} THEN "tag" ELSE "branch"
              t == IF p.o \in {"add_tag", "add_branch"} THEN AddRef(s, p.h, p.n, kind, p.id)
                   ELSE RemoveRef(s, p.h, p.n, kind)
          IN [s |-> [t EXCEPT !.h[p.h].v = p.lo], cs |-> ObsOk(t, ev.obs)]
     ELSE IF CommitOutcome(s, br, head, plan) # "succeeded" \/ ev.new.id = -1
     THEN [s |-> s, cs |-> << <<"conc.commit." \o p.o, FALSE>> >>]
     ELSE LET t == CommitState(s, p.h, br, head, plan, ev.new.id) IN
          [s |-> [t EXCEPT !.h[p.h].v = p.lo],
           cs |-> << <<"newid", ev.new.id > MaxId(s)>>,
                     <<"conc.moved." \o p.o, p.beg = 0 \/
                          \E i \in p.lo..p.beg : SeenHead(s, p, i) = head>>,
                     <<"txn.rows." \o p.o, ev.new.err = "" /\ SameBag(ev.new.rows, plan.rows)>>,
                     <<"log." \o p.o, ev.new.log = "" /\ SameBag(ev.new.add, plan.add)
                                      /\ SameBag(ev.new.del, plan.del)>> >>
                  \o ObsOk(t, ev.obs)]

ResData(ev, s, p) ==
  LET br == s.h[p.h].b
      head(i) == SeenHead(s, p, i)
      plan(i) == IF head(i) = -1 THEN Fail ELSE Plan(p, Rows(s, head(i)))
  IN CASE ev.out = "succeeded" -> p.eff
       [] ev.out = "failed" ->
            ~p.eff /\ \/ \E i, j \in Lived(s, p) : head(i) # head(j)
                      \/ \E i \in Lived(s, p) :
                           plan(i).k = "fail" \/ (br # MAIN /\ Ref(s.metas[i], br).k # "branch")
       [] ev.out = "skipped" -> ~p.eff /\ \E i \in Lived(s, p) : plan(i).k = "none"
       [] OTHER -> FALSE

ResRef(ev, s, p) ==
  LET kind == IF p.o \in {"add_tag", "remove_tag"} THEN "tag" ELSE "branch"
      can(m) == IF p.o \in {"add_tag", "add_branch"} THEN AddRefOk(m, p.n, AddRefId(m, p.id))
                ELSE RemoveRefOk(m, p.n, kind) /\ ~(p.o = "remove_branch" /\ s.h[p.h].b = p.n)
  IN CASE ev.out = "ok" -> p.eff
       [] ev.out = "user" -> ~p.eff /\ \E i \in Lived(s, p) : ~can(s.metas[i])
       [] OTHER -> FALSE

ResRead(ev, s, p) ==
  LET id(i) == Resolve(s.metas[i], s.h[p.h].b, p.ver) IN
  CASE ev.out = "ok" -> /\ ev.maxb <= p.b
                        /\ \E i \in Lived(s, p) : id(i) # -1 /\ SameBag(ev.rows,
                                ProjectAll(Where(Rows(s, id(i)), p.pred), ev.cols))
    [] ev.out = "user" -> \E i \in Lived(s, p) : id(i) = -1
    [] OTHER -> FALSE

ResEv(ev, s) ==
  LET p == pend[ev.h]
      t == [s EXCEPT !.h[ev.h].v = p.lo]
      name == "conc." \o p.what \o "/" \o ev.out
  IN [s |-> t,
      cs |-> << <<name, CASE ev.out = "dead" -> TRUE
                          [] p.what = "data" -> ResData(ev, s, p)
                          [] p.what = "ref" -> ResRef(ev, s, p)
                          [] p.what = "read" -> ResRead(ev, s, p)
                          [] p.what = "diff" -> \E i \in Lived(s, p) :
                               Failing(DiffCs([s |-> p.s, e |-> p.e, out |-> ev.out, items |-> ev.items],
                                              s, s.metas[i], s.h[p.h].b)) = <<>> >> >>
             \o ObsOk(t, ev.obs)]

NextPend(ev) ==
  CASE ev.ev = "inv" -> [x \in DOMAIN pend \cup {ev.h} |->
                           IF x = ev.h THEN ev @@ [lo |-> Len(st.metas), eff |-> FALSE, beg |-> 0] ELSE pend[x]]
    [] ev.ev = "beg" -> [pend EXCEPT ![ev.h].beg = IF @ = 0 THEN Len(st.metas) ELSE @]
    [] ev.ev = "eff" -> [pend EXCEPT ![ev.h].eff = TRUE]
    [] OTHER -> pend

---------------------------------------------------------------------------
(* Physical layout of a snapshot.                                           *)
NonNull(rows, c) == {rows[i][c] : i \in 1..Len(rows)} \ {NULL}
MinOf(S) == IF S = {} THEN NULL ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == IF S = {} THEN NULL ELSE CHOOSE x \in S : \A y \in S : x >= y

LayoutEv(ev, s) ==
  LET fs == ev.files
      n == Len(fs)
      par == s.snaps[ev.id].par
  IN [s |-> s,
      cs |-> << <<"layout.rows", SameBag(Flatten([i \in 1..n |-> fs[i].rows]), Rows(s, ev.id))>>,
                <<"layout.numrows", \A i \in 1..n : fs[i].n = Len(fs[i].rows)>>,
                <<"layout.unique", \A i, j \in 1..n : (i # j /\ ~fs[i].ext) => fs[i].p # fs[j].p>>,
                <<"layout.listed", SameBag(ev.idx, [i \in 1..n |-> fs[i].p])>>,
                <<"layout.stats", \A i \in 1..n : \A j \in 1..Len(pk) :
                     \/ fs[i].unk[j]
                     \/ /\ fs[i].mins[j] = MinOf(NonNull(fs[i].rows, pk[j]))
                        /\ fs[i].maxs[j] = MaxOf(NonNull(fs[i].rows, pk[j]))>>,
                <<"layout.total", /\ ev.tot[1] = SumSeq([i \in 1..n |-> fs[i].n])
                                  /\ ev.tot[2] = SumSeq([i \in 1..n |-> fs[i].cb])
                                  /\ ev.tot[3] = SumSeq([i \in 1..n |-> fs[i].ib])>>,
                <<"layout.bytes", \A i \in 1..n : fs[i].cb > 0 /\ fs[i].ib > 0>>,
                <<"layout.records", \A i \in 1..Len(ev.recs) :
                     ev.recs[i].n = ev.recs[i].real>>,
                <<"layout.recunique", \A i, j \in 1..Len(ev.recs) :
                     i # j => ev.recs[i].p # ev.recs[j].p>>,
                <<"layout.recbytes", ev.recs = <<>> \/
                     ev.tot[4] >= SumSeq([i \in 1..Len(ev.recs) |-> ev.recs[i].b])>>,
                <<"layout.address", \A i \in 1..Len(ev.addrs) :
                     LET a == ev.addrs[i] IN
                     \/ a.ext /\ a.row >= 0 /\ a.row < a.real
                     \/ \E j \in 1..Len(ev.recs) :
                          /\ ev.recs[j].p = a.p /\ ev.recs[j].c = a.c
                          /\ a.row >= 0 /\ a.row < ev.recs[j].n>> >>
             \o Cond(ev.upd # <<>> /\ par \in DOMAIN stat,
                  << <<"layout.update", \A j \in 1..4 : ev.tot[j] - stat[par][j] = ev.upd[j]>> >>)]

\* versions(): one row per snapshot and reference to it.
VersionsEv(ev, s) ==
  LET want(m) == {<<i, "">> : i \in {x \in m.ids : \A r \in m.refs : r.id # x}}
                 \cup {<<r.id, r.n>> : r \in m.refs}
      fits(m) == Len(ev.rows) = Cardinality(want(m)) /\ Range(ev.rows) = want(m)
  IN [s |-> s, cs |-> << <<"versions", \E i \in Seen(s, ev.h) : fits(s.metas[i])>> >>]

\* Random access to record fields: items are all elements by index, iter by
\* iteration, lists are answers to lists of indexes.  A given address table
\* comes with the records it refers to (order).
AccessEv(ev, s) ==
  LET s1 == IF ev.src = "handle" /\ ~ev.given THEN Reload(s, ev.h) ELSE s
      id == HeadOf(Cur(s), IF ev.src = "handle" THEN s.h[ev.h].b ELSE MAIN)
      want == IF ev.given THEN ev.order
              ELSE IF id = -1 THEN <<>> ELSE ProjectAll(Rows(s, id), ev.cols)
  IN IF want = <<>>   \* there may be nothing to access
     THEN [s |-> s1, cs |-> << <<"access.outcome/" \o ev.out, ev.out = "user" \/ (ev.out = "ok" /\ ev.n = 0)>> >>]
     ELSE IF ev.out # "ok"
     THEN [s |-> s1, cs |-> << <<"access.outcome/" \o ev.out, FALSE>> >>]
     ELSE [s |-> s1,
           cs |-> << <<"access.len", ev.n = Len(want)>>,
                     <<"access.rows", SameBag(ev.items, want)>>,
                     <<"access.iter", ev.iter = ev.items>>,
                     <<"access.order", ev.exact => ev.items = want>>,
                     <<"access.list", \A i \in 1..Len(ev.lists) :
                          /\ Len(ev.lists[i].got) = Len(ev.lists[i].ix)
                          /\ \A k \in 1..Len(ev.lists[i].ix) :
                               /\ ev.lists[i].ix[k] < Len(ev.items)
                               /\ ev.lists[i].got[k] = ev.items[ev.lists[i].ix[k] + 1]>>,
                     <<"access.beyond", ~ev.beyond>> >>]

---------------------------------------------------------------------------
Step(ev) ==
  LET T0 == IF "h" \in DOMAIN ev /\ ev.h \in DOMAIN txn THEN txn[ev.h] ELSE <<>> IN
  CASE ev.ev = "open" -> [s |-> OpenHandle(st, ev.h), cs |-> <<>>]
    [] ev.ev = "begin" -> [s |-> Reload(st, ev.h), cs |-> <<>>]
    [] ev.ev = "op" ->
         CommitEv(ev, st, st.h[ev.h].b, BeginBase(st, ev.h), FALSE)
    [] ev.ev = "commit" -> CommitEv(ev, st, Last(T0).br, Last(T0).base, Last(T0).soft)
    [] ev.ev = "crash" -> CrashEv(ev, st, st.h[ev.h].b, BeginBase(st, ev.h))
    [] ev.ev = "refcrash" -> RefCrashEv(ev, st)
    [] ev.ev = "abort" -> LET t == OpenHandle(st, ev.h) IN [s |-> t, cs |-> ObsOk(t, ev.obs)]
    [] ev.ev \in {"add_tag", "add_branch", "remove_tag", "remove_branch"} -> RefEv(ev, st)
    \* an operation with wrong arguments
    [] ev.ev = "bad" ->
         [s |-> st, cs |-> << <<"bad." \o ev.what, ev.out # "succeeded">> >> \o ObsOk(st, ev.obs)]
    [] ev.ev = "set_branch" -> SetBranchEv(ev, st)
    [] ev.ev = "read" -> ReadEv(ev, st)
    [] ev.ev = "read_open" ->
         LET id == Resolve(Cur(st), st.h[ev.h].b, ev.ver)
             want == IF id = -1 THEN "user" ELSE "ok"
         IN [s |-> Reload(st, ev.h), cs |-> << <<"outcome.read." \o want \o "/" \o ev.out, ev.out = want>> >>]
    [] ev.ev = "read_close" ->
         [s |-> st, cs |-> << <<"inflight.outcome/" \o ev.out, ev.out = "ok">>,
                             <<"inflight.rows", \E i \in 1..Len(its[ev.it]) :
                                                   SameBag(ev.rows, its[ev.it][i])>> >>]
    [] ev.ev = "diff" -> DiffEv(ev, st)
    \* A change feed reports the changes up to the versions its arguments stood
    \* for when it was asked for; it may reject them then or when it is consumed.
    [] ev.ev = "diff_open" ->
         [s |-> Reload(st, ev.h),
          cs |-> IF ev.out = "ok" THEN <<>>
                 ELSE DiffCs([s |-> ev.s, e |-> ev.e, out |-> ev.out, items |-> <<>>], st, Cur(st), st.h[ev.h].b)]
    [] ev.ev = "diff_close" ->
         LET i == its[ev.it] IN
         LET x == [s |-> i.s, e |-> i.e, out |-> ev.out, items |-> ev.items]
             cs == DiffCs(x, st, i.m, i.b)
             \* a version by id that has been committed only meanwhile
             fix(v) == IF v.t = "id" THEN v ELSE [t |-> "id", x |-> Resolve(i.m, i.b, v)]
             late == ~i.ok /\ Failing(DiffCs([x EXCEPT !.s = fix(i.s), !.e = fix(i.e)], st, Cur(st), i.b)) = <<>>
         IN [s |-> st, cs |-> IF late THEN <<>> ELSE cs]
    [] ev.ev = "layout" -> LayoutEv(ev, st)
    [] ev.ev = "versions" -> VersionsEv(ev, st)
    [] ev.ev = "access" -> AccessEv(ev, st)
    \* facts the harness measured on files: [what, ok]
    [] ev.ev = "fact" -> [s |-> st, cs |-> << <<ev.what, ev.ok>> >>]
    [] ev.ev \in {"inv", "beg"} -> [s |-> st, cs |-> ObsOk(st, ev.obs)]
    [] ev.ev = "eff" -> EffEv(ev, st, pend[ev.h])
    [] ev.ev = "res" -> ResEv(ev, st)
    [] ev.ev = "obs" -> [s |-> st, cs |-> ObsOk(st, ev.obs)]
    [] OTHER -> [s |-> st, cs |-> << <<"unknown event " \o ev.ev, FALSE>> >>]

NextTxn(ev) ==
  IF ev.ev = "begin"
  THEN [x \in DOMAIN txn \cup {ev.h} |->
          IF x = ev.h
          THEN Append(IF x \in DOMAIN txn THEN txn[x] ELSE <<>>,
                      [br |-> st.h[ev.h].b, base |-> BeginBase(st, ev.h), soft |-> ev.soft])
          ELSE txn[x]]
  ELSE IF ev.ev \in {"commit", "abort"}
  THEN [txn EXCEPT ![ev.h] = SubSeq(@, 1, Len(@) - 1)]
  ELSE txn

\* Rows an open iterator may return: those of the version current when it was
\* opened; for an iterator that may have been opened late ("soft"), also those
\* of versions committed until its first result.
NextIts(ev) ==
  IF ev.ev = "read_open" /\ ev.out = "ok"
  THEN LET id == Resolve(Cur(st), st.h[ev.h].b, ev.ver) IN
       [x \in DOMAIN its \cup {ev.it} |->
          IF x = ev.it THEN <<Expected(ev, Rows(st, id))>> ELSE its[x]]
  ELSE IF ev.ev = "diff_open" /\ ev.out = "ok"
  THEN [x \in DOMAIN its \cup {ev.it} |->
          IF x = ev.it THEN [s |-> ev.s, e |-> ev.e, m |-> Cur(st), b |-> st.h[ev.h].b,
                              ok |-> DiffOk(st, Resolve(Cur(st), st.h[ev.h].b, ev.s), Resolve(Cur(st), st.h[ev.h].b, ev.e))]
          ELSE its[x]]
  ELSE its

NextStat(ev) ==
  IF ev.ev = "layout"
  THEN [x \in DOMAIN stat \cup {ev.id} |-> IF x = ev.id THEN ev.tot ELSE stat[x]]
  ELSE stat

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.ev = "reset"
     THEN /\ st' = InitStore({}) /\ pk' = ev.pk /\ txn' = <<>> /\ its' = <<>> /\ pend' = <<>>
          /\ stat' = <<>> /\ dead' = FALSE /\ tr' = ev.tr
     ELSE IF dead THEN UNCHANGED <<st, pk, txn, its, pend, stat, dead, tr>>
     ELSE LET r == Step(ev)
              f == Failing(r.cs)
          IN IF f = <<>>
             THEN /\ st' = r.s /\ txn' = NextTxn(ev) /\ its' = NextIts(ev) /\ pend' = NextPend(ev)
                  /\ stat' = NextStat(ev) /\ UNCHANGED <<pk, dead, tr>>
             ELSE /\ PrintT(<<"FAIL", tr, l, Names(f)>>)
                  /\ dead' = TRUE /\ UNCHANGED <<st, pk, txn, its, pend, stat, tr>>

Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
