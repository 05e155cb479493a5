----------------------------- MODULE TraceView -----------------------------
(* Validates views and materialized views of real datasets against View.    *)
(* Events: src (versions of the source, as read locally), define, vread,    *)
(* vdiff, refresh, mread, mdiff, loaded, forget.                            *)
EXTENDS View, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, dead, tr
vars == <<l, s, dead, tr>>

\* snaps, main, refs: the source; ss: stages; pk, vpk: key columns of source and view
None0 == [snaps |-> [i \in {0} |-> InitSnap], main |-> 0, refs |-> {}, ss |-> <<>>, pk |-> <<1>>, vpk |-> <<1>>,
          mv |-> InitMv, desc |-> <<>>, meta |-> <<>>]
Init == l = 1 /\ s = None0 /\ dead = TRUE /\ tr = ""

Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names_(cs) == [i \in 1..Len(cs) |-> cs[i][1]]

AddSnap(sn, x) == [i \in DOMAIN sn \cup {x.id} |->
                     IF i = x.id THEN [par |-> x.par, rows |-> x.rows, add |-> x.add, del |-> x.del] ELSE sn[i]]
RECURSIVE AddSnaps(_, _)
AddSnaps(sn, xs) == IF xs = <<>> THEN sn ELSE AddSnaps(AddSnap(sn, Head(xs)), Tail(xs))

\* -1: there is no such version
Find(t, v, head) ==
  CASE v.t = "head" -> head
    [] v.t = "id" -> IF v.x \in DOMAIN t.snaps THEN v.x ELSE -1
    [] v.t = "ref" -> IF \E r \in t.refs : r.n = v.n THEN (CHOOSE r \in t.refs : r.n = v.n).id ELSE -1

HeadBy(t, br) == HeadOf([main |-> t.main, refs |-> t.refs], br)

Cols(rows, ev) == IF Len(ev.cols) = 0 THEN rows ELSE ProjectAll(rows, ev.cols)

Want(ok) == IF ok THEN "ok" ELSE "user"

\* Versions of the materialized view that were observed
ObsVers(t, ev) ==
  << <<"mv.versions", {ev.obs.snaps[i][1] : i \in 1..Len(ev.obs.snaps)} = DOMAIN t.mv.vers>>,
     <<"mv.head", ev.obs.main = t.mv.head>>,
     <<"mv.parents", \A i \in 1..Len(ev.obs.snaps) :
          ev.obs.snaps[i][1] \in DOMAIN t.mv.vers => t.mv.vers[ev.obs.snaps[i][1]].par = ev.obs.snaps[i][2]>>,
     <<"mv.rows", \A i \in 1..Len(ev.obs.vers) :
          ev.obs.vers[i].id \in DOMAIN t.mv.vers => SameBag(t.mv.vers[ev.obs.vers[i].id].rows, ev.obs.vers[i].rows)>>,
     <<"mv.equals", \A id \in DOMAIN t.mv.vers : MvEquals(t.mv, t.snaps, id, t.ss, t.pk)>> >>

\* The prefix of a path that a failed refresh went
Prefix(p, obs) ==
  LET n == Cardinality({i \in 1..Len(p) : \E j \in 1..Len(obs.snaps) : obs.snaps[j][1] = p[i]})
  IN  SubSeq(p, 1, n)

RefreshStep(t, ev) ==
  LET to == Find(t, ev.to, t.main)
      ok == to # -1 /\ RefreshOk(t.mv, t.snaps, t.main, to)
      path == IF ok THEN PathTo(t.snaps, t.mv.head, to) ELSE <<>>
      went == Prefix(path, ev.obs)
      done == Len(went) = Len(path)
      \* a refresh stops, and says so, at a version that deleted rows with equal keys
      stopped == ~done /\ HasDup(t.snaps[path[Len(went) + 1]].del)
      fine == IF stopped THEN ev.out = "failed" ELSE ev.out = Want(ok)
      t2 == [t EXCEPT !.mv = MvRun(@, t.snaps, went, t.ss, t.vpk)]
  IN  [s |-> t2,
       cs |-> (CASE ev.mode = "plain" ->
                      << <<"mv.outcome." \o Want(ok) \o "/" \o ev.out, fine>>,
                         <<"mv.incomplete", ~fine \/ ~ok \/ done \/ stopped>>,
                         <<"mv.results", ok => ev.states = [i \in 1..Len(went) + (IF stopped THEN 1 ELSE 0) |->
                              IF i <= Len(went) THEN "succeeded" ELSE "failed"]>>,
                         <<"mv.upd", ok => \A i \in 1..Len(ev.upd) : i <= Len(went) =>
                              ev.upd[i] = Len(t2.mv.vers[path[i]].rows) - Len(t2.mv.vers[t2.mv.vers[path[i]].par].rows)>> >>
                 [] ev.mode = "part" -> <<>>  \* what a refresh has done so far
                 [] ev.mode = "boom" ->  \* the user function failed
                      << <<"mv.outcome.boom/" \o ev.out, IF ev.hit = 1 THEN ev.out # "ok" ELSE fine>> >>
                 [] ev.mode = "outer" ->  \* another refresh ran while this one was running
                      << <<"mv.outcome.outer/" \o ev.out,
                           IF ev.hit = 1 THEN ev.out \in {"failed", "user"}
                           ELSE ev.out = "user" \/ fine>> >>)
              \o ObsVers(t2, ev)]

Step(t, ev) ==
  CASE ev.ev = "src" ->
         [s |-> [t EXCEPT !.snaps = AddSnaps(@, ev.new), !.main = ev.main, !.refs = Range(ev.refs)],
          cs |-> << <<"src." \o ev.out, ev.out = "ok">> >>]
    [] ev.ev = "define" ->
         [s |-> [t EXCEPT !.ss = ev.ss, !.pk = ev.pk, !.vpk = ev.vpk, !.mv = InitMv, !.desc = ev.desc, !.meta = ev.meta],
          cs |-> << <<"view.define/" \o ev.out, ev.out = "ok">> >>]
    [] ev.ev = "vread" ->
         LET id == Find(t, ev.ver, HeadBy(t, ev.br)) IN
         [s |-> t,
          cs |-> IF ev.out # Want(id # -1) THEN << <<"view.outcome." \o Want(id # -1) \o "/" \o ev.out, FALSE>> >>
                 ELSE IF id = -1 THEN <<>>
                 ELSE << <<"view.rows", SameBag(Where(Chain(t.ss, t.snaps[id].rows), ev.pred), ev.rows)>> >>]
    [] ev.ev = "vdiff" ->
         LET a == Find(t, ev.s, 0)
             b == Find(t, ev.e, 0)
             ok == a # -1 /\ b # -1 /\ a # b /\ PathTo(t.snaps, a, b) # <<-1>>
             path == PathTo(t.snaps, a, b)
             Got(id, d) == Flatten([i \in 1..Len(ev.items) |->
                              IF ev.items[i].id = id /\ ev.items[i].t = d THEN ev.items[i].rows ELSE <<>>])
         IN  [s |-> t,
              cs |-> IF ev.out # Want(ok) THEN << <<"view.outcome.diff." \o Want(ok) \o "/" \o ev.out, FALSE>> >>
                     ELSE IF ~ok THEN <<>>
                     ELSE << <<"view.diff.ids", \A i \in 1..Len(ev.items) : ev.items[i].id \in Range(path)>>,
                             <<"view.diff.order", \A i, j \in 1..Len(ev.items) : i < j =>
                                  (ev.items[i].id < ev.items[j].id \/
                                   (ev.items[i].id = ev.items[j].id /\ ~(ev.items[i].t = "a" /\ ev.items[j].t = "d")))>>,
                             <<"view.diff.add", \A k \in 1..Len(path) :
                                  SameBag(Chain(t.ss, t.snaps[path[k]].add), Got(path[k], "a"))>>,
                             <<"view.diff.del", \A k \in 1..Len(path) : SameBag(t.snaps[path[k]].del, Got(path[k], "d"))>> >>]
    [] ev.ev = "refresh" -> RefreshStep(t, ev)
    [] ev.ev = "mread" ->
         LET id == IF ev.ver.t = "head" THEN t.mv.head ELSE IF ev.ver.x \in DOMAIN t.mv.vers THEN ev.ver.x ELSE -1 IN
         [s |-> t,
          cs |-> IF ev.out # Want(id # -1) THEN << <<"mv.outcome.read." \o Want(id # -1) \o "/" \o ev.out, FALSE>> >>
                 ELSE IF id = -1 THEN <<>>
                 ELSE << <<"mv.read", SameBag(Cols(Where(t.mv.vers[id].rows, ev.pred), ev), ev.rows)>> >>]
    [] ev.ev = "loaded" ->
         [s |-> t, cs |-> << <<"loaded.outcome/" \o ev.out, ev.out = "ok">>,
                            <<"loaded.view", ev.desc = t.desc>>,
                            <<"loaded.meta", ev.meta = t.meta>> >>]
    [] ev.ev = "fact" -> [s |-> t, cs |-> << <<ev.what, ev.ok>> >>]
    [] OTHER -> [s |-> t, cs |-> << <<"unknown event " \o ev.ev, FALSE>> >>]

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.ev = "reset" THEN s' = None0 /\ dead' = FALSE /\ tr' = ev.tr
     ELSE IF dead THEN UNCHANGED <<s, dead, tr>>
     ELSE LET r == Step(s, ev)
              f == Failing(r.cs)
          IN IF f = <<>> THEN s' = r.s /\ UNCHANGED <<dead, tr>>
             ELSE PrintT(<<"FAIL", tr, l, Names_(f)>>) /\ dead' = TRUE /\ UNCHANGED <<s, tr>>
Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
