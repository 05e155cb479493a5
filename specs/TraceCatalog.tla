--------------------------- MODULE TraceCatalog ---------------------------
(* Validates traces of real catalogs against Catalog.                       *)
EXTENDS Catalog, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cat, dead, tr
vars == <<l, cat, dead, tr>>
Init == l = 1 /\ cat = <<>> /\ dead = TRUE /\ tr = ""

Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names_(cs) == [i \in 1..Len(cs) |-> cs[i][1]]
N(ev) == <<ev.c, ev.n>>
Want(ok) == IF ok THEN "ok" ELSE "user"

\* what opening every name by a new catalog object shows
Same(d, o) == d.kind = o.kind /\ d.sch = o.sch /\ SameBag(d.rows, o.rows)
                /\ (o.kind = "view" => o.src = d.src /\ o.thr = d.thr)
ObsOk(c, o) ==
  << <<"cat.contents", /\ Len(o) = Cardinality(DOMAIN c)
                       /\ \A i \in 1..Len(o) : Has(c, N(o[i])) /\ Same(Get(c, N(o[i])), o[i])>> >>

Out(ev, t, ok) ==
  IF ev.out # Want(ok) THEN [s |-> cat, cs |-> << <<"cat.outcome." \o ev.ev \o "." \o Want(ok) \o "/" \o ev.out, FALSE>> >>]
  ELSE [s |-> t, cs |-> ObsOk(t, ev.obs)]

Step(ev) ==
  CASE ev.ev = "create" -> Out(ev, Create(cat, N(ev), ev.sch), CreateOk(cat, N(ev)))
    [] ev.ev = "materialize" -> Out(ev, Materialize(cat, N(ev), ev.src, ev.thr), CreateOk(cat, N(ev)))
    [] ev.ev = "append" -> Out(ev, Append_(cat, N(ev), ev.rows), TRUE)
    [] ev.ev = "delete" -> Out(ev, Delete_(cat, N(ev), ev.pred), TRUE)
    [] ev.ev = "refresh" -> Out(ev, Refresh(cat, N(ev)), TRUE)
    [] ev.ev = "open" ->
         IF Has(cat, N(ev))
         THEN [s |-> cat, cs |-> << <<"cat.open/" \o ev.out, ev.out = "ok" /\ Same(Get(cat, N(ev)), ev)>> >>]
         ELSE [s |-> cat, cs |-> << <<"cat.missing/" \o ev.out, ev.out = "notfound">> >>]
    [] ev.ev = "list" ->
         [s |-> cat, cs |-> << <<"cat.list", ev.out = "ok" /\ Len(ev.items) = Cardinality(Listed(cat, ev.c))
                                  /\ {ev.items[i][1] : i \in 1..Len(ev.items)} = Listed(cat, ev.c)>>,
                               <<"cat.location", \A i \in 1..Len(ev.items) : ev.items[i][2] = 1>> >>]
    [] ev.ev = "junk" -> [s |-> cat, cs |-> ObsOk(cat, ev.obs)]
    [] ev.ev = "fact" -> [s |-> cat, cs |-> << <<ev.what, ev.ok>> >>]
    [] OTHER -> [s |-> cat, cs |-> << <<"unknown event " \o ev.ev, FALSE>> >>]

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.ev = "reset" THEN cat' = <<>> /\ dead' = FALSE /\ tr' = ev.tr
     ELSE IF dead THEN UNCHANGED <<cat, dead, tr>>
     ELSE LET r == Step(ev)
              f == Failing(r.cs)
          IN IF f = <<>> THEN cat' = r.s /\ UNCHANGED <<dead, tr>>
             ELSE PrintT(<<"FAIL", tr, l, Names_(f)>>) /\ dead' = TRUE /\ UNCHANGED <<cat, tr>>
Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
