----------------------------- MODULE TraceJoin -----------------------------
(* Validates joins read from real datasets against Join.                    *)
(* Events: side (what a side holds), join (what reading a join returned).   *)
EXTENDS Join, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, side, dead, tr
vars == <<l, side, dead, tr>>
None == [left |-> <<>>, right |-> <<>>]
Init == l = 1 /\ side = None /\ dead = TRUE /\ tr = ""

Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names_(cs) == [i \in 1..Len(cs) |-> cs[i][1]]

Expected(ev) ==
  InnerJoin(Where(side.left, ev.lp), Where(side.right, ev.rp), ev.kl, ev.kr, ev.cl, ev.cr)

Step(ev) ==
  CASE ev.ev = "side" -> [s |-> [side EXCEPT ![ev.s] = ev.rows], cs |-> << <<"join.side/" \o ev.out, ev.out = "ok">> >>]
    [] ev.ev = "join" ->
         [s |-> side,
          cs |-> IF ev.out # "ok" THEN << <<"join.outcome/" \o ev.out, FALSE>> >>
                 ELSE LET x == Expected(ev) IN
                      << <<"join.rows", SameBag(x, ev.rows)>>,
                         <<"join.schema", ev.schema = ev.want>> >>]
    [] ev.ev = "refuse" -> [s |-> side, cs |-> << <<"join.refuse/" \o ev.out, ev.out = "user">> >>]
    [] ev.ev = "fact" -> [s |-> side, cs |-> << <<ev.what, ev.ok>> >>]
    [] OTHER -> [s |-> side, cs |-> << <<"unknown event " \o ev.ev, FALSE>> >>]

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.ev = "reset" THEN side' = None /\ dead' = FALSE /\ tr' = ev.tr
     ELSE IF dead THEN UNCHANGED <<side, dead, tr>>
     ELSE LET r == Step(ev)
              f == Failing(r.cs)
          IN IF f = <<>> THEN side' = r.s /\ UNCHANGED <<dead, tr>>
             ELSE PrintT(<<"FAIL", tr, l, Names_(f)>>) /\ dead' = TRUE /\ UNCHANGED <<side, tr>>
Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
