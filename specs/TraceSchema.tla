--------------------------- MODULE TraceSchema ---------------------------
(* Validates traces of real creations and loads against Schema.             *)
EXTENDS Schema, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, dead, tr
vars == <<l, s, dead, tr>>
Init == l = 1 /\ s = NoStore /\ dead = TRUE /\ tr = ""

Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Names_(cs) == [i \in 1..Len(cs) |-> cs[i][1]]

\* what a loaded dataset shows: fields, keys, record fields, top level numbers
SameDef(d, o) ==
  << <<"schema.fields", o.f = d.f>>, <<"schema.keys", o.pk = d.pk>>, <<"schema.records", o.rec = d.rec>>,
     <<"schema.ids", o.ids = TopIds(d.f, 0)>>, <<"schema.stored", o.stored = Encode(d.f)>> >>

Step(ev) ==
  CASE ev.ev = "create" ->
         LET ok == ~s.on /\ Valid(ev.d)
             \* both orders of checks are allowed
             user == s.on \/ ~KeysOk(ev.d) \/ ~RecsOk(ev.d)
         IN [s |-> Create(s, ev.d),
             cs |-> << <<"schema.outcome." \o (IF ok THEN "ok" ELSE "refused") \o "/" \o ev.out,
                         IF ok THEN ev.out = "ok"
                         ELSE IF user /\ TypesOk(ev.d) THEN ev.out = "user" ELSE ev.out # "ok">>,
                       <<"schema.written", ok \/ s.on \/ ev.files = 0>> >>
                    \o IF ok THEN SameDef(ev.d, ev) ELSE <<>>]
    [] ev.ev = "load" -> [s |-> s, cs |-> << <<"schema.load/" \o ev.out, ev.out = IF s.on THEN "ok" ELSE "other">> >>
                                           \o IF s.on /\ ev.out = "ok" THEN SameDef(s.d, ev) ELSE <<>>]
    [] ev.ev = "rows" -> [s |-> s, cs |-> << <<"schema.rows/" \o ev.out, ev.out = "ok" /\ ev.got = ev.want>> >>]
    [] ev.ev = "fact" -> [s |-> s, cs |-> << <<ev.what, ev.ok>> >>]
    [] OTHER -> [s |-> s, cs |-> << <<"unknown event " \o ev.ev, FALSE>> >>]

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET ev == Trace[l] IN
     IF ev.ev = "reset" THEN s' = NoStore /\ dead' = FALSE /\ tr' = ev.tr
     ELSE IF dead THEN UNCHANGED <<s, dead, tr>>
     ELSE LET r == Step(ev)
              f == Failing(r.cs)
          IN IF f = <<>> THEN s' = r.s /\ UNCHANGED <<dead, tr>>
             ELSE PrintT(<<"FAIL", tr, l, Names_(f)>>) /\ dead' = TRUE /\ UNCHANGED <<s, tr>>
Spec == Init /\ [][Next]_vars
Done == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
