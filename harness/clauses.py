"""Which property a failed clause of a trace specification speaks about."""
import re

DATA = {"append": "C01", "delete": "C02", "insert": "C03", "upsert": "C03"}


def props(clause, ev):
  """The set of properties that are violated if `clause` fails at event ev."""
  kind = ev.get("ev", "")
  o = ev.get("o", "")
  out = ev.get("out", "")
  s = set()
  if clause.startswith("exception"):
    return {"*"}
  if clause.startswith("txn."):
    s.add("C07")
    clause = clause[4:]
  if kind in ("crash", "refcrash", "abort"):
    s.add("C08")
  head = clause.split(".")[0].split("/")[0]
  if any(isinstance(ev.get(k), dict) and ev[k].get("t") == "ref" for k in (("ver",) if kind == "read" else ("s", "e") if kind in ("diff", "diff_open") else ())):
    s.add("C06")  # what a tag or branch refers to
  if kind in ("op", "commit", "read", "inflight") and (
      "on" in ev or any(r.get("k") == "branch" and r["id"] != ev["obs"]["main"] for r in ev.get("obs", {}).get("refs", []))):
    s.add("C05")  # a branch and its independence from others
  if kind in ("eff", "res") and ev.get("out") == "dead":
    s.add("C08")
  if head == "meta":
    if kind == "eff":
      s |= {"C07", "C05"} if o in DATA else {"C06"}
    elif kind in ("op", "commit"):
      if out == "succeeded":
        s |= {"C05", "C07"} if clause != "meta.snaps" else {"C04", "C05", "C07"}
        if clause == "meta.par": s |= {"C04", "C09"}
        if clause == "meta.refs": s.add("C06")
      else:
        s |= {"C13", "C05"} | ({"C07"} if kind == "commit" else set())
    elif kind.startswith(("add_", "remove_")):
      s |= {"C06"} | ({"C13"} if out != "ok" else set())
    elif kind == "bad":
      s.add("C13")
    elif kind == "set_branch":
      s |= {"C06", "C13"}
    elif kind == "obs":
      s |= {"C13", "C08"}
  elif head == "bad":
    s.add("C13")
  elif head == "conc":
    x = clause.split(".")[1].split("/")[0]
    if x == "ref": s |= {"C06"}
    elif x == "read": s |= {"C14"}
    elif x == "diff": s |= {"C09", "C14"}
    else:
      s |= {"C07"} | ({DATA[o]} if o in DATA else set())
      if out in ("failed", "skipped"): s.add("C13")
  elif head == "newid":
    s.add("C04")
  elif head == "rows":
    s.add(DATA[o])
    if clause.endswith("/rec"): s |= {"C11", "C12"}  # records are not those of the rows
    if clause.endswith("/unreadable") and "nr" in ev: s |= {"C11", "C12"}
  elif head == "log":
    s.add("C09")
  elif head == "upd":
    s.add("C12")
  elif head == "outcome":
    x = clause.split(".")[1]
    if x in DATA:
      s |= {DATA[x], "C13"}
    elif x == "read":
      s |= {"C14", "C11"}
      if ev.get("ver", {}).get("t") != "head": s |= {"C04"}
      if ev.get("pred", {}).get("k", "true") != "true": s.add("C10")
      s.add("C05")
    elif x == "diff":
      s.add("C09")
      if kind == "diff_close": s.add("C14")
      if clause.split(".")[2].startswith("user"): s.add("C13")
    else:
      s |= {"C06", "C13"}
  elif clause == "read.rows":
    if ev.get("pred", {}).get("k", "true") != "true": s.add("C10")
    else: s |= {"C11", "C14"}
    if ev.get("ver", {}).get("t") == "head": s |= {"C14", "C05"}
    else: s |= {"C04", "C05"}
  elif head == "read":
    s.add("C11")
    if clause == "read.ref": s |= {"C12"}
  elif head == "inflight":
    s |= {"C14", "C04"}
  elif head == "diff":
    s.add("C09")
    if kind == "diff_close": s.add("C14")
  elif head == "layout":
    s.add("C12")
    if clause == "layout.rows" : s.add("C11")
  elif head == "order":
    s |= {"C08", "C04"} if "kept" in clause else {"C08"}
  elif head == "prune":
    s.add("C10")
  elif head == "pdelete":
    s |= {"C02", "C10"}
  elif head == "schema":
    s |= {"C17"}
  elif head == "access":
    s.add("C19")
  elif head == "serde":
    s.add("C24")
  elif head == "versions":
    s |= {"C04", "C06"}
  elif head == "files":
    s.add("C04")
  elif head == "crash":
    s.add("C08")
  elif re.match(r"C\d\d$", head):
    s.add(head)  # facts of scenarios name their property
  else:
    s.add("*")
  return s
