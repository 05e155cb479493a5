"""Crashes and I/O faults at every file system step of an operation.

A history is recorded; then one operation runs in a client process on a copy of
the dataset, and the process is killed, or a system call fails, at a chosen
step.  The trace (history, crash event, follow-up operations) must be allowed
by TraceStore: the operation has happened completely or not at all."""
import copy, os, shutil
from scen import scenario
from gen import Hist, PROFILES, ALL
from preds import C, V, cmp_
from world import World, HEAD, vid, vref, TINY, TRUE, STATE
from procs import Client, Dead, Zygote
import loaders

PRE = dict(append=5, upsert=2, insert=1, delete=2, ref=1.2, big=.2)


def clone(env, w, tag):
  """A copy of the dataset of w with a trace that starts with that of w."""
  ev = []
  env.traces.append(ev)
  loc = os.path.join(env.dir, tag)
  shutil.copytree(w.loc, loc)
  x = World(env.dir, tag, w.profile, create=False, location=loc, ev=[], tr="")
  ev.append(dict(w.ev[0], tr=env.tname_last()))
  ev += w.ev[1:]
  x.ev = ev
  x.branch = dict(w.branch)
  return x


def fault_points(steps):
  """Steps worth a fault: all but the inner writes of a file, of which one."""
  out, i = [], 0
  while i < len(steps):
    j = i
    while j + 1 < len(steps) and steps[j + 1] == steps[i] and steps[i].startswith("write"): j += 1
    out += sorted({i, (i + j) // 2, j})
    i = j + 1
  return out


def actions(step):
  k = step.split()[0]
  a = ["kill", "fail"]
  if k == "write": a += ["part_kill", "part_fail", "kill_after"]
  if k == "rename": a += ["kill_after", "fail_after"]
  if k in ("openw", "mkdir"): a += ["kill_after"]
  if k == "openr": a = ["fail", "kill"]
  return a


def pick_spec(env, rnd, h, w, who="a"):
  """A data operation as JSON."""
  t = rnd.choice(["append", "append", "upsert", "upsert", "delete", "delete", "insert", "load"])
  opts = rnd.choice([{}, TINY, dict(rg=1, fb=1, ar=60)])
  if t == "load":
    if w.profile["rec"]: t = "append"
    else:
      rows = h.rows(rnd.choice([1, 3, 5]), distinct=True)
      w.uniq += 1
      d = os.path.join(env.dir, "ext%d_%d" % (len(env.traces), w.uniq))
      loaders.write_parquet(w.codec, d, [rows[:1], rows[1:]])
      return dict(o="load_parquet", rows=rows, pattern=os.path.join(d, "*.parquet"), opts=None)
  if t == "append":
    return dict(o="append", rows=h.rows(rnd.choice([1, 3, 6])), opts=opts)
  if t == "delete":
    pool = h.pool(who)
    p = h.pg.pk_eq(rnd.choice(pool)) if pool and rnd.random() < .5 else h.pred(who, 1)
    return dict(o="delete", pred=p, opts=opts)
  return dict(o=t, rows=h.insert_rows(who, .8 if t == "upsert" else .1), opts=opts)


def client_for(x, branch, stale=None):
  c = Client(x.loc, x.profile)
  c.call(c="open", h="a")
  if branch != "main": c.call(c="ref", h="a", what="set_branch", n=branch)
  x.emit(ev="open", h="a")
  if branch != "main": x.emit(ev="set_branch", h="a", n=branch, out="ok", obs=x.obs())
  return c


def followup(env, rnd, x, h, keep, client, spec):
  """Later operations must work as if the operation had happened or not."""
  w = x
  w.h = {}
  w.open("b")
  o = w.obs()
  for i, _ in o["snaps"]:
    w.read("b", vid(i))
  for r in o["refs"]:
    w.read("b", vref(r["n"]))
  if keep and client is not None:
    # the surviving handle goes on: repeat the operation
    run_data(w, client, spec)
    r = client.call(c="read", h="a", ver=HEAD, pred=TRUE)
    w.emit(ev="read", h="a", ver=HEAD, cols=r["cols"], pred=TRUE, out=r["out"], rows=r["rows"], maxb=r["maxb"], b=16,
           what="read.rows")
  h2 = Hist(w, rnd, keys=5)
  w.uniq = 5000
  h2.note({"new": {"id": -1}})
  w.append("b", h2.rows(2), opts=rnd.choice([{}, TINY]))
  h2.model = {e["new"]["id"]: e["new"]["rows"] for e in w.ev if e.get("new", {}).get("id", -1) != -1}
  rnd.choice([h2.do_upsert, h2.do_delete, h2.do_ref])("b")
  o = w.obs()
  ids = [i for i, _ in o["snaps"]]
  w.diff("b", vid(0), vid(o["main"]))
  w.diff("b", vid(0), vid(ids[-1]))
  w.layout(ids[-1])


def run_data(w, client, spec):
  known = w._known_before_commit(set())
  r = client.call(c="data", h="a", spec=spec)
  ob = w.obs()
  o = "append" if spec["o"].startswith("load") else spec["o"]
  w.emit(ev="op", h="a", o=o, rows=spec.get("rows", []), pred=spec.get("pred", TRUE), out=r["out"], obs=ob,
         new=w.new_of(known, ob), upd=r["upd"])


def faulted(w, client, arm, **cmd):
  """Runs a command with a fault; returns (outcome, client alive)."""
  client.start(arm=arm, **cmd)
  r = client.wait()
  if r is None: return "dead", False
  if r.get("out") == "crashed": raise RuntimeError("client: " + r["trace"])
  return r["out"], True


@scenario("crash.data")
def crash_data(env, rnd, i):
  w = env.world(PROFILES[rnd.choice(ALL)])
  h = Hist(w, rnd, keys=rnd.choice([3, 5]))
  for _ in range(rnd.choice([1, 2, 4, 5])):
    h.step("a", PRE, [])
  branch = "main"
  if rnd.random() < .35:
    if not h.refs("branch"): w.ref("a", "add_branch", "bx")
    branch = h.refs("branch")[0]
    w.set_branch("a", branch)
    if rnd.random() < .6: h.step("a", dict(append=1, upsert=1), [])
  spec = pick_spec(env, rnd, h, w)
  # a run without fault: the steps of the operation
  x = clone(env, w, "dry")
  c = client_for(x, branch)
  known = x.known()
  r = c.call(c="data", h="a", spec=spec, arm={})
  ob = x.obs()
  o = "append" if spec["o"].startswith("load") else spec["o"]
  x.emit(ev="op", h="a", o=o, rows=spec.get("rows", []), pred=spec.get("pred", TRUE), out=r["out"], obs=ob,
         new=x.new_of(known, ob), upd=r["upd"])
  c.close()
  shutil.rmtree(x.loc)
  steps = r["steps"]
  pts = fault_points(steps)
  todo = [(k, a) for k in pts for a in actions(steps[k])]
  if env.tier == "quick":
    # metadata steps decide what becomes visible
    hot = [t for t in todo if "/metadata/" in steps[t[0]] and "_manifest_" not in steps[t[0]]
           or steps[t[0]].startswith("rename")]
    cold = [t for t in todo if t not in hot]
    todo = rnd.sample(hot, min(5, len(hot))) + rnd.sample(cold, min(4, len(cold)))
  elif len(todo) > 160:
    todo = rnd.sample(todo, 160)
  for k, a in todo:
    x = clone(env, w, "f%d_%s" % (k, a))
    c = client_for(x, branch)
    known = x.known()
    out, alive = faulted(x, c, dict(n=k + 1, action=a, errno=rnd.choice([5, 28])), c="data", h="a", spec=spec)
    ob = x.obs()
    x.emit(ev="crash", h="a", o=o, rows=spec.get("rows", []), pred=spec.get("pred", TRUE), out=out, obs=ob,
           new=x.new_of(known, ob), keep=alive, step=steps[k], fault=a)
    followup(env, rnd, x, h, alive, c if alive else None, spec)
    c.close()
    shutil.rmtree(x.loc)


@scenario("crash.ref")
def crash_ref(env, rnd, i):
  w = env.world(PROFILES[rnd.choice(["basic", "comp", "str"])])
  h = Hist(w, rnd, keys=4)
  for _ in range(rnd.choice([2, 4, 6])):
    h.step("a", dict(append=3, delete=1, ref=3), [])
  refs = {r["n"]: r["k"] for r in h.lasto()["refs"]}
  what = rnd.choice(["add_tag", "add_branch", "remove_tag", "remove_branch"])
  if what.startswith("remove"):
    names = [n for n, k in refs.items() if k == what[7:]] or ["nope"]
    n, id_ = rnd.choice(names), -1
  else:
    n = rnd.choice(["new", "new", "new", (list(refs) + ["n2"])[0]])
    id_ = rnd.choice(h.ids() + [-1]) if what == "add_tag" else -1
  x = clone(env, w, "dry")
  c = client_for(x, "main")
  r = c.call(c="ref", h="a", what=what, n=n, id=id_, arm={})
  x.emit(ev=what, h="a", n=n, id=id_, out=r["out"], obs=x.obs())
  c.close()
  shutil.rmtree(x.loc)
  steps = r["steps"]
  todo = [(k, a) for k in fault_points(steps) for a in actions(steps[k])]
  if env.tier == "quick": todo = rnd.sample(todo, min(8, len(todo)))
  for k, a in todo:
    x = clone(env, w, "f%d_%s" % (k, a))
    c = client_for(x, "main")
    out, alive = faulted(x, c, dict(n=k + 1, action=a), c="ref", h="a", what=what, n=n, id=id_)
    x.emit(ev="refcrash", h="a", o=what, n=n, id=id_, out=out, obs=x.obs(), keep=alive, step=steps[k], fault=a)
    if alive:
      r = c.call(c="ref", h="a", what="add_tag", n="after", id=-1)
      x.emit(ev="add_tag", h="a", n="after", id=-1, out=r["out"], obs=x.obs())
    followup(env, rnd, x, h, False, None, None)
    c.close()
    shutil.rmtree(x.loc)


@scenario("crash.read")
def crash_read(env, rnd, i):
  """A read or change feed that gets an I/O error fails or is right, and the
  handle goes on."""
  w = env.world(PROFILES[rnd.choice(ALL)])
  h = Hist(w, rnd, keys=5)
  for _ in range(rnd.choice([3, 5])):
    h.step("a", PRE, [])
  x = clone(env, w, "c")
  c = client_for(x, "main")
  end = vid(x.head())
  for what in ("read", "diff"):
    cmd = dict(c="read", h="a", ver=HEAD, pred=TRUE) if what == "read" else dict(c="diff", h="a", s=vid(0), e=end)
    r = c.call(arm={}, **cmd)
    steps = r["steps"]
    pts = list(range(len(steps)))
    if env.tier == "quick": pts = rnd.sample(pts, min(6, len(pts)))
    for k in pts:
      out, alive = faulted(x, c, dict(n=k + 1, action="fail"), **cmd)
      # an error is no claim; the next attempt must be right
      r = c.call(**cmd)
      if what == "read":
        x.emit(ev="read", h="a", ver=HEAD, cols=r["cols"], pred=TRUE, out=r["out"], rows=r["rows"], maxb=r["maxb"],
               b=16, what="read.rows")
      else:
        x.emit(ev="diff", h="a", s=vid(0), e=end, out=r["out"], items=r["items"])
      x.emit(ev="obs", obs=x.obs())
  c.close()


@scenario("crash.create")
def crash_create(env, rnd, i):
  """An interrupted creation leaves no dataset (or materialized view) or a
  complete, empty one."""
  from space import Dataset
  p = PROFILES[rnd.choice(ALL)]
  view = None
  if rnd.random() < .4:
    view = dict(src=World(env.dir, "source", p).loc, n=rnd.choice([1, 2, 3]))
  probe = World(env.dir, "probe", p, create=False)
  c = Client(probe.loc, p)
  r = c.call(c="create", view=view, arm={})
  c.close()
  steps = r["steps"]
  env.fact("crash.create.works", r["out"] == "ok")
  todo = [(k, a) for k in fault_points(steps) for a in actions(steps[k])]
  if env.tier == "quick": todo = rnd.sample(todo, min(8, len(todo)))
  for k, a in todo:
    w = World(env.dir, "c%d_%s" % (k, a), p, create=False)
    c = Client(w.loc, p)
    out, alive = faulted(w, c, dict(n=k + 1, action=a), c="create", view=view)
    c.close()
    try:
      ds = Dataset.load(w.loc)
      state = "there"
      ok = ds.local().read_all() is None and list(ds.storage.snapshot_ids) == [0] and ds.schema == w.codec.schema
      if view: ok = ok and w.view_chain() == list(range(view["n"]))
    except Exception as e:
      state, ok = type(e).__name__, type(e).__name__ in ("StorageNotFoundError", "FileNotFoundError")
    env.fact("crash.create.state", ok, state=state, step=steps[k], fault=a, out=out)
    env.fact("crash.create.lost", out != "ok" or state == "there")
    try:
      w.create(view)
      again = "ok"
    except Exception as e:
      again = type(e).__name__
    env.fact("crash.create.again", again == ("StorageExistError" if state == "there" else "ok"), again=again,
             state=state, step=steps[k], fault=a)
    w.open("b")
    h = Hist(w, rnd, keys=4)
    rows = h.rows(3)
    w.append("b", rows)
    env.fact("crash.create.usable", sorted(w.rows_at(None)) == sorted(rows) and
             (not view or w.view_chain() == list(range(view["n"]))))
