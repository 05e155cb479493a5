"""Several processes work on one dataset, interleaved step by step.

Every client is a process whose file system steps can be paused; one runs at a
time.  A scheduler (random, or a behaviour of SpaceStore.tla) decides which one
runs up to which step, and which one is killed.  The steps between the check of
the head and the replacement of the entry point are not interleaved, except in
conc.window: that gap is a known finding."""
import os, re, shutil
from scen import scenario
from gen import Hist, PROFILES, ALL
from world import HEAD, TRUE, TINY, vid, vref
from procs import Client
from scen_crash import pick_spec
import tlc


class Proc:
  """A client process and the operation it is in the middle of."""

  def __init__(self, w, name):
    self.w, self.name, self.n = w, name, 0
    self.spawn()

  def spawn(self):
    self.c = Client(self.w.loc, self.w.profile)
    self.c.call(c="open", h="a")
    self.busy = None     # the command, while in progress
    self.pause = None
    self.w.branch[self.name] = "main"
    self.w.emit(ev="open", h=self.name)

  def set_branch(self, n):
    out = self.c.call(c="ref", h="a", what="set_branch", n=n)["out"]
    if out == "ok": self.w.branch[self.name] = n
    self.w.emit(ev="set_branch", h=self.name, n=n, out=out, obs=self.w.obs())

  def begin(self, what, arm, **f):
    """Starts an operation; f are its fields."""
    w = self.w
    self.busy, self.what, self.begun = f, what, False
    w.emit(ev="inv", h=self.name, what=what, obs=w.obs(), **{k: v for k, v in f.items() if k not in ("spec", "batch", "how")})
    cmd = dict(data=lambda: dict(c="data", spec=f["spec"]),
               ref=lambda: dict(c="ref", what=f["o"], n=f["n"], id=f["id"]),
               read=lambda: dict(c="read", ver=f["ver"], pred=f["pred"], batch=f["batch"], how=f["how"]),
               diff=lambda: dict(c="diff", s=f["s"], e=f["e"]))[what]()
    self.known = w._known_before_commit(set())
    self.c.start(h="a", arm=arm, **cmd)
    self.step()

  def resume(self, n=0):
    self.known = self.w._known_before_commit(set())
    self.c.resume(n)
    self.step()

  def in_window(self):
    """May the process have made the check after which nobody must interfere?"""
    limit = {"data": 2, "ref": 1}.get(self.what)
    return self.pause is not None and limit is not None and self.pause["eopens"] >= limit

  def step(self, kill=False):
    """Waits for the next pause or the result, and records what has happened."""
    w = self.w
    r = self.c.wait()
    if r is not None and r.get("out") == "crashed": raise RuntimeError("client: " + r["trace"])
    self.pause = r if r is not None and "pause" in r else None
    self.observe()
    if self.pause is not None:
      if self.pause["work"] > 0 and not self.begun:
        self.begun = True
        w.emit(ev="beg", h=self.name, obs=w.obs())
      return
    self.respond({"out": "dead"} if r is None else r)

  def observe(self):
    w = self.w
    ob = w.obs()
    last = next(e["obs"] for e in reversed(w.ev) if "obs" in e)
    key = lambda o: (o["main"], sorted((x["n"], x["k"], x["id"]) for x in o["refs"]), o["snaps"])
    if key(ob) != key(last):
      w.emit(ev="eff", h=self.name, o=self.busy.get("o", ""), obs=ob, new=w.new_of(self.known, ob))

  def respond(self, r):
    f = {k: r[k] for k in ("rows", "maxb", "cols", "items") if k in r}
    self.w.emit(ev="res", h=self.name, o=self.busy.get("o", self.what), out=r["out"], obs=self.w.obs(), **f)
    self.busy = self.pause = None

  def kill(self):
    """Kills the process before its next step; another one takes its place."""
    self.c.close()
    if self.busy is not None:
      self.observe()
      self.respond({"out": "dead"})
    self.spawn()

  def drain(self):
    while self.busy is not None:
      self.resume(0)


def data_fields(spec):
  return dict(o="append" if spec["o"].startswith("load") else spec["o"], rows=spec.get("rows", []),
              pred=spec.get("pred", TRUE), spec=spec)


def read_fields(ver, pred, batch=None, how="read"):
  return dict(ver=ver, pred=pred, batch=batch, how=how, b=batch or 16)


def start_random(env, rnd, h, p, weights):
  w = p.w
  n = rnd.choice([1, 2, 3, 5, 8, 13, 21, 34])
  arm = dict(kinds=rnd.choice(["all", "all", "mut", "openr"]), n=n, action="pause")
  names = list(weights)
  a = rnd.choices(names, [weights[x] for x in names])[0]
  if a == "data":
    if h.head(p.name) == -1: return p.set_branch("main")
    spec = pick_spec(env, rnd, h, w, p.name)
    p.begin("data", arm, **data_fields(spec))
  elif a == "ref":
    what = rnd.choice(["add_tag", "add_branch", "add_branch", "remove_tag", "remove_branch"])
    n, id_ = rnd.choice(["x", "y", "z"]), -1
    if what == "add_tag" and rnd.random() < .5: id_ = rnd.choice(h.ids())
    if what.startswith("remove") and h.refs(what[7:]): n = rnd.choice(h.refs(what[7:]))
    p.begin("ref", arm, o=what, n=n, id=id_)
  elif a == "read":
    p.begin("read", arm, **read_fields(HEAD if rnd.random() < .6 else h.ver(),
                                       TRUE if rnd.random() < .6 else h.pred(p.name, 1),
                                       rnd.choice([None, 1, 2, 5]), rnd.choice(["read", "read_all"])))
  elif a == "diff":
    o = h.lasto()
    end = rnd.choice([vref(r["n"]) for r in o["refs"]] + [vid(o["main"])] * 2)
    p.begin("diff", arm, s=vid(0) if rnd.random() < .6 else h.ver(), e=end)
  elif a == "branch":
    p.set_branch(rnd.choice(h.refs("branch") + ["main"]))


def finish(w, rnd, h):
  """Everything is there afterwards."""
  w.open("z")
  o = w.obs()
  for i, _ in o["snaps"]: w.read("z", vid(i))
  for r in o["refs"]: w.read("z", vref(r["n"]))
  w.diff("z", vid(0), vid(o["main"]))
  w.append("z", h.rows(1))
  w.layout(max(i for i, _ in w.obs()["snaps"]))
  w.check_files()


def random_schedule(name, weights, kill=.05):

  def run(env, rnd, i):
    w = env.world(PROFILES[rnd.choice(ALL)])
    h = Hist(w, rnd, keys=rnd.choice([2, 3, 5]), nullkey=.02, null=.1, extremes=.02)
    h.names = ["x", "y", "z"]
    for _ in range(rnd.choice([1, 2, 3])): h.step("a", dict(append=5, upsert=1, ref=1.5), [])
    w.check_files()
    ps = [Proc(w, x) for x in ["p", "q", "r"][:rnd.choice([2, 2, 3])]]
    try:
      for _ in range(26 if env.tier == "quick" else rnd.choice([26, 50, 90])):
        p = rnd.choice(ps)
        for e in w.ev: h.note(e)
        if p.busy is None:
          start_random(env, rnd, h, p, weights)
        elif rnd.random() < kill:
          p.kill()
        else:
          p.resume(rnd.choice([0, 0, 1, 2, 3, 5, 8, 13]))
        while p.busy is not None and p.in_window():
          # no other writer may run until this one is done, but it may die, and
          # readers may run
          t = rnd.random()
          q = rnd.choice(ps)
          if t < kill * 2: p.kill()
          elif t < .5 and q is not p and (q.busy is None or q.what in ("read", "diff")):
            if q.busy is None: start_random(env, rnd, h, q, dict(read=3, diff=1))
            else: q.resume(rnd.choice([0, 0, 1, 3, 8]))
          else: p.resume(rnd.choice([0, 0, 1, 2, 3]))
      for p in ps: p.drain()
      for e in w.ev: h.note(e)
      finish(w, rnd, h)
    finally:
      for p in ps: p.c.close()

  scenario("conc." + name)(run)


random_schedule("writers", dict(data=8, ref=2, branch=1, read=1))
random_schedule("readers", dict(data=5, read=7, diff=3, ref=1, branch=.7))
random_schedule("crash", dict(data=8, ref=3, branch=1, read=2), kill=.2)
random_schedule("refs", dict(data=4, ref=6, branch=2, read=1, diff=.5))


BEHAVIOURS = 6


def behaviours(env, depth):
  """Random behaviours of SpaceStore.tla: lists of the actions taken."""
  d = os.path.join(env.dir, "sim")
  os.makedirs(d)
  seed = env.rnd.randrange(1 << 30)
  rc, out = tlc.tlc("SpaceStore_sim", cfg="SpaceStore_sim.cfg", timeout=300,
                    extra=["-simulate", "file=%s/b,num=%d" % (d, BEHAVIOURS), "-depth", str(depth), "-seed", str(seed)])
  res = []
  for f in sorted(os.listdir(d)):
    acts = []
    for m in re.finditer(r"/\\ act = \[(.*?)\]\s*(?=/\\|\n\n|$)", open(os.path.join(d, f)).read(), re.S):
      a = {}
      for k, v in re.findall(r"(\w+) \|-> (\"[^\"]*\"|-?\d+|<<.*?>>)(?=, \w+ \|->|\s*$)", m.group(1), re.S):
        a[k] = v[1:-1] if v[0] == '"' else eval(v.replace("<<", "[").replace(">>", "]")) if v[0] == "<" else int(v)
      acts.append(a)
    if acts: res.append(acts[1:])
  if not res: raise tlc.TlcError(out[-3000:])
  shutil.rmtree(d)
  return res


@scenario("conc.mbt")
def mbt(env, rnd, i):
  """Behaviours that TLC generates from SpaceStore.tla, replayed step by step:
  a transaction begins when its process is about to look at the head again, and
  commits when it goes on from there."""
  for acts in behaviours(env, 18 if env.tier == "quick" else 26):
    w = env.world(PROFILES["basic"])
    ps = {x: Proc(w, x) for x in ("a", "b")}
    ids = [0]
    try:
      for a in acts:
        p = ps[a["c"]]
        op = a["op"]
        if op == "begin":
          if p.busy is not None: p.drain()
          rows = a["rows"]
          spec = dict(o=a["o"], rows=rows, opts=rnd.choice([{}, TINY]))
          if a["o"] == "delete":
            spec["pred"] = {"k": "cmp", "op": "equal", "l": {"t": "c", "x": 1}, "r": {"t": "v", "x": a["key"]}}
          p.begin("data", dict(kinds="openr", sub="entrypoint", n=2, action="pause"), **data_fields(spec))
        elif op == "commit": p.drain()
        elif op == "crash": p.kill()
        elif op == "read":
          p.begin("read", {}, **read_fields(HEAD, TRUE))
        elif op == "set_branch":
          p.set_branch(a["n"])
        else:
          id_ = a.get("id", -1)
          p.begin("ref", {}, o=op, n=a["n"], id=ids[id_] if 0 <= id_ < len(ids) else id_)
        ids = sorted(x for x, _ in w.obs()["snaps"])
      for p in ps.values(): p.drain()
      w.open("z")
      for x in ids: w.read("z", vid(x))
      w.diff("z", vid(0), vid(w.head()))
    finally:
      for p in ps.values(): p.c.close()
      shutil.rmtree(w.loc)


@scenario("conc.window")
def window(env, rnd, i):
  """Another process commits between the check of the head and the replacement
  of the entry point (known finding)."""
  w = env.world(PROFILES["basic"])
  h = Hist(w, rnd, keys=5)
  w.append("a", h.rows(2))
  ps = [Proc(w, "p"), Proc(w, "q")]
  try:
    spec = lambda: data_fields(dict(o="append", rows=h.rows(1), opts={}))
    ps[0].begin("data", dict(kinds="rename", sub="entrypoint", n=1, action="pause"), **spec())
    if i % 2: ps[1].begin("ref", {}, o="add_tag", n="t", id=-1)
    else: ps[1].begin("data", {}, **spec())
    ps[0].drain()
    finish(w, rnd, h)
  finally:
    for p in ps: p.c.close()
