"""Random histories over real datasets, recorded as traces."""
import random
from codec import NULL, NANC, KINDS, XMIN, XMAX
from preds import PredGen, C, V, cmp_
from world import World, HEAD, vid, vref, TINY, TRUE

PROFILES = {
    "basic": dict(fields=[("id", "i64"), ("v", "i64")], pk=["id"], rec=[]),
    "str": dict(fields=[("k", "str"), ("v", "i64"), ("f", "f64")], pk=["k"], rec=[]),
    "comp": dict(fields=[("flag", "bool"), ("b", "str"), ("a", "i64"), ("v", "i64")], pk=["a", "b"], rec=[]),
    "rec": dict(fields=[("id", "i64"), ("img", "rec"), ("v", "str")], pk=["id"], rec=["img"]),
    "rec2": dict(fields=[("r1", "rec"), ("id", "i32"), ("s", "struct"), ("r2", "rec"), ("v", "f32")],
                 pk=["id"], rec=["r1", "r2"]),
    "nest": dict(fields=[("s", "struct"), ("l", "list"), ("id", "i64"), ("sl", "slist"), ("f", "f64")],
                 pk=["id"], rec=[]),
    "f64": dict(fields=[("x", "i64"), ("f", "f64"), ("g", "f64")], pk=["f"], rec=[]),
    "f32": dict(fields=[("f", "f32"), ("x", "i32")], pk=["f"], rec=[]),
    "i32": dict(fields=[("x", "i32"), ("i", "i32"), ("w", "rec")], pk=["i"], rec=["w"]),
    "bin": dict(fields=[("b", "bin"), ("v", "i64"), ("c", "bin")], pk=["b"], rec=[]),
    "long": dict(fields=[("v", "i64"), ("k", "lstr"), ("i", "i64")], pk=["k", "i"], rec=[]),
    "boolk": dict(fields=[("id", "i64"), ("t", "bool"), ("n", "i64")], pk=["t", "id"], rec=[]),
    "comp3": dict(fields=[("a", "i64"), ("b", "i64"), ("c", "i64"), ("v", "i64")], pk=["c", "a", "b"], rec=[]),
    "wide": dict(fields=[("c%d" % i, ["i64", "str", "f64", "i32"][i % 4]) for i in range(5)] + [("id", "i64")] +
                 [("c%d" % i, ["i64", "rec", "f32", "bool"][i % 4]) for i in range(5, 12)], pk=["id"], rec=["c5", "c9"]),
    "odd": dict(fields=[("../r", "rec"), ("__ROW_ID", "i64"), (".k", "i64"), ("", "rec"), ("[0]", "str"), ("_FILE", "struct"),
                        ("a b.c", "f64")], pk=[".k", "__ROW_ID"], rec=["../r", ""]),
    "odd1": dict(fields=[("[k]", "str"), ("./r", "rec"), ("__ROW_ID", "i64")], pk=["[k]"], rec=["./r"]),
}
NOREC = [p for p in PROFILES if not PROFILES[p]["rec"]]
ALL = list(PROFILES)
PROFILES["feat"] = dict(fields=[("id", "i64"), ("f", "feat"), ("v", "str")], pk=["id"], rec=["f"])
PROFILES["feat2"] = dict(fields=[("f", "feat"), ("id", "i64"), ("g", "feat"), ("w", "rec")], pk=["id"], rec=["f", "g", "w"])


class Hist:
  """A random history generator on one World."""

  def __init__(self, w, rnd, keys=8, nullkey=.06, null=.15, opts=None, maxrows=80, extremes=.06):
    self.w, self.r = w, rnd
    self.c = w.codec
    self.pg = PredGen(self.c, rnd)
    self.pg.add = rnd.random() < .4
    self.rn = random.Random("nan %s %s" % (w.tr, w.name))
    self.pg.nan = any(co.kind.name in ("f32", "f64") for co in self.c.coords) and self.rn.random() < .3
    self.keys, self.nullkey, self.null, self.maxrows = keys, nullkey, null, maxrows
    self.extremes = extremes
    self.opts = opts or [{}, TINY, {}, dict(rg=200, fb=600), dict(rg=1, fb=1, ar=60), dict(ar=1)]
    self.model = {0: []}      # version -> rows, as recorded
    self.keydom = {}
    for c in self.c.pk:
      d = self.dom(self.c.coords[c - 1])
      self.keydom[c] = sorted(rnd.sample(d, min(len(d), keys)))
    self.names = ["x", "y", "z", "t1", "b1"]
    if rnd.random() < .3:  # names that are easily mixed up
      self.names = rnd.choice([["x", "X", "x ", " x", "xx"], ["1", "0", "2", "01", "-1"], ["b", "b/c", "b.c", "b_c", "bc"],
                               ["Main", "main ", "mai", "mainx", "HEAD"], ["\u00e9", "e\u0301", "e", "\u65e5", "x\ny"],
                               ["a" * 300, "a" * 299, "a", '"', "\\"], ["None", "*", "?", "null", "tag"]])

  def dom(self, co):
    d = co.kind.domain
    return [x for x in d if abs(x) != XMAX] if self.pg.add else d

  # ---- rows
  def val(self, i, co):
    r = self.r
    if i in self.keydom:
      if self.pg.nan and co.kind.name in ("f32", "f64") and self.rn.random() < .15: return NANC
      return NULL if r.random() < self.nullkey else r.choice(self.keydom[i])
    if co.kind.name in ("rec", "feat"):
      self.w.uniq += 1
      return self.w.uniq
    if r.random() < self.null: return NULL
    if self.pg.nan and co.kind.name in ("f32", "f64") and self.rn.random() < .2: return NANC
    if co.field == "v" and co.kind.name == "i64":
      self.w.uniq += 1
      return self.w.uniq
    d = self.dom(co)
    v = r.choice(d)
    if v in (XMIN, XMAX) and r.random() > self.extremes * 4: v = d[len(d) // 2]
    return v

  def row(self):
    out = []
    valid = True
    for i, co in enumerate(self.c.coords, 1):
      if co.sub == "?":
        valid = self.r.random() > self.null
        out.append(1 if valid else NULL)
      elif co.top == "struct" and not valid:
        out.append(NULL)
      else:
        out.append(self.val(i, co))
    return out

  def rows(self, n, distinct=False):
    out, seen = [], set()
    for _ in range(n * 4):
      if len(out) >= n: break
      row = self.row()
      k = tuple(row[c - 1] for c in self.c.pk)
      if distinct and (k in seen): continue
      seen.add(k)
      out.append(row)
    return out

  def opt(self):
    return self.r.choice(self.opts)

  # ---- state known from the trace
  def note(self, e):
    if e.get("new", {}).get("id", -1) != -1:
      self.model[e["new"]["id"]] = e["new"]["rows"]
    return e

  def lasto(self):
    for e in reversed(self.w.ev):
      if "obs" in e: return e["obs"]
    return {"main": 0, "refs": [], "snaps": [[0, -1]]}

  def head(self, h):
    b = self.w.branch[h]
    o = self.lasto()
    if b == "main": return o["main"]
    for r in o["refs"]:
      if r["n"] == b: return r["id"]
    return -1

  def pool(self, h):
    return self.model.get(self.head(h), [])

  def refs(self, kind=None):
    return [r["n"] for r in self.lasto()["refs"] if kind in (None, r["k"])]

  def ids(self):
    return [i for i, _ in self.lasto()["snaps"]]

  def ver(self, bad=.08):
    r = self.r
    t = r.random()
    if t < bad:
      return r.choice([vid(max(self.ids()) + 1 + r.randint(0, 2)), vid(-1), vref("nope"), vref("main")])
    if t < .5 or not self.refs():
      return vid(r.choice(self.ids()))
    return vref(r.choice(self.refs()))

  # ---- actions
  def do_append(self, h, nested=None):
    r = self.r
    t = r.random()
    if t < .06: return self.note(self.w.append(h, [], how=r.choice(["append", "dict", "from"])))
    nb = r.choice([1, 1, 2, 3, 5])
    batches = [self.rows(r.choice([0, 1, 2, 3, 6])) for _ in range(nb)]
    rows = [x for b in batches for x in b]
    how = r.choice(["append", "from", "froms"])
    if nested is not None and how == "append": how = "from"
    return self.note(self.w.append(h, rows, opts=self.opt(), how=how, batches=batches, nested=nested))

  def do_big(self, h):
    """Many rows: roll-over of row groups and files, more than one read batch."""
    r = self.r
    n = r.choice([17, 40, 90, 130])
    nb = r.choice([1, 1, 2, 7])
    batches = [self.rows(n // nb) for _ in range(nb)]
    opts = r.choice([{}, dict(rg=300, fb=900), dict(rg=60, fb=2000), dict(rg=1000, fb=1000, ar=400), dict(rg=1, fb=400, ar=150)])
    return self.note(self.w.append(h, [x for b in batches for x in b], opts=opts,
                                   how=r.choice(["append", "from", "froms"]), batches=batches))

  def do_bad(self, h):
    """Operations with wrong arguments."""
    return self.w.bad(h, self.r)

  def insert_rows(self, h, hitp):
    r = self.r
    n = r.choice([0, 1, 1, 2, 3, 5])
    rows = self.rows(n, distinct=r.random() < .85)
    pool = self.pool(h)
    if pool and rows and r.random() < hitp:
      for x in r.sample(rows, r.randint(1, len(rows))):
        y = r.choice(pool)
        for c in self.c.pk: x[c - 1] = y[c - 1]
      if r.random() < .8:
        seen, out = set(), []
        for x in rows:
          k = tuple(x[c - 1] for c in self.c.pk)
          if k not in seen: out.append(x)
          seen.add(k)
        rows = out
    return rows

  def do_insert(self, h, nested=None):
    return self.note(self.w.insert(h, self.insert_rows(h, .3), opts=self.opt(), nested=nested))

  def do_upsert(self, h, nested=None):
    return self.note(self.w.upsert(h, self.insert_rows(h, .6), opts=self.opt(), nested=nested))

  def pred(self, h, depth=2):
    pool = self.pool(h)
    if pool and self.r.random() < .3:
      return self.pg.pk_eq(self.r.choice([p for p in pool]))
    return self.pg.pred(pool, depth)

  def do_delete(self, h):
    return self.note(self.w.delete(h, self.pred(h, self.r.choice([0, 1, 2])), opts=self.opt()))

  def do_read(self, h, pred=None, what="read.rows"):
    r = self.r
    ver = HEAD if r.random() < .4 else self.ver()
    p = pred or (TRUE if r.random() < .5 else self.pred(h))
    fields = None
    how = "read_all" if r.random() < .5 else "read"
    batch = r.choice([None, None, 1, 2, 3, 7, 1000])
    return self.w.read(h, ver, fields, p, batch, how, what=what)

  def do_project(self, h):
    r = self.r
    ver = HEAD if r.random() < .4 else self.ver()
    k = r.randint(1, len(self.c.names))
    fields = r.sample(self.c.names, k)
    if self.w.profile["rec"] and r.random() < .5:
      return self.w.read_refs(h, ver, fields if r.random() < .6 else None,
                              batch=r.choice([None, 1, 2, 5, 100]), how=r.choice(["read", "read_all"]),
                              pred=TRUE if r.random() < .7 else self.pred(h, 1))
    p = TRUE if r.random() < .7 else self.pred(h, 1)
    if p is not TRUE:
      # Filters on fields that are not selected are legal as well.
      pass
    return self.w.read(h, ver, fields, p, r.choice([None, 1, 2, 5, 100]),
                       r.choice(["read", "read_all"]), what="read.project")

  def do_diff(self, h, it=None):
    r = self.r
    s, e = self.ver(.04), self.ver(.04)
    if r.random() < .6:
      # likely an ancestor
      par = dict(self.lasto()["snaps"])
      i = r.choice(self.ids())
      e = vid(i)
      path = []
      while i in par and par[i] != -1:
        i = par[i]
        path.append(i)
      s = vid(r.choice(path)) if path else vid(0)
    b = r.choice([None, 1, 2, 5])
    return self.w.diff(h, s, e, b) if it is None else self.w.diff_open(h, it, s, e, b)

  def do_ref(self, h):
    r = self.r
    what = r.choice(["add_tag", "add_tag", "add_branch", "add_branch", "remove_tag", "remove_branch"])
    names = self.names
    if what.startswith("add"):
      n = r.choice(names) if r.random() < .9 else r.choice(["", "main"])
      i = -1
      if what == "add_tag" and r.random() < .6:
        i = r.choice(self.ids()) if r.random() < .85 else max(self.ids()) + r.randint(1, 3)
      return self.w.ref(h, what, n, i)
    pool = self.refs() if r.random() < .8 else names + ["main", ""]
    return self.w.ref(h, what, r.choice(pool or names))

  def do_branch(self, h):
    r = self.r
    pool = self.refs("branch") + ["main"] if r.random() < .85 else ["x", "y", "t1", "nope"] + self.refs("tag")
    return self.w.set_branch(h, r.choice(pool))

  def do_layout(self, h):
    return self.w.layout(self.r.choice(self.ids()[-3:] if self.r.random() < .7 else self.ids()))

  def do_nested(self, h, others, weights):
    """A transaction of h with operations of other handles in its middle."""
    r = self.r

    own = r.random() < .2

    def mid():
      for _ in range(r.choice([1, 1, 2])):
        o = r.choice(others)
        if own and r.random() < .5:  # the handle itself is switched to another branch
          self.do_branch(h)
          continue
        if self.w.branch[h] != "main" and r.random() < .3:
          # the branch is replaced by another reference of the same name
          n = self.w.branch[h]
          if self.w.branch[o] == n: self.w.set_branch(o, "main")
          self.w.ref(o, "remove_branch", n)
          if r.random() < .7: self.w.ref(o, "add_branch", n)
          else: self.w.ref(o, "add_tag", n, r.choice(self.ids()))
          continue
        self.step(o, {k: v for k, v in weights.items() if k != "nested"}, others=[])

    if own: return self.do_append(h, nested=mid)
    return r.choice([self.do_append, self.do_append, self.do_upsert, self.do_insert])(h, nested=mid)

  def do_inflight(self, h, others, weights):
    r = self.r
    it = "i%d" % len(self.w.ev)
    feed = r.random() < .3
    moving = [x for x in others + [h] if self.w.branch[x] != "main" and self.head(x) > 0] if feed and r.random() < .5 else []
    if moving:
      # a feed up to a branch that moves on
      m = r.choice(moving)
      s = vid(0)
      e = self.w.diff_open(h, it, s, vref(self.w.branch[m]), r.choice([None, 1, 2]))
      if e["out"] == "ok": self.do_append(m)
      if r.random() < .6: self.w.read(h, HEAD)
    else: e = self.do_diff(h, it) if feed else self.w.read_open(h, it, HEAD if r.random() < .6 else self.ver(),
                                                          TRUE if r.random() < .6 else self.pred(h, 1))
    if e["out"] != "ok": return
    for _ in range(r.randint(1, 3)):
      # the reader's own handle may be used in between as well
      self.step(r.choice(others + [h]), {k: v for k, v in weights.items() if k not in ("nested", "inflight")},
                others=[])
    self.w.diff_close(it) if feed else self.w.read_close(it)

  def step(self, h, weights, others):
    r = self.r
    names = list(weights)
    a = r.choices(names, [weights[n] for n in names])[0]
    if a in ("append", "big", "insert", "upsert") and len(self.pool(h)) > self.maxrows:
      a = "delete"
    if a in ("append", "big", "insert", "upsert", "delete", "bad") and self.head(h) == -1:
      a = "branch"
    if a in ("nested", "inflight"):
      if not others: a = "append"
      elif self.head(h) == -1: a = "branch"
      else: return getattr(self, "do_" + a)(h, others, weights)
    if a == "open":
      return self.w.open(h)
    if a == "layout":
      return self.do_layout(h)
    if a == "versions":
      return self.w.versions(h)
    if a == "files":
      return self.w.check_files()
    return getattr(self, "do_" + a)(h)

  def run(self, steps, weights, handles):
    for _ in range(steps):
      h = self.r.choice(handles)
      self.step(h, weights, [x for x in handles if x != h])
