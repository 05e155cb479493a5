"""Catalogs: listing, opening and creating datasets and materialized views."""
import os, shutil
import pyarrow as pa
from scen import scenario
from codec import Codec
from gen import PROFILES, Hist
from world import exc, file_options, TINY
import preds as P
from space import DirCatalog, Dataset
from space.core.utils import errors
from space.core.views import MaterializedView

SCHEMAS = ["basic", "comp3", "rec", "str", "nest", "rec2"]
COL2 = {"basic": "v", "comp3": "b"}   # integer column 2, usable for views
NAMES = [["x", "y", "z", "w"], ["a", "A", "aa", "a "], ["ds", "ds2", "ds.bak", ".ds"], ["metadata", "data", "m v", "\u00fc"],
         ["entrypoint.txtpb", "1", "-", "%20"], ["x" * 200, "x", "x*", "[x]"]]


class Cat:

  def __init__(self, env, rnd):
    self.env, self.r = env, rnd
    self.ev = []
    env.traces.append(self.ev)
    self.ev.append(dict(ev="reset", tr=env.tname_last()))
    self.root = os.path.join(env.dir, "root")
    os.makedirs(self.root)
    self.cats = rnd.choice([["c"], ["c", "d"], ["c", "cc"]])
    # one catalog may be a folder next to, or within, the other one
    self.loc = {c: os.path.join(self.root, c) for c in self.cats}
    for p in self.loc.values(): os.makedirs(p)
    self.objs = {c: [DirCatalog(p + rnd.choice(["", "", "/"])) for _ in range(2)] for c, p in self.loc.items()}
    self.names = rnd.choice(NAMES)
    self.codecs = [Codec(PROFILES[s]) for s in SCHEMAS]
    self.handles = {}   # full name -> handles
    self.meta = {}      # full name -> (kind, schema number, threshold, source)
    self.dirty = {}     # view -> its source has changed since the last refresh
    self.uniq = 0

  def cat(self, c): return self.r.choice(self.objs[c])
  def full(self):
    return self.r.choice(self.cats), self.r.choice(self.names)

  # ---- observation
  def what(self, o):
    """kind, schema number, rows, source and threshold of an opened object."""
    if isinstance(o, MaterializedView):
      kind, ds = "view", o.dataset
    else:
      kind, ds = "dataset", o
    out = dict(kind=kind, sch=-1, rows=[], src=["", ""], thr=0)
    for i, (s, c) in enumerate(zip(SCHEMAS, self.codecs), 1):
      p = PROFILES[s]
      if ds.schema == c.create_schema and ds.primary_keys == p["pk"] and ds.record_fields == p["rec"]:
        out["sch"] = i
        out["rows"] = c.rows(o.local().read_all())
    if kind == "view":
      v = o.view
      locs = list(v.sources)
      for c, p in self.loc.items():
        if len(locs) == 1 and os.path.dirname(os.path.normpath(locs[0])) == p:
          out["src"] = [c, os.path.basename(os.path.normpath(locs[0]))]
      hits = [t for t in range(-1, 50) if v.udf.fn({COL2[SCHEMAS[out["sch"] - 1]]: t})] if out["sch"] > 0 else []
      out["thr"] = min(hits) - 1 if hits else 99
    return out

  def obs(self):
    out = []
    for c in self.cats:
      cat = DirCatalog(self.loc[c])
      for n in self.names:
        try:
          out.append(dict(c=c, n=n, **self.what(cat.dataset(n))))
        except errors.StorageNotFoundError:
          pass
        except Exception as e:
          out.append(dict(c=c, n=n, kind=exc(e), sch=-1, rows=[], src=["", ""], thr=0))
    return out

  def emit(self, **e):
    self.ev.append(e)

  def mutate(self, ev, fn, **k):
    out, r = "ok", None
    try:
      r = fn()
    except Exception as e:
      self.last_exc = e
      out = exc(e)
    self.emit(ev=ev, out=out, obs=self.obs(), **k)
    return r if out == "ok" else None

  # ---- actions
  def create(self):
    c, n = self.full()
    s = self.r.randint(1, len(SCHEMAS)) if self.r.random() < .4 else 1
    p = PROFILES[SCHEMAS[s - 1]]
    r = self.mutate("create", lambda: self.cat(c).create_dataset(n, self.codecs[s - 1].create_schema, list(p["pk"]), list(p["rec"])),
                    c=c, n=n, sch=s)
    if r is not None:
      self.handles[(c, n)] = [r]
      self.meta[(c, n)] = ("dataset", s, 0, None)

  def datasets(self, kind=None):
    return [k for k, m in self.meta.items() if kind in (None, m[0])]

  def materialize(self):
    srcs = [k for k in self.datasets("dataset") if SCHEMAS[self.meta[k][1] - 1] in COL2]
    if not srcs: return self.create()
    src = self.r.choice(srcs)
    c, n = self.full()
    thr = self.r.randint(0, 20)
    f = COL2[SCHEMAS[self.meta[src][1] - 1]]
    view = self.r.choice(self.handles[src]).filter(lambda row: row[f] > thr)
    r = self.mutate("materialize", lambda: self.cat(c).materialize(n, view), c=c, n=n, src=list(src), thr=thr)
    if r is not None:
      self.handles[(c, n)] = [r]
      self.meta[(c, n)] = ("view", self.meta[src][1], thr, src)
      self.dirty[(c, n)] = False
      # everything in the source is new to the view
      self.dirty[(c, n)] = any(e["ev"] in ("append", "delete") and (e["c"], e["n"]) == src and e.get("chg") for e in self.ev)

  def row(self, s):
    c = self.codecs[s - 1]
    out, valid = [], True
    for co in c.coords:
      if co.sub == "?":
        valid = True
        out.append(1)
      elif co.kind.name in ("rec",) or co.field == "id":
        self.uniq += 1
        out.append(self.uniq % 20 if co.kind.name != "rec" else self.uniq)
      else:
        d = [x for x in co.kind.domain if -100 < x < 1000]
        out.append(self.r.choice(d))
    return out

  def write(self):
    ks = self.datasets("dataset")
    if not ks: return self.create()
    k = self.r.choice(ks)
    s = self.meta[k][1]
    ds = self.r.choice(self.handles[k])
    cd = self.codecs[s - 1]
    if self.r.random() < .7:
      rows = [self.row(s) for _ in range(self.r.randint(1, 3))]
      self.mutate("append", lambda: ds.local(file_options(**self.r.choice([{}, TINY]))).append(cd.table(rows)), c=k[0], n=k[1],
                  rows=rows, chg=True)
      changed = True
    else:
      pg = P.PredGen(cd, self.r)
      before = self.latest(k)
      pred = pg.pred(before, 1)
      self.mutate("delete", lambda: ds.local().delete(P.expr(cd, pred)), c=k[0], n=k[1], pred=pred, chg=False)
      changed = self.latest(k) != before
      self.ev[-1]["chg"] = changed
    for v, m in self.meta.items():
      if m[3] == k and changed: self.dirty[v] = True

  def latest(self, k):
    for e in reversed(self.ev):
      if "obs" in e:
        for o in e["obs"]:
          if (o["c"], o["n"]) == k: return sorted(o["rows"])
        return []
    return []

  def refresh(self):
    ks = [k for k in self.datasets("view") if self.dirty[k]]
    if not ks: return self.write()
    k = self.r.choice(ks)
    self.mutate("refresh", lambda: list(self.r.choice(self.handles[k]).ray().refresh()), c=k[0], n=k[1])
    self.dirty[k] = False

  def open(self):
    c, n = self.full() if self.r.random() < .9 else (self.r.choice(self.cats), self.r.choice(["nope", "", "file.txt", "folder"]))
    e = dict(c=c, n=n, kind="", sch=0, rows=[], src=["", ""], thr=0, out="ok")
    try:
      o = self.cat(c).dataset(n)
      e.update(self.what(o))
      self.handles.setdefault((c, n), []).append(o)
    except errors.StorageNotFoundError:
      e["out"] = "notfound"
    except Exception as x:
      self.last_exc = x
      e["out"] = exc(x)
    self.emit(ev="open", **e)

  def list(self):
    c = self.r.choice(self.cats)
    items, out = [], "ok"
    try:
      for i in self.cat(c).datasets():
        ok = 0
        if os.path.normpath(i.location) == os.path.join(self.loc[c], i.name):
          # the location opens the same data
          a = Dataset.load(i.location).local().read_all()
          b = self.cat(c).dataset(i.name).local().read_all()
          ok = int((a is None and b is None) or (a is not None and b is not None and a.equals(b)))
        items.append([i.name, ok])
    except Exception as x:
      self.last_exc = x
      out = exc(x)
    self.emit(ev="list", c=c, items=items, out=out)

  def junk(self):
    """Files and folders that are no datasets."""
    d = self.loc[self.r.choice(self.cats)]
    k = self.r.choice(["file", "folder", "meta", "data", "link", "deep"])
    n = os.path.join(d, "junk%d" % len(self.ev))
    if k == "file":
      n = os.path.join(d, "file.txt")
      with open(n, "w") as f: f.write("x")
    elif k == "folder": os.makedirs(os.path.join(d, "folder"), exist_ok=True)
    elif k == "meta": os.makedirs(os.path.join(n, "metadata"))
    elif k == "data":
      os.makedirs(os.path.join(n, "data"))
      with open(os.path.join(n, "entrypoint.txtpb"), "w") as f: f.write("x")
    elif k == "link": os.symlink(os.path.join(d, "nowhere"), n)
    else: os.makedirs(os.path.join(n, "x", "metadata"))
    self.emit(ev="junk", kind=k, obs=self.obs())

  def bad(self):
    """A creation that is rejected leaves nothing behind."""
    c, n = self.full()
    if (c, n) in self.meta: return self.list()
    cd = self.codecs[0]
    case = self.r.choice(["nokey", "unknown", "rec"])
    kw = dict(nokey=([], []), unknown=(["nope"], []), rec=(["id"], ["v"]))[case]
    try:
      self.cat(c).create_dataset(n, cd.create_schema, *kw)
      out = "ok"
    except Exception as e:
      out = exc(e)
    self.emit(ev="fact", what="C18.rejected", ok=out == "user")
    self.emit(ev="junk", kind="rejected", obs=self.obs())


@scenario("catalog.random", owner=["C18"])
def random_(env, rnd, i):
  c = Cat(env, rnd)
  acts = dict(create=5, materialize=3, write=6, refresh=3, open=5, list=4, junk=1.5, bad=.7)
  names = list(acts)
  c.create()
  for _ in range(18 if env.tier == "quick" else rnd.choice([18, 40])):
    getattr(c, rnd.choices(names, [acts[n] for n in names])[0])()
  for _ in c.cats * 2: c.list()
  for k in list(c.meta): c.open()
