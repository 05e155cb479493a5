"""Views of real datasets and materialized views of them."""
import os, random, shutil

import ray
import udfs
from scen import scenario
from codec import Codec, KINDS, NULL, XMIN, XMAX, BAD
from gen import Hist, PROFILES, ALL
from preds import PredGen
import preds as P
from world import World, TRUE, HEAD, TINY, exc, file_options, pyver, vid, vref

from space import RayOptions, Dataset
from space.core.options import ReadOptions
from space.core.storage import Storage
from space.core.views import MaterializedView
from space.core.transform.udfs import MapTransform, FilterTransform

PLAIN = ("i64", "i32", "f64", "f32", "str", "bin", "bool", "lstr", "rec")


def col(x): return {"k": "c", "x": x}
def const(x): return {"k": "v", "x": x}


class Chain:
  """A random chain of transforms: the view object and its description."""

  def __init__(self, rnd, codec, view, n=None, subset=True):
    self.r = rnd
    self.view, self.codec = view, codec
    self.names = list(codec.names)   # the fields that rows of the view have
    self.sch = list(codec.names)     # the fields of the schema of the view
    self.rec = list(codec.profile["rec"])
    self.pk = list(codec.profile["pk"])
    self.stages, self.desc = [], []
    self.full = True                 # rows have all fields of the schema of the view
    self.filters_only = True
    n = rnd.choice([0, 1, 1, 2, 2, 3, 4]) if n is None else n
    for i in range(n):
      if rnd.random() < .5: self.filter(subset and rnd.random() < .2)
      else: self.map()

  def domain(self, kind):
    d = [x for x in kind.domain if x not in (XMIN, XMAX)]
    return d[:12]

  def pred(self, codec, depth=2):
    return PredGen(codec, self.r).pred(None, depth)

  def sub(self, names):
    """The codec of some of the fields."""
    kinds = dict(self.codec.profile["fields"])
    return Codec(dict(fields=[(n, kinds[n]) for n in names], pk=[n for n in self.pk if n in names], rec=[]))

  def filter(self, subset):
    r = self.r
    names = [n for n in self.sch if n in self.names]
    if subset: names = [n for n in names if n in self.pk or r.random() < .6]
    explicit = subset or not self.full or r.random() < .4
    if explicit: r.shuffle(names)
    c = self.sub(names)
    st = dict(t="filter", cols=self.cols(names), p=self.pred(c), rows=[])
    tag = r.randrange(10**9)
    self.view = self.view.filter(udfs.filter_fn(st, c, names, tag), list(names) if explicit else None)
    self.stages.append(st)
    self.desc.append(dict(t="filter", fields=names, batch=-1, tag=tag))
    self.full &= not subset
    self.names, self.codec = names, c

  def cols(self, names):
    return self.codec.cols_of(names)

  def exprs(self, c, kind):
    """An expression of a kind over the input codec c."""
    r = self.r
    same = [i for i, co in enumerate(c.coords, 1) if co.kind.name == kind.name]
    t = r.random()
    if same and t < .5: return col(r.choice(same))
    if kind.name == "rec": return const(r.randint(1, 400))
    ix = [i for i, co in enumerate(c.coords, 1) if co.kind.name != "rec"]
    d = self.domain(kind)
    if t < .75:
      i = r.choice(ix)
      dd = self.domain(c.coords[i - 1].kind)
      tab = [[x, r.choice(d)] for x in r.sample(dd, min(len(dd), 6))]
      if r.random() < .5: tab.append([NULL, r.choice(d)])
      return dict(k="t", x=i, tab=tab, d=r.choice(d + [NULL]))
    if t < .9: return dict(k="if", p=self.pred(c, 1), a=const(r.choice(d)), b=const(r.choice(d + [NULL])))
    return const(r.choice(d))

  def map(self):
    r = self.r
    self.filters_only = False
    kinds = dict(self.codec.profile["fields"])
    flat = [n for n in self.sch if n in self.names and kinds[n] in PLAIN]
    names = [n for n in flat if n in self.pk or r.random() < .7]
    explicit = len(names) < len(self.sch) or not self.full or r.random() < .5
    if explicit: r.shuffle(names)
    c = self.sub(names)
    out = [(n, kinds[n]) for n in self.pk]
    for j in range(r.randint(1, 4)):
      keep_ = [n for n in names if n not in dict(out)]
      k = r.choice(PLAIN[:-1]) if r.random() < .8 else "rec"
      n = "m%d_%d" % (len(self.stages), j)
      if keep_ and r.random() < .4:  # the name of an input field, of the same or another type
        n = r.choice(keep_)
        if r.random() < .6: k = kinds[n]
      out.append((n, k))
    again = r.random() < .2 and set(self.pk) <= set(names)
    if again: out = [(n, kinds[n]) for n in names]  # the function can be applied to its own output
    r.shuffle(out)
    rec = [n for n, k in out if k == "rec" and r.random() < .7]
    cout = Codec(dict(fields=out, pk=self.pk, rec=rec))
    shape = r.choice([1, 1, 1, 1, 2, 3])
    st = dict(t="map", cols=self.cols(names), p=TRUE, rows=[
        dict(p=TRUE if shape == 1 or r.random() < .4 else self.pred(c, 1),
             e=[col(c.of_field[n][0]) if n in self.pk else self.exprs(c, KINDS[k]) for n, k in out])
        for _ in range(max(1, shape - 1))])
    kin = [(n, KINDS[kinds[n]]) for n in names]
    batches = [r.choice([None, None, 1, 2, 5]) for _ in range(r.choice([2, 3]) if again else 1)]
    tag, fn = r.randrange(10**9), None
    for i, batch in enumerate(batches):
      if i:
        st = dict(st, cols=cout.cols_of(names))
        explicit, rec = True, [n for n, k in out if k == "rec" and r.random() < .7]
      if not (again and fn): fn = udfs.map_fn(st, kin, cout, tag, batches[0] if len(batches) == 1 else None)
      self.view = self.view.map_batches(fn, cout.schema, list(names) if explicit else None, list(rec) or (None if batch else []), batch)
      self.stages.append(st)
      self.desc.append(dict(t="map", fields=names, batch=-1 if batch is None else batch, tag=tag))
    if again: cout = Codec(dict(fields=out, pk=self.pk, rec=rec))
    self.names, self.codec, self.rec, self.full = [n for n, _ in out], cout, rec, True
    self.sch = list(self.names)


def describe(v):
  out = []
  while not isinstance(v, Dataset):
    out.append(dict(t="map" if isinstance(v, MapTransform) else "filter" if isinstance(v, FilterTransform) else "?",
                    fields=list(v.input_fields), batch=-1 if v.udf.batch_size is None else v.udf.batch_size,
                    tag=getattr(v.udf.fn, "tag", -1)))
    v = v.input_
  return out[::-1]


def meta(o, view):
  # an empty sequence has another type than one of strings for TLC
  return dict(schema=[[f.name, str(f.type)] for f in o.schema], pk=["pk"] + list(o.primary_keys),
              rec=["rec"] + sorted(o.record_fields), vschema=[[f.name, str(f.type)] for f in view.schema],
              vpk=["pk"] + list(view.primary_keys), vrec=["rec"] + sorted(view.record_fields))


class Views:
  """A source, a view of it and, if mv, a materialized view."""

  def __init__(self, env, rnd, clean=True, mv=True, profile=None, chain=None):
    self.env, self.r = env, rnd
    env.fact("setup", True)
    self.ev = env.traces[-1]
    self.sev = []
    self.mat = mv
    p = profile or rnd.choice(ALL)
    self.w = World(env.dir, "src", PROFILES[p], handles=["a", "b"], ev=self.sev)
    self.h = Hist(self.w, rnd, keys=rnd.choice([3, 5, 8]), null=rnd.choice([0, .2]),
                  nullkey=0 if clean else rnd.choice([0, .1]), extremes=0)
    self.h.pg.nan = False
    self.clean = clean
    self.at = 0
    self.order = random.Random(rnd.random())
    self.before = 0
    if rnd.random() < .3: self.source(rnd.randint(1, 3))
    while True:
      self.chain = chain(self) if chain else Chain(rnd, self.w.codec, self.w.h["a"])
      if self.chain.full or not mv: break
    self.codec = self.chain.codec
    # the handle of the view stays where it is when "a" is opened again
    self.src, self.src_branch = self.w.h["a"], self.w.branch["a"]
    self.views = [(self.chain.view, lambda: self.src_branch)]
    self.mvs, self.loc, self.seen = [], os.path.join(env.dir, "mv"), {0}
    out, m = "ok", dict(schema=[], pk=[], rec=[], vschema=[], vpk=[], vrec=[])
    try:
      if mv:
        self.mvs.append(self.chain.view.materialize(self.loc))
        m = meta(self.mvs[0].dataset, self.mvs[0].view)
    except Exception as e:
      self.last_exc, out = e, exc(e)
    if self.chain.full: m["schema"] = [[n, str(self.codec.schema.field(n).type)] for n in self.chain.sch]
    m["pk"], m["rec"] = ["pk"] + self.w.profile["pk"], ["rec"] + sorted(self.chain.rec)
    self.emit("define", ss=self.chain.stages, pk=self.w.codec.pk, vpk=self.codec.cols_of(self.w.profile["pk"]),
              desc=self.chain.desc, out=out, meta=m)

  def emit(self, ev_, **k):
    e = dict(ev=ev_, **k)
    self.ev.append(e)
    return e

  def ray_options(self):
    return RayOptions(max_parallelism=self.r.choice([1, 1, 2, 3, 8]), enable_row_range_block=self.r.random() < .5)

  def opts(self):
    o = self.r.choice([None, None, TINY, dict(rg=200, fb=600, ar=100)])
    return file_options(**o) if o else None

  # ---- the source
  WEIGHTS = dict(append=4, insert=3, upsert=5, delete=5, ref=1.5, branch=1.2, big=.3, open=.2)

  def source(self, n=1):
    for _ in range(n):
      h = self.r.choice(["a", "b"])
      if self.clean and (self.r.random() < .45 and self.h.head(h) != -1):
        self.unique_append(h)
      else:
        wt = {k: v for k, v in self.WEIGHTS.items() if not (self.clean and k in ("append", "big"))}
        self.h.step(h, wt, [])
        if hasattr(self, "src") and self.w.h["a"] is self.src: self.src_branch = self.w.branch["a"]
    self.sync()

  def unique_append(self, h):
    pk = self.w.codec.pk
    key = lambda x: tuple(x[c - 1] for c in pk)
    old = {key(x) for x in self.h.pool(h)}
    rows = [x for x in self.h.rows(self.r.randint(1, 6), distinct=True) if key(x) not in old]
    k = len(rows) // 2
    self.h.note(self.w.append(h, rows, opts=self.h.opt(), how=self.r.choice(["append", "from", "froms"]),
                              batches=[rows[:k], rows[k:]]))

  def sync(self):
    new, out = [], "ok"
    for e in self.sev[self.at:]:
      if e.get("new", {}).get("id", -1) != -1:
        n = e["new"]
        par = dict(map(tuple, e["obs"]["snaps"]))[n["id"]]
        new.append(dict(id=n["id"], par=par, rows=n["rows"], add=n["add"], **{"del": n["del"]}))
        if n["err"] or n["log"]: out = n["err"] or n["log"]
    self.at = len(self.sev)
    o = self.w.obs()
    self.emit("src", new=new, main=o["main"], refs=o["refs"], out=out)

  def ids(self): return self.h.ids()

  def ver(self, bad=.06):
    return self.h.ver(bad)

  # ---- views
  def vread(self):
    v, br = self.r.choice(self.views)
    br = br()
    if br != "main" and br not in self.h.refs(): return
    ver = HEAD if self.r.random() < .5 else self.ver()
    pred = TRUE
    kw = {}
    if self.chain.filters_only and self.r.random() < .3:
      pred = P.PredGen(self.codec, self.r).pred(None, 1)
      kw["filter_"] = P.expr(self.codec, pred)
    rows, out = [], "ok"
    try:
      ro, bs = self.ray_options(), self.r.choice([None, 1, 3])
      if self.h.w.rt.random() < .2:  # as a Ray data set, which does not reload the source
        st = list(v.sources.values())[0].storage
        st.reload()
        o = ReadOptions(kw.get("filter_"), None, None if ver is HEAD else st.version_to_snapshot_id(pyver(ver)), False, bs)
        d = v.ray_dataset(read_options=o) if bs is None and self.h.w.rt.random() < .3 else v.ray_dataset(ro, o)
        ts = d.iter_batches(batch_size=None, batch_format="pyarrow", drop_last=False)
      else:
        ts = v.ray(ro).read(version=pyver(ver), batch_size=bs, **kw)
      for t in ts:
        if t.num_rows: rows += self.codec.rows(t, self.chain.names)
    except Exception as e:
      self.last_exc, out = e, exc(e)
    return self.emit("vread", ver=ver, br=br, rows=rows, out=out, pred=pred)

  def vdiff(self):
    v, _ = self.r.choice(self.views)
    if self.r.random() < .6:
      par = dict(self.h.lasto()["snaps"])
      i = self.r.choice(self.ids())
      e, path = vid(i), []
      while i in par and par[i] != -1:
        i = par[i]
        path.append(i)
      s = vid(self.r.choice(path)) if path else vid(0)
    else:
      s, e = self.ver(), self.ver()
    items, out = [], "ok"
    try:
      for c in v.ray(self.ray_options()).diff(pyver(s), pyver(e), self.r.choice([None, 1, 2])):
        d = "delete" in str(c.type_).lower()
        items.append(dict(id=c.snapshot_id, t="d" if d else "a",
                          rows=self.w.pkrows(c.data) if d else self.codec.rows(c.data, self.chain.names)))
    except Exception as x:
      self.last_exc, out, items = x, exc(x), []
    return self.emit("vdiff", s=s, e=e, items=items, out=out)

  # ---- materialized views
  def obs(self):
    m = Storage.load(self.loc).metadata
    snaps = sorted([i, s.parent_snapshot_id if s.HasField("parent_snapshot_id") else -1] for i, s in m.snapshots.items())
    vers = []
    ds = MaterializedView.load(self.loc).local() if self.r.random() < .3 else Dataset.load(self.loc).local()
    for i, _ in snaps:
      if i in self.seen and self.r.random() < .8: continue
      self.seen.add(i)
      try:
        rows = self.codec.rows(ds.read_all(version=i))
      except Exception as e:
        self.last_exc, rows = e, [[BAD]]
      vers.append(dict(id=i, rows=rows))
    return dict(main=m.current_snapshot_id, snaps=snaps, vers=vers)

  def refresh(self, to=None, mode="plain", mid=None):
    r = self.r
    if to is None: to = HEAD if r.random() < .6 else self.ver()
    if mode == "outer": to = HEAD
    mv = r.choice(self.mvs)
    out, states, upd, hit = "ok", [], [], 0
    box = []

    def hook():
      if not box:
        box.append(1)
        if mode == "boom": raise ZeroDivisionError("user function failed")
        udfs.HOOK = None
        mid()

    n = r.choice([0, 0, 1, 2])  # rows the function gets through

    def late():
      nonlocal n
      if n: n -= 1
      elif mode == "boom": box.append(1), (_ for _ in ()).throw(ZeroDivisionError("user function failed"))
      else: hook()

    try:
      if mode != "plain": udfs.HOOK = late
      res = mv.ray(self.ray_options(), self.opts()).refresh(
          **({} if to is HEAD else dict(target_version=pyver(to))), **r.choice([{}, dict(batch_size=r.choice([1, 2, 10]))]))
      self.last_res = res
      states = [x.state.name.lower() for x in res]
      upd = [x.storage_statistics_update.num_rows if x.storage_statistics_update is not None else 0 for x in res]
      if states and states[-1] == "failed": out = "failed"
    except Exception as e:
      self.last_exc, out = e, exc(e)
    finally:
      udfs.HOOK = None
    return self.emit("refresh", to=to, mode=mode, out=out, states=states, upd=upd, hit=len(box) and 1, obs=self.obs())

  def boom(self):
    self.refresh(mode="boom")

  def outer(self):
    """A refresh during which another one runs."""

    def mid():
      self.emit("refresh", to=HEAD, mode="part", out="ok", states=[], upd=[], hit=0, obs=self.obs())
      if self.r.random() < .4: self.source(1)
      self.refresh(HEAD)

    self.refresh(mode="outer", mid=mid)

  def mread(self):
    r = self.r
    mv = r.choice(self.mvs)
    ver = HEAD if r.random() < .4 else vid(r.choice(sorted(self.seen) + self.ids()))
    kw = {}
    names, pred = self.chain.names, TRUE
    if r.random() < .4:
      names = r.sample(names, r.randint(1, len(names)))
      kw["fields"] = list(names)
    if r.random() < .3:
      pred = P.PredGen(self.codec, r).pred(None, 1)
      kw["filter_"] = P.expr(self.codec, pred)
    rows, out = [], "ok"
    how = r.choice(["ray", "ray", "local", "dataset"])
    run = mv.ray(self.ray_options()) if how == "ray" else mv.local() if how == "local" else mv.dataset.local()
    try:
      for t in run.read(version=pyver(ver), batch_size=r.choice([None, 2]), **kw): rows += self.codec.rows(t, names)
    except Exception as e:
      self.last_exc, out = e, exc(e)
    return self.emit("mread", ver=ver, cols=[] if names is self.chain.names else self.codec.cols_of(names), pred=pred, rows=rows,
                     out=out)

  def load(self):
    if self.r.random() < .2:  # to another place
      new = self.loc + "_"
      shutil.copytree(self.loc, new)
      shutil.rmtree(self.loc)
      self.loc, self.mvs, self.views = new, [], self.views[:1]
    out, d, m = "ok", [], dict(schema=[], pk=[], rec=[], vschema=[], vpk=[], vrec=[])
    try:
      mv = MaterializedView.load(self.loc)
      d, m = describe(mv.view), meta(mv.dataset, mv.view)
      self.mvs.append(mv)
      self.views.append((mv.view, lambda: "main"))
    except Exception as e:
      self.last_exc, out = e, exc(e)
    return self.emit("loaded", out=out, desc=d, meta=m)

  def run(self, steps, weights):
    names = list(weights)
    self.source(self.r.randint(1, 3))
    for _ in range(steps):
      a = self.r.choices(names, [weights[n] for n in names])[0]
      if not self.mat and a in ("refresh", "mread", "load", "boom", "outer"): a = "vread"
      getattr(self, a)()
    if self.mat: self.refresh(HEAD)


def make(name, weights, clean, mv, owner):

  def run(env, rnd, i):
    order = random.Random(rnd.random())
    ray.SHIM_TASK_ORDER = rnd.choice([None, lambda n: order.sample(range(n), n)])
    try:
      v = Views(env, rnd, clean=rnd.random() < clean, mv=rnd.random() < mv)
      v.run(14 if env.tier == "quick" else rnd.choice([14, 30]), weights)
    finally:
      ray.SHIM_TASK_ORDER = None

  scenario("view." + name, owner=owner)(run)


make("refresh", dict(source=7, refresh=6, mread=2, vread=1, load=.7, boom=.4, outer=.4), .8, 1, ["C20"])
make("read", dict(source=5, vread=5, vdiff=4, refresh=.7, load=.4), .7, .4, ["C20"])
make("load", dict(source=4, load=4, refresh=3, vread=3, vdiff=1.5, mread=1), .8, 1, ["C23"])


@scenario("view.filter_fields", owner=["C20"])
def filter_fields(env, rnd, i):
  """A materialized view over a filter that reads some of the fields."""

  class One(Chain):
    full = property(lambda self: True, lambda self, v: None)

    def __init__(self, rnd, codec, view):
      super().__init__(rnd, codec, view, n=0)
      self.pick(i)

    def pick(self, i):
      names = self.pk + [n for n in self.names if n not in self.pk][:i]
      c = self.sub(names)
      st = dict(t="filter", cols=self.cols(names), p=TRUE, rows=[])
      self.view = self.view.filter(udfs.filter_fn(st, c, names, 1), list(names))
      self.stages.append(st)
      self.desc.append(dict(t="filter", fields=names, batch=-1, tag=1))
      self.names, self.codec = names, c
      self.sch = list(names)

  v = Views(env, rnd, profile="str", chain=lambda self: One(self.r, self.w.codec, self.w.h["a"]))
  v.w.append("a", v.h.rows(4, distinct=True))
  v.sync()
  v.refresh(HEAD)
