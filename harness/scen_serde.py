"""Serializers of record fields with TFDS feature specifications."""
import os
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
import tensorflow_datasets as tfds
from tensorflow_datasets import features as f
from array_record.python import array_record_module as ar
from scen import scenario
from world import exc, file_options, TINY
from space import Dataset
from space.core.random_access import RandomAccessDataSource
from space.core.schema.types import TfFeatures

BAD = -1000


# ---- feature specifications with values: (description, a maker of values)
def scalar(r):
  k = r.choice(["bool", "uint8", "int8", "int16", "int32", "int64", "float32", "float64"])
  t = np.dtype(k).type
  if k == "bool": return t, lambda: r.random() < .5
  if k.startswith("float"): return t, lambda: r.choice([0.0, -0.0, 1.5, -2.25, 1e30, float("inf"), float("nan")])
  i = np.iinfo(t)
  return t, lambda: r.choice([0, 1, i.max, i.min, r.randint(0, 100)])


TEXTS = ["", "a", "b", "ab", "x\0y", "\u00fc\U0001f600", "a" * 300, " ", "\n"]


def tensor(r):
  t, v = scalar(r)
  shape = r.choice([(), (1,), (3,), (2, 2), (None,), (None, 2)])
  def make():
    s = [r.randint(0, 3) if x is None else x for x in shape]
    return np.array([v() for _ in range(int(np.prod(s, dtype=int)))], t).reshape(s)
  return f.Tensor(shape=shape, dtype=t), make


def feature(r, depth):
  k = r.choice(["scalar", "text", "tensor", "tensor", "label", "image", "bbox"] + (["dict", "seq", "seqdict", "seqseq"] if depth else []))
  if k == "scalar": return scalar(r)
  if k == "text": return f.Text(), lambda: r.choice(TEXTS)
  if k == "tensor": return tensor(r)
  if k == "label":
    n = r.randint(1, 9)
    return f.ClassLabel(num_classes=n), lambda: r.randrange(n)
  if k == "image":
    return (f.Image(shape=(None, None, 3), encoding_format="png"),
            lambda: np.array([r.randrange(256) for _ in range(12)], np.uint8).reshape(r.choice([(2, 2, 3), (1, 4, 3), (4, 1, 3)])))
  if k == "bbox":
    def box():
      a, b, c, d = [r.randint(0, 8) / 8 for _ in range(4)]
      return f.BBox(min(a, b), min(c, d), max(a, b), max(c, d))
    return f.BBoxFeature(), box
  if k == "dict": return fdict(r, depth - 1)
  if k == "seq":
    g, v = tensor(r) if r.random() < .5 else r.choice([scalar, lambda r: (f.Text(), lambda: r.choice(TEXTS))])(r)
    if isinstance(g, f.Tensor) and None in g.shape: g, v = np.int64, lambda: r.randint(-5, 5)
    return f.Sequence(g), lambda: [v() for _ in range(r.randint(0, 3))]
  if k == "seqdict":
    g, v = scalar(r)
    return f.Sequence({"p": g, "q": f.Text()}), lambda: [dict(p=v(), q=r.choice(TEXTS)) for _ in range(r.randint(0, 3))]
  return f.Sequence(f.Sequence(np.int64)), lambda: [[r.randint(-3, 3) for _ in range(r.randint(0, 2))] for _ in range(r.randint(0, 3))]


def fdict(r, depth):
  names = r.sample(["a", "b", "image", "label", "x y", "id", "\u00fc", "a.b"], r.randint(1, 3))
  parts = [(n,) + feature(r, depth) for n in names]
  return {n: g for n, g, _ in parts}, lambda: {n: v() for n, _, v in parts}


def alike(names):
  """Specifications that differ in their types only: their values may have equal bytes."""
  def make(r, depth):
    ts = [r.choice([np.bool_, np.uint8, np.int32, np.int64]) for _ in names]
    return dict(zip(names, ts)), lambda: {n: r.choice([0, 1]) for n in names}
  return make


def canon(v):
  """A hashable value, equal exactly for equal values."""
  if isinstance(v, dict): return ("dict",) + tuple(sorted((k, canon(x)) for k, x in v.items()))
  if isinstance(v, np.ndarray):
    if v.dtype == object: return ("obj", v.shape, tuple(canon(x) for x in v.ravel()))
    return ("nd", str(v.dtype), v.shape, v.tobytes())
  if isinstance(v, np.generic): return ("np", str(v.dtype), v.tobytes())
  if hasattr(v, "to_list"): return ("ragged", repr(v.to_list()), str(v.dtype), str(getattr(v, "shape", "")))
  if isinstance(v, (list, tuple)): return ("list",) + tuple(canon(x) for x in v)
  return (type(v).__name__, repr(v))


class Feat:
  """A field with a specification; a small pool of values and their codes."""

  def __init__(self, name, r, spec=fdict):
    self.name = name
    spec, make = spec(r, 1)
    self.ref, self.given = f.FeaturesDict(spec), f.FeaturesDict(spec)
    self.pool, self.code, self.value = [], {}, {}
    for _ in range(r.randint(2, 6)):
      v = make()
      b = self.ref.serialize_example(v)
      d = tfds.as_numpy(self.ref.deserialize_example(b))
      c = canon(d)
      if c in self.code: continue
      self.code[c] = len(self.pool)
      self.pool.append((v, b))
    self.kind, self.type = "feat", TfFeatures(self.given)

  def v(self, x):
    try: return ["v", self.code.get(canon(x), BAD)]
    except Exception: return ["v", BAD]

  def b(self, x):
    if not isinstance(x, bytes): return ["b", BAD]
    try: return ["b", self.code.get(canon(tfds.as_numpy(self.ref.deserialize_example(x))), BAD)]
    except Exception: return ["b", BAD]


class Plain:

  def __init__(self, name, kind, r):
    self.name, self.kind = name, kind
    self.type = dict(id=pa.int64(), s=pa.string(), bin=pa.binary())[kind]
    self.vals = dict(id=list(range(200)), s=["", "a", "b", None, "x\0"], bin=[b"", b"\0", b"\xff\xfe", b"a" * 50, b"\n\x05"])[kind]

  def v(self, x):
    for i, y in enumerate(self.vals):
      if y == x and type(y) is type(x): return ["v", i]
    return ["v", BAD]

  b = v


class SerdeHist:

  def __init__(self, env, r):
    self.env, self.r = env, r
    self.ev = []
    env.traces.append(self.ev)
    self.ev.append(dict(ev="reset", tr=env.tname_last()))
    self.loc = os.path.join(env.dir, "ds")
    names = r.choice([["f", "g", "h"], ["image", "feature", "x y"], ["z", "Z", "z2"], ["b", "\u00e4", "b.c"]])
    n = r.choice([1, 1, 2, 3])
    like = r.random() < .3
    self.feats = [Feat(x, r, alike(["a", "b"][:r.choice([1, 1, 2])]) if like else fdict) for x in names[:n]]
    self.plain = [Plain("s", "s", r)] * (r.random() < .5)
    self.recs = [Plain("bin", "bin", r)] * (r.random() < .4)
    rest = self.feats + self.plain + self.recs
    r.shuffle(rest)
    self.fields = [Plain("id", "id", r)] + rest
    self.by = {x.name: x for x in self.fields}
    self.next = 0
    self.handles = []
    self.live = []   # ids present

  def define(self):
    try:
      sch = pa.schema([pa.field(x.name, x.type) for x in self.fields])
      self.handles = [Dataset.create(self.loc, sch, ["id"], [x.name for x in self.feats + self.recs])]
      out = "ok"
    except Exception as e:
      out = exc(e)
      self.exc = e
    self.ev.append(dict(ev="define", fields=[x.name for x in self.fields], feats=[x.name for x in self.feats], out=out))

  def handle(self):
    if len(self.handles) < 4 and self.r.random() < .3: self.handles.append(Dataset.load(self.loc))
    return self.r.choice(self.handles)

  def codes(self, n, fields):
    r = self.r
    return {x.name: [r.randrange(len(x.pool if x.kind == "feat" else x.vals)) for _ in range(n)] for x in fields}

  def val(self, x, c): return x.pool[c][0] if x.kind == "feat" else x.vals[c]
  def byt(self, x, c): return x.pool[c][1] if x.kind == "feat" else x.vals[c]

  def cols(self, d, raw):
    """Columns of a table of real values (raw: where they are bytes)."""
    out = []
    for n, xs in d.items():
      x = self.by.get(n)
      out.append(dict(n=n, c=[["v", BAD] if x is None else x.b(y) if raw else x.v(y) for y in xs]))
    return out

  def serde(self):
    r = self.r
    fields = r.sample(self.fields, r.randint(1, len(self.fields)))
    n = r.choice([0, 1, 1, 2, 3, 7])
    cs = self.codes(n, fields)
    ser = self.handle().storage.serializer()
    d = r.choice(["ser", "deser"])
    arg = {x.name: [self.val(x, c) if d == "ser" else self.byt(x, c) for c in cs[x.name]] for x in fields}
    tag = lambda x: "b" if d == "deser" and x.kind == "feat" else "v"
    ev = dict(ev="serde", dir=d, got=[], out="ok",
              **{"in": [dict(n=x.name, c=[[tag(x), c] for c in cs[x.name]]) for x in fields]})
    try:
      res = ser.serialize(arg) if d == "ser" else ser.deserialize(arg)
      ev["got"] = self.cols(res, d == "ser")
    except Exception as e:
      ev["out"], self.exc = exc(e), e
      if os.environ.get("VERIF_DEBUG"): __import__("traceback").print_exc()
    self.ev.append(ev)

  def single(self):
    r = self.r
    x = r.choice(self.fields)
    c = self.codes(1, [x])[x.name][0]
    d = r.choice(["ser", "deser"])
    ev = dict(ev="single", field=x.name, dir=d, got=["v", BAD], out="ok",
              **{"in": ["b" if d == "deser" and x.kind == "feat" else "v", c]})
    try:
      fs = self.handle().storage.serializer().field_serializer(x.name)
      if fs is None: ev["out"] = "none"
      elif d == "ser": ev["got"] = x.b(fs.serialize(self.val(x, c)))
      else: ev["got"] = x.v(fs.deserialize(self.byt(x, c)))
    except Exception as e:
      ev["out"], self.exc = exc(e), e
      if os.environ.get("VERIF_DEBUG"): __import__("traceback").print_exc()
    self.ev.append(ev)

  def write(self):
    r = self.r
    n = r.choice([1, 2, 3, 5, 12])
    cs = self.codes(n, self.fields)
    cs["id"] = list(range(self.next, self.next + n))
    self.next += n
    h = self.handle()
    ev = dict(ev="write", out="ok", table=[dict(n=x.name, c=[["b" if x.kind == "feat" else "v", c] for c in cs[x.name]]) for x in self.fields])
    try:
      data = h.storage.serializer().serialize({x.name: [self.val(x, c) for c in cs[x.name]] for x in self.fields})
      run = h.local(file_options(**TINY)) if r.random() < .3 else h.local()
      untyped = any(all(y is None for y in data[x.name]) for x in self.plain)  # no type can be inferred from a dict
      if r.random() < .5 or untyped:
        t = pa.table({x.name: pa.array(data[x.name], x.type.storage_type if x.kind == "feat" else x.type) for x in self.fields})
        if r.random() < .5 and n > 1: run.append_from(lambda: iter([t.slice(0, n // 2), t.slice(n // 2)]))
        else: run.append(t)
      elif r.random() < .4: run.upsert(pa.table({x.name: pa.array(data[x.name], x.type.storage_type if x.kind == "feat" else x.type) for x in self.fields}))
      else: run.append(data)
      self.live += cs["id"]
    except Exception as e:
      ev["out"], self.exc = exc(e), e
      if os.environ.get("VERIF_DEBUG"): __import__("traceback").print_exc()
    self.ev.append(ev)

  def load(self):
    """A file of records, whose values are given to a function."""
    r = self.r
    if len(self.feats + self.recs) != 1: return
    x = self.feats[0]
    n = r.choice([1, 2, 4, 9])
    cs = self.codes(n, [x])[x.name]
    p = os.path.join(self.env.dir, "x%d.array_record" % self.next)
    w = ar.ArrayRecordWriter(p, options="group_size:%d" % r.choice([1, 3]))
    for c in cs: w.write(self.byt(x, c))
    w.close()
    seen, rows = [], []

    def index(rec):
      ok = list(rec) == [x.name] and len(rec[x.name]) == 1
      seen.append(x.v(rec[x.name][0]) if ok else ["v", BAD])
      row = dict(id=self.next + len(rows), **{y.name: y.vals[len(rows) % len(y.vals)] for y in self.plain})
      rows.append(row)
      return row

    out = "ok"
    try:
      self.handle().local().append_array_record(p, index)
    except Exception as e:
      out, self.exc = exc(e), e
    self.ev.append(dict(ev="seen", got=seen, **{"in": [["b", c] for c in cs]}))
    def cell(y, k): return ["b", cs[k]] if y is x else ["v", rows[k]["id"]] if y.kind == "id" else y.v(rows[k][y.name])
    self.ev.append(dict(ev="write", out=out, table=[dict(n=y.name, c=[cell(y, k) for k in range(min(n, len(rows)))]) for y in self.fields]))
    self.live += [q["id"] for q in rows]
    self.next += n

  def drop(self):
    if not self.live: return
    ids = self.r.sample(self.live, self.r.randint(1, min(3, len(self.live))))
    out = "ok"
    try:
      self.handle().local().delete(pc.field("id").isin(ids))
      self.live = [x for x in self.live if x not in ids]
    except Exception as e:
      out, self.exc = exc(e), e
    self.ev.append(dict(ev="drop", ids=[["v", x] for x in ids], out=out))

  def read(self):
    h = self.handle()
    ev = dict(ev="read", out="ok", table=[], got=[])
    try:
      t = h.local().read_all()
      d = {x.name: [] for x in self.fields} if t is None else {n: t.column(n).to_pylist() for n in t.column_names}
      order = [x.name for x in self.fields]
      ev["table"] = sorted(self.cols(d, True), key=lambda c: order.index(c["n"]))
      ev["got"] = sorted(self.cols(h.storage.serializer().deserialize(d), False), key=lambda c: order.index(c["n"]))
    except Exception as e:
      ev["out"], self.exc = exc(e), e
      if os.environ.get("VERIF_DEBUG"): __import__("traceback").print_exc()
    self.ev.append(ev)

  def access(self):
    r = self.r
    if not self.live: return
    fs = r.sample(self.feats, r.randint(1, len(self.feats)))
    ev = dict(ev="access", fields=[x.name for x in fs], items=[], out="ok")
    try:
      s = self.handle().storage
      src = RandomAccessDataSource({x.name: self.loc if r.random() < .5 else s for x in fs} if r.random() < .5 else {x.name: s for x in fs},
                                   deserialize=True, use_array_record_data_source=r.random() < .5) \
          if len(fs) == 1 else RandomAccessDataSource({x.name: s for x in fs}, deserialize=True)
      n = len(src)
      how = r.choice(["item", "list", "iter"])
      if how == "list":
        got = src[list(range(n))]
        items = got if len(fs) == 1 else [dict(zip(got, xs)) for xs in zip(*got.values())]
      else:
        items = [src[i] for i in range(n)] if how == "item" else list(src)
      if len(fs) == 1: items = [{fs[0].name: it} for it in items]
      ev["items"] = [[x.v(it[x.name]) for x in fs] for it in items]
    except Exception as e:
      ev["out"], self.exc = exc(e), e
      if os.environ.get("VERIF_DEBUG"): __import__("traceback").print_exc()
    self.ev.append(ev)


@scenario("serde.random", owner=["C24"])
def random_(env, rnd, i):
  h = SerdeHist(env, rnd)
  h.define()
  ops = dict(serde=5, single=3, write=4, load=3, drop=1, read=3, access=3)
  for _ in range(16 if env.tier == "quick" else rnd.choice([16, 30])):
    getattr(h, rnd.choices(list(ops), list(ops.values()))[0])()
  h.read()
