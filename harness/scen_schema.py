"""Creation and loading of datasets with arbitrary schemas."""
import json, os, subprocess, tempfile
import pyarrow as pa
from scen import scenario
from world import exc, file_options, TINY
import tlc

from space import Dataset
from space.core.schema.types import File, TfFeatures
from space.core.storage import Storage
from space.core.utils import errors

FLAT = {"bool": pa.bool_(), "i32": pa.int32(), "i64": pa.int64(), "fp32": pa.float32(), "fp64": pa.float64(),
        "string": pa.string(), "binary": pa.binary()}
BADT = {"i8": pa.int8(), "u32": pa.uint32(), "date": pa.date32(), "ts": pa.timestamp("us"),
        "map": pa.map_(pa.string(), pa.int64()), "fsl": pa.list_(pa.int64(), 2), "lstr": pa.large_string(),
        "lbin": pa.large_binary(), "fsb": pa.binary(4), "dec": pa.decimal128(10, 2), "null": pa.null(),
        "f16": pa.float16(), "dict": pa.dictionary(pa.int32(), pa.string()), "llist": pa.large_list(pa.int64())}
DIRS = {1: "", 2: "/some/dir", 3: "d\u00e4r \"x\""}
_feats = {}


def feats(p):
  if not _feats:
    import numpy as np
    from tensorflow_datasets import features as f
    _feats.update({1: f.FeaturesDict({"a": f.Tensor(shape=(), dtype=np.int64)}),
                   2: f.FeaturesDict({"b": f.Text(), "c": f.Tensor(shape=(None, 2), dtype=np.float32)}),
                   3: f.FeaturesDict({"s": f.Sequence({"t": f.Tensor(shape=(2,), dtype=np.int32)}), "l": f.ClassLabel(num_classes=3)})})
  return _feats[p]


def atype(t):
  k = t["k"]
  if k in FLAT: return FLAT[k]
  if k in BADT: return BADT[k]
  if k == "list": return pa.list_(atype(t["e"]))
  if k == "struct": return pa.struct([pa.field(f["n"], atype(f["t"])) for f in t["f"]])
  if k == "file": return File(DIRS[t["p"]])
  if k == "feat": return TfFeatures(feats(t["p"]))
  raise KeyError(k)


def schema(fs):
  return pa.schema([pa.field(f["n"], atype(f["t"])) for f in fs])


def kind_json(t):
  if isinstance(t, File):
    return dict(k="file", p={v: k for k, v in DIRS.items()}.get(t.full_path("x")[:-2] if t.full_path("x") != "x" else "", -1))
  if isinstance(t, TfFeatures):
    ser = t.__arrow_ext_serialize__()
    for p in (1, 2, 3):
      if TfFeatures(feats(p)).__arrow_ext_serialize__() == ser: return dict(k="feat", p=p)
    return dict(k="feat", p=-1)
  for k, a in FLAT.items():
    if t == a: return dict(k=k)
  if pa.types.is_list(t): return dict(k="list", e=kind_json(t.value_type))
  if pa.types.is_struct(t): return dict(k="struct", f=fields_json(t))
  return dict(k="?" + str(t))


def fields_json(fs):
  return [dict(n=f.name, t=kind_json(f.type)) for f in fs]


def ids(s):
  out = []
  for f in s:
    v = (f.metadata or {}).get(b"PARQUET:field_id")
    out.append(int(v) if v is not None else -1)
  return out


def stored_type(t):
  k = t.WhichOneof("kind")
  m = getattr(t, k)
  i = m.type_variation_reference
  if k == "list": return dict(k="list", i=i, e=stored_type(m.type))
  if k == "struct": return dict(k="struct", i=i, f=[stored_type(x) for x in m.types])
  if k == "user_defined":
    name, ser = m.type_parameters[0].string, m.type_parameters[1].string
    cls = {File.EXTENSION_NAME: File, TfFeatures.EXTENSION_NAME: TfFeatures}[name]
    return dict(kind_json(cls.__arrow_ext_deserialize__(None, ser)), i=i)
  return dict(k=k, i=i)


def shown(ds, loc):
  fs = Storage.load(loc).metadata.schema.fields
  return dict(f=fields_json(ds.schema), pk=ds.primary_keys, rec=ds.record_fields, ids=ids(ds.schema),
              stored=dict(types=[stored_type(t) for t in fs.struct.types], names=list(fs.names)))


def nfiles(loc):
  return sum(len(f) for _, _, f in os.walk(loc)) if os.path.exists(loc) else 0


class Loc:
  """One location; records what creations and loads do there."""

  def __init__(self, env, name):
    self.ev = []
    env.traces.append(self.ev)
    self.ev.append(dict(ev="reset", tr=env.tname_last()))
    self.loc = os.path.join(env.dir, name)

  def create(self, d, loader=Dataset.create):
    try:
      ds = loader(self.loc, schema(d["f"]), list(d["pk"]), list(d["rec"]))
      out, o = "ok", shown(ds, self.loc)
    except Exception as e:
      out, o, ds = exc(e).split(":")[0], {}, None
    self.ev.append(dict(ev="create", d=d, out=out, files=nfiles(self.loc), **o))
    return ds

  def load(self):
    try:
      ds = Dataset.load(self.loc)
      out, o = "ok", shown(ds, self.loc)
    except Exception as e:
      out, o, ds = exc(e).split(":")[0], {}, None
      if out == "user": out = "other"  # which kind of error is not specified
    self.ev.append(dict(ev="load", out=out, **o))
    return ds


def cases(wide):
  key = "cases%d" % wide
  if key not in _cases:
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    os.close(fd)
    try:
      rc, out = tlc.tlc("Schema_mc", "Schema_mcx.cfg" if wide else "Schema_mc.cfg", env={"CASES": path}, mem="2g")
      if rc: raise tlc.TlcError(out[-2000:])
      _cases[key] = [json.loads(l) for l in open(path)]
    finally:
      os.unlink(path)
  return _cases[key]


_cases = {}
AGAIN = dict(f=[dict(n="x", t=dict(k="i64"))], pk=["x"], rec=[])
PER = 40


@scenario("schema.enum", owner=["C17"])
def enum(env, rnd, i):
  """The behaviours of the model, one after the other."""
  for k, d in enumerate(cases(env.tier != "quick")[i * PER:(i + 1) * PER]):
    l = Loc(env, "d%d" % k)
    l.create(d)
    l.load()
    l.create(AGAIN)
    l.load()


NAMES = ["a", "b", "x", "y", "key", "A", "item", "element", "list", "_FILE", "_ROW_ID", "a.b", "a b", "\u00fc", "0", "names",
         "_STATS_f0", "_f0", "", "../r", "a/b", ".a", "__ROW_ID", "[0]", "\n"]


class Gen:

  def __init__(self, r, bad=0.0):
    self.r, self.bad = r, bad

  def type(self, depth):
    r = self.r
    if r.random() < self.bad: return dict(k=r.choice(list(BADT)))
    if depth and r.random() < 0.45:
      if r.random() < 0.5: return dict(k="list", e=self.type(depth - 1))
      return dict(k="struct", f=self.fields(depth - 1, r.randint(1, 3)))
    x = r.random()
    if x < 0.1: return dict(k="file", p=r.choice(list(DIRS)))
    if x < 0.2: return dict(k="feat", p=r.choice([1, 2, 3]))
    return dict(k=r.choice(list(FLAT)))

  def fields(self, depth, n):
    return [dict(n=x, t=self.type(depth)) for x in self.r.sample(NAMES, n)]

  def definition(self):
    r = self.r
    fs = self.fields(r.choice([0, 1, 2, 3, 4]), r.randint(1, 6))
    names = [f["n"] for f in fs]
    keyable = [f["n"] for f in fs if f["t"]["k"] not in ("list", "struct", "feat") and f["t"]["k"] not in BADT]
    recable = [f["n"] for f in fs if f["t"]["k"] in ("binary", "feat")]
    if r.random() < 0.75:
      if not keyable:
        fs.insert(r.randint(0, len(fs)), dict(n="id", t=dict(k=r.choice(list(FLAT)))))
        keyable = ["id"]
      pk = r.sample(keyable, r.randint(1, min(3, len(keyable))))
      rec = [x for x in recable if x not in pk and r.random() < 0.7]
      r.shuffle(rec)
    else:  # often wrong
      pk = r.sample(names + ["nope"], r.randint(0, min(2, len(names))))
      rec = r.sample(names + ["nope"], r.randint(0, min(2, len(names))))
    return dict(f=fs, pk=pk, rec=rec)


class Values:
  """Random values of a type."""

  def __init__(self, r): self.r = r

  def of(self, t, null=True):
    r, k = self.r, t["k"]
    if null and r.random() < 0.15: return None
    if k == "bool": return r.random() < 0.5
    if k == "i32": return r.choice([0, 1, -1, 2**31 - 1, -2**31])
    if k == "i64": return r.choice([0, 1, -5, 2**63 - 1, -2**63])
    if k in ("fp32", "fp64"): return r.choice([0.0, 1.5, -2.25, 1024.0])
    if k in ("string", "file"): return r.choice(["", "a", "\u00e9\u00df", "x" * 50])
    if k in ("binary", "feat"): return r.choice([b"", b"a", b"\x00\xff", b"y" * 40])
    if k == "list": return [self.of(t["e"]) for _ in range(r.randint(0, 3))]
    return {f["n"]: self.of(f["t"]) for f in t["f"]}


def storage(t):
  """The type of the values to hand over (without extension types)."""
  k = t["k"]
  if k == "list": return pa.list_(storage(t["e"]))
  if k == "struct": return pa.struct([pa.field(f["n"], storage(f["t"])) for f in t["f"]])
  return pa.string() if k == "file" else pa.binary() if k == "feat" else FLAT[k]


def js(x):
  if isinstance(x, bytes): return "b:" + x.hex()
  if isinstance(x, float): return "f:%r" % x
  return x


def lines(cols, names):
  n = len(cols[names[0]])
  return sorted(json.dumps([cols[c][i] for c in names], default=js, sort_keys=True) for i in range(n))


@scenario("schema.random", owner=["C17"])
def rand(env, rnd, i):
  g = Gen(rnd, bad=rnd.choice([0, 0, 0.05]))
  for k in range(6):
    d = g.definition()
    l = Loc(env, "d%d" % k)
    if rnd.random() < 0.1:  # nothing there yet
      l.load()
    if rnd.random() < 0.2: os.makedirs(l.loc)
    ds = l.create(d)
    if ds is None and rnd.random() < 0.5:
      d = g.definition()
      ds = l.create(d)
    if ds is None: continue
    l.load()
    # a TfFeatures field that is no record field accepts extension arrays only
    if rnd.random() < 0.7 and not any(has_feat(f["t"]) and f["n"] not in d["rec"] for f in d["f"]): rows(l, rnd, d, ds)
    for _ in range(rnd.randint(0, 2)):
      l.create(d if rnd.random() < 0.3 else g.definition())
      ds2 = l.load()
      if ds2 is not None: check_rows(l, d, ds2)


def has_feat(t):
  return t["k"] == "feat" or t["k"] == "list" and has_feat(t["e"]) or t["k"] == "struct" and any(has_feat(f["t"]) for f in t["f"])


def rows(l, r, d, ds):
  v = Values(r)
  names = [f["n"] for f in d["f"]]
  l.want = []
  for h in (ds, Dataset.load(l.loc)):
    n = r.randint(1, 4)
    cols = {f["n"]: [v.of(f["t"], f["n"] not in d["rec"]) for _ in range(n)] for f in d["f"]}
    t = pa.table([pa.array(cols[f["n"]], storage(f["t"])) for f in d["f"]], names=names)
    try:
      h.local(file_options(**r.choice([{}, TINY]))).append(t)
    except Exception as e:
      l.ev.append(dict(ev="rows", out=exc(e), got=[], want=[str(e)[:300]]))
      return
    l.want = sorted(l.want + lines(cols, names))
  check_rows(l, d, Dataset.load(l.loc))


def check_rows(l, d, ds):
  names = [f["n"] for f in d["f"]]
  if not hasattr(l, "want"): l.want = []
  try:
    t = ds.local().read_all()
    got = lines({n: t.column(n).to_pylist() for n in names}, names) if t is not None and t.num_rows else []
    out = "ok"
  except Exception as e:
    out, got = exc(e), [str(e)[:300]]
  l.ev.append(dict(ev="rows", out=out, got=got, want=l.want))
