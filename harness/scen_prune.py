"""Which files filtered reads skip: enumerated filters over small files."""
import os
import pyarrow.parquet as pq
import pyarrow as pa
from scen import scenario
from codec import NULL, NANC, KINDS
from preds import PredGen, OPS, C, V, cmp_
import preds as P
from world import World, TRUE, exc, vid
import loaders

# Two key columns and another one, all of a type that is compared.
TYPES = ["i64", "f64", "str", "i32", "f32", "bin", "bool", "i64"]


def profile(t):
  return dict(fields=[("v", t), ("a", t), ("b", t), ("s", "struct")], pk=["b", "a"], rec=[])


class Enum:
  """The filters of a few operators over values of a small domain."""

  def __init__(self, w, rnd, dom, consts, nan):
    self.c, self.r, self.dom, self.consts = w.codec, rnd, dom, consts
    t = dict(w.profile["fields"])["a"]
    self.float = t in ("f32", "f64")
    self.nan = nan
    self.t = t
    f = self.c.of_field
    self.cols = [f["a"][0], f["b"][0], f["v"][0]]
    self.sub = f["s"][1]
    # Arrow itself loses rows with NaN if the filter is not_equal or a negation
    self.ops = [o for o in OPS if not (nan and o == "not_equal")]

  def atoms(self):
    out = []
    for o in self.ops:
      for c in self.cols:
        for v in self.consts:
          out += [cmp_(o, C(c), V(v)), cmp_(o, V(v), C(c))]
      for c in self.cols:
        for d in self.cols:
          out.append(cmp_(o, C(c), C(d)))
      out.append(cmp_(o, C(self.sub), V(5)))
    for c in self.cols:
      out.append({"k": "null", "c": c})
      vs = [v for v in self.consts if not (self.float and v == 0)]
      out += [{"k": "in", "c": c, "vs": [v]} for v in vs] + [{"k": "in", "c": c, "vs": sorted(vs)[:2]}]
    for o in OPS:  # constants only
      for a in self.dom[:2]:
        for b in self.dom[:2]:
          out.append(dict(cmp_(o, V(a), V(b)), c=self.cols[0]))
    return out + [{"k": "true"}, {"k": "false"}]

  def comb(self, atoms, depth):
    r = self.r
    if depth == 0 or r.random() < .2: return r.choice(atoms)
    t = r.random()
    if t < .2 and not self.nan: return {"k": "not", "l": self.comb(atoms, depth - 1)}
    return {"k": r.choice(["and", "or"]), "l": self.comb(atoms, depth - 1), "r": self.comb(atoms, depth - 1)}


@scenario("prune.enum")
def prune(env, rnd, i):
  t = TYPES[i % len(TYPES)]
  w = env.world(profile(t), handles=["a"])
  dom = KINDS[t].domain
  if t == "bool":
    vals, consts = [0, 1], [0, 1]
  else:
    at = rnd.randrange(1, len(dom) - 5)
    vals = dom[at:at + 3]
    consts = dom[at - 1:at + 4]
  nan = t in ("f64", "f32") and rnd.random() < .5

  def val():
    x = rnd.random()
    return NULL if x < .15 else NANC if nan and x < .3 else rnd.choice(vals)

  def row():
    st = [NULL, NULL, NULL] if rnd.random() < .2 else [1, rnd.choice([NULL, 4, 5, 6]), rnd.choice([NULL, 3])]
    return [val(), val(), val()] + st

  def rows():
    n = rnd.choice([1, 1, 1, 2, 2, 3, 5])
    rs = [row() for _ in range(n)]
    if rnd.random() < .3:  # a column with nothing but one value
      c, v = rnd.choice([0, 1, 2]), rnd.choice([NULL] + vals + ([NANC] if nan else []))
      for x in rs: x[c] = v
    if rnd.random() < .2:  # equal columns
      for x in rs: x[1] = x[2]
    return rs

  nfiles = rnd.choice([3, 6, 10])
  ds = w.h["a"]
  total, ext = [], 0
  for k in range(nfiles):
    rs = rows()
    if rnd.random() < .25:
      d = os.path.join(env.dir, "e%d" % k)
      loaders.write_parquet(w.codec, d, [rs], row_group=rnd.choice([None, 1, 2]),
                            write_statistics=rnd.random() < .6 or ["a"])
      ds.local().append_parquet(os.path.join(d, "*.parquet"))
      ext += 1
    else:
      ds.local().append(w.codec.table(rs))
    total += rs
  if rnd.random() < .3:  # files that were partly rewritten
    x = rnd.choice(vals)
    c = rnd.choice([1, 2])
    ds.local().delete(P.expr(w.codec, cmp_("equal", C(c + 1), V(x))))
    total = [r for r in total if r[c] != x]
  w.ev.clear()
  w.ev.append(dict(ev="reset", tr=w.tr if hasattr(w, "tr") else env.tname_last()))
  ds = w.fresh()
  st = ds.storage
  listed = [f.path for f in st.data_files().index_files]
  files = [w.codec.rows(pq.read_table(st.full_path(p))) for p in listed]
  w.emit(ev="files", files=files, rows=sorted(total), stats=stats(w, st, listed))
  e = Enum(w, rnd, vals, consts, nan)
  atoms = e.atoms()
  n = 150 if env.tier == "quick" else 700
  some = atoms if env.tier != "quick" else rnd.sample(atoms, min(len(atoms), 100))
  todo = some + [e.comb(atoms, 1) for _ in range(n // 2)] + [e.comb(atoms, rnd.choice([2, 2, 3])) for _ in range(n // 2)]
  reads = set(rnd.sample(range(len(todo)), len(todo) // (6 if env.tier == "quick" else 3)))
  for j, p in enumerate(todo):
    x = P.expr(w.codec, p)
    out, kept = "ok", []
    try:
      kept = [listed.index(f.path) + 1 if f.path in listed else 0 for f in st.data_files(x).index_files]
    except Exception as ex:
      out = exc(ex)
    w.emit(ev="prune", pred=p, out=out, kept=kept)
    if j in reads:
      out, rs = "ok", []
      try:
        rs = w.codec.rows(ds.local().read_all(filter_=x))
      except Exception as ex:
        out = exc(ex)
      w.emit(ev="pread", pred=p, out=out, rows=rs)
  # a deletion skips files, too
  p = rnd.choice(todo)
  out, rs = "ok", []
  try:
    ds.local().delete(P.expr(w.codec, p))
    rs = w.rows_at(None)
  except Exception as ex:
    out = exc(ex)
  w.emit(ev="pdelete", pred=p, out=out, rows=rs)


def stats(w, st, listed):
  """[column, known, min, max] of the keys of files with exact statistics."""
  from space.core.schema import constants as K
  from space.core.schema.utils import stats_field_name
  fid = {f.name: int(f.metadata[b"PARQUET:field_id"]) for f in st.physical_schema}
  out = {}
  for mt in st.index_manifest():
    for r in mt.to_pylist():
      p, xs = r[K.FILE_PATH_FIELD], []
      out[p] = xs
      if os.path.isabs(p): continue
      for k, c in zip(w.profile["pk"], w.codec.pk):
        s = r[stats_field_name(fid[k])]
        enc = w.codec.coords[c - 1].kind.enc
        lo, hi = (s[K.MIN_FIELD], s[K.MAX_FIELD]) if s else (None, None)
        known = lo is not None or hi is not None
        if any(isinstance(v, float) and v in (float("inf"), float("-inf")) for v in (lo, hi)): continue
        xs.append([c, int(known), enc(lo) if known else 0, enc(hi) if known else 0])
  return [out[p] for p in listed]
