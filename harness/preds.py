"""Random filters: the AST of Rows.tla and the Arrow expression it stands for."""
import pyarrow as pa
import pyarrow.compute as pc
from codec import NULL, XMAX, XMIN, NANC

OPS = ["gt", "gte", "lt", "lte", "equal", "not_equal"]
_F = {"gt": lambda a, b: a > b, "gte": lambda a, b: a >= b, "lt": lambda a, b: a < b,
      "lte": lambda a, b: a <= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b}


def field(codec, c):
  co = codec.coords[c - 1]
  return pc.field(co.path) if len(co.path) > 1 else pc.field(co.path[0])


def lit(codec, c, code):
  k = codec.coords[c - 1].kind
  return pc.scalar(pa.scalar(k.dec(code), k.type))


def expr(codec, e):
  k = e["k"]
  if k == "true": return pc.scalar(True)
  if k == "false": return pc.scalar(False)
  if k == "cmp":
    ref = e["c"] if "c" in e else e["l"]["x"] if e["l"]["t"] == "c" else e["r"]["x"]
    opd = lambda o: field(codec, o["x"]) if o["t"] == "c" else lit(codec, ref, o["x"])
    return _F[e["op"]](opd(e["l"]), opd(e["r"]))
  if k == "add":
    return _F[e["op"]](field(codec, e["c"]) + lit(codec, e["c"], e["d"]), lit(codec, e["c"], e["v"]))
  if k == "null": return field(codec, e["c"]).is_null()
  if k == "in":
    kd = codec.coords[e["c"] - 1].kind
    return field(codec, e["c"]).isin(pa.array([kd.dec(v) for v in e["vs"]], kd.type))
  if k == "and": return expr(codec, e["l"]) & expr(codec, e["r"])
  if k == "or": return expr(codec, e["l"]) | expr(codec, e["r"])
  if k == "not": return ~expr(codec, e["l"])
  raise ValueError(k)


def C(x): return {"t": "c", "x": x}
def V(x): return {"t": "v", "x": x}
def cmp_(op, l, r): return {"k": "cmp", "op": op, "l": l, "r": r}


class PredGen:
  """Generates filters over the index coordinates of a codec."""

  def __init__(self, codec, rnd, nan=False):
    self.c, self.r = codec, rnd
    self.add = False  # arithmetic in filters (no extreme integers then)
    self.ix = [i + 1 for i, co in enumerate(codec.coords)
               if co.top not in ("rec", "feat", "list", "slist") and co.sub != "?"]
    # Arrow 16 itself loses rows with NaN if a filter has != or a negation
    self.nan = nan

  def value(self, c, pool=None):
    d = self.c.coords[c - 1].kind.domain
    if pool and self.r.random() < .75:
      vs = sorted({row[c - 1] for row in pool} - {NULL, NANC})
      if vs:
        v = self.r.choice(vs)
        if self.r.random() < .3 and v + 1 in d: v += 1
        return v
    return self.r.choice(d)

  def pk_eq(self, row):
    e = None
    for c in self.c.pk:
      x = cmp_("equal", C(c), V(row[c - 1]))
      e = x if e is None else {"k": "and", "l": e, "r": x}
    return e

  def atom(self, pool, pkbias=.6):
    r = self.r
    c = r.choice(self.c.pk) if r.random() < pkbias else r.choice(self.ix)
    kind = self.c.coords[c - 1].kind
    t = r.random()
    if t < .10: return {"k": "null", "c": c}
    if t < .20:
      vs = {self.value(c, pool) for _ in range(r.randint(1, 4))}
      # Arrow 16 itself loses the rows of files with no other value than zero (-0.0 is not in [0.0])
      if kind.name in ("f32", "f64"): vs = vs - {0} or {2}
      return {"k": "in", "c": c, "vs": sorted(vs)}
    if t < .26 and kind.name == "i64" and self.add:
      return {"k": "add", "op": r.choice(OPS), "c": c, "d": r.randint(-3, 3),
              "v": r.randint(-3, 25)}
    if t < .32:
      same = [x for x in self.ix if x != c and self.c.coords[x - 1].kind.name == kind.name]
      if same: return cmp_(self.op(kind), C(c), C(r.choice(same)))
    op = self.op(kind)
    v = self.value(c, pool)
    return cmp_(op, C(c), V(v)) if r.random() < .8 else cmp_(op, V(v), C(c))

  def op(self, kind):
    return self.r.choice([o for o in OPS if o != "not_equal"] if self.nan and kind.name in ("f32", "f64") else OPS)

  def pred(self, pool=None, depth=2, pkbias=.6):
    t = self.r.random()
    if depth == 0 or t < .4: return self.atom(pool, pkbias)
    if t < .6: return {"k": "and", "l": self.pred(pool, depth - 1, pkbias), "r": self.pred(pool, depth - 1, pkbias)}
    if t < .83: return {"k": "or", "l": self.pred(pool, depth - 1, pkbias), "r": self.pred(pool, depth - 1, pkbias)}
    if t < .97 and not self.nan: return {"k": "not", "l": self.pred(pool, depth - 1, pkbias)}
    return {"k": self.r.choice(["true", "false"])}
