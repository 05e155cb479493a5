"""Joins of two real datasets, and of views of them."""
import pyarrow as pa

from scen import scenario
from codec import Codec, KINDS, NULL, XMIN, XMAX
from gen import Hist
from preds import C, V, cmp_
from world import World, TRUE, exc

from space import RayOptions
from space.core.options import JoinOptions, Range
from space.core.schema.arrow import record_address_types

from udfs import keep
import random, ray

KEYS = ["i64", "i64", "i32", "str", "bin", "f64", "f32", "bool", "lstr"]
VALS = ["i64", "str", "f64", "bool", "rec", "i32", "f32", "bin"]


def profile(rnd, key, p):
  fields = [("k", key)]
  for j in range(rnd.randint(1, 4)):
    fields.append(("%s%d" % (p, j), rnd.choice(VALS)))
  if all(f != "k" and t == "rec" for f, t in fields[1:]): fields.append((p + "x", "i64"))
  pk = ["k"]
  if rnd.random() < .3:  # a part of the key
    other = [f for f, t in fields[1:] if t in ("i64", "str", "i32")]
    if other: pk.insert(rnd.randint(0, 1), other[0])
  if rnd.random() < .25:  # takes no part in the join
    fields.append((p + "n", rnd.choice(["list", "struct"])))
  rnd.shuffle(fields)
  return dict(fields=fields, pk=pk, rec=[f for f, t in fields if t == "rec"])


OPS = {"gt": lambda a, b: a > b, "lte": lambda a, b: a <= b, "not_equal": lambda a, b: a != b}


def row_filter(field, op, value):
  f = OPS[op]
  return lambda row: row[field] is not None and f(row[field], value)


class Side:

  def __init__(self, env, name, prof, dom, rnd):
    self.ev, self.name = [], name
    self.w = World(env.dir, name, prof, handles=["a"], ev=self.ev)
    self.h = Hist(self.w, rnd, keys=8, nullkey=rnd.choice([0, .1, .3]), null=.15)
    self.h.pg.nan = False
    self.h.keydom[self.w.codec.of_field["k"][0]] = dom
    if rnd.random() < .5: self.h.opts = [dict(rg=1, fb=1)]
    self.codec = self.w.codec
    self.old = self.w.fresh()  # a handle that writes nothing

  def view(self, rnd, names, refs):
    """A view of the side: (view, filter, whether its schema holds all fields)."""
    ds = rnd.choice([self.w.fresh, lambda: self.w.h["a"], lambda: self.old])()
    kinds = dict(self.w.profile["fields"])
    plain = [n for n in names if kinds[n] in ("i64", "i32", "bool", "str")]
    t = rnd.random()
    if t < .5: return ds, TRUE, names
    if t < .65 and not refs:
      # fields in another order, or only some of them
      x = [n for n in names if n in self.w.profile["pk"] or rnd.random() < .8]
      if len(x) == len(self.w.profile["pk"]): x = list(names)
      rnd.shuffle(x)
      out = pa.schema([self.codec.schema.field(n) for n in x])
      f = list(x)
      rnd.shuffle(f)
      return ds.map_batches(keep(x, [out.field(n).type for n in x]), out, f,
                            [n for n in x if n in self.w.profile["rec"]], rnd.choice([None, 1, 3])), TRUE, x
    if not plain: return ds, TRUE, names
    f = rnd.choice(plain)
    c = self.codec.of_field[f][0]
    op = rnd.choice(list(OPS))
    vs = [v for v in self.codec.coords[c - 1].kind.domain if v not in (XMIN, XMAX)]
    v = rnd.choice(vs)
    return ds.filter(row_filter(f, op, self.codec.coords[c - 1].kind.dec(v))), cmp_(op, C(c), V(v)), names


def partition(rnd, kind):
  n = rnd.choice([1, 1, 2, 3, 6])

  def fn(r):
    cuts = sorted({kind.enc(r.min_)} | set(rnd.choices([c for c in kind.domain], k=n)))
    cuts = [c for c in cuts if kind.enc(r.min_) <= c <= kind.enc(r.max_)]
    if rnd.random() < .7: cuts = cuts[1:]
    vals = [r.min_] + [kind.dec(c) for c in cuts]
    out = [Range(vals[i], vals[i + 1], False) for i in range(len(vals) - 1)] + [Range(vals[-1], r.max_, True)]
    if rnd.random() < .2: rnd.shuffle(out)
    return out

  return fn


@scenario("join.random", owner=["C22"])
def random_joins(env, rnd, i):
  key = rnd.choice(KEYS)
  kind = KINDS[key]
  d = [x for x in kind.domain if x not in (XMIN, XMAX) or rnd.random() < .3]
  nested = random.Random(rnd.random())
  env.fact("setup", True)
  ev = env.traces[-1]
  doms = [sorted(rnd.sample(d, min(len(d), rnd.choice([2, 4, 8])))) for _ in (0, 1)]
  if rnd.random() < .8: doms[1] = sorted(set(doms[1][:2]) | set(doms[0][1:]))
  s = {n: Side(env, n, profile(rnd, key, n[0]), dom, rnd) for n, dom in zip(("left", "right"), doms)}
  order = random.Random(rnd.random())
  ray.SHIM_TASK_ORDER = rnd.choice([None, lambda n: order.sample(range(n), n)])
  try:
    for step in range(4 if env.tier == "quick" else 8):
      for x in s.values():
        k = 0 if step == 0 and rnd.random() < .25 else rnd.randint(1, 4)
        for _ in range(k): x.h.step("a", dict(append=8, upsert=3, delete=2, big=.3), [])
      for n, x in s.items():
        try:
          t = x.w.fresh().local().read_all()
          rows, out = x.codec.rows(t), "ok"
        except Exception as e:
          rows, out = [], exc(e)
        ev.append(dict(ev="side", s=n, rows=rows, out=out))
      for _ in range(3): join(env, rnd, ev, s, kind)
  finally:
    ray.SHIM_TASK_ORDER = None


def join(env, rnd, ev, s, kind):
  sel, args, refs, cols, views, preds = {}, {}, {}, {}, {}, {}
  for n, x in s.items():
    flat = [f for f, t in x.w.profile["fields"] if t not in ("list", "struct")]
    nestd = len(flat) < len(x.w.profile["fields"])
    refs[n] = rnd.random() < .4
    views[n], preds[n], flat = x.view(rnd, flat, refs[n])
    rest = [f for f in flat if f != "k"]
    if not nestd and rnd.random() < .4: sel[n], args[n] = flat, None
    else:
      sel[n] = rnd.sample(rest, rnd.randint(1, len(rest)))
      args[n] = list(sel[n])
      if rnd.random() < .5: args[n].insert(rnd.randint(0, len(args[n])), "k")
    cols[n] = [f for f in sel[n] if f != "k"]
  l, r = s["left"].codec, s["right"].codec
  joint = Codec(dict(fields=[("k", dict(s["left"].w.profile["fields"])["k"])] +
                     [(f, dict(x.w.profile["fields"])[f]) for n, x in s.items() for f in cols[n]], pk=["k"],
                     rec=[]))
  want = []
  for f in joint.names:
    rec = any(f in cols[n] and f in x.w.profile["rec"] and refs[n] for n, x in s.items())
    want.append([f, str(pa.struct(record_address_types()) if rec else joint.schema.field(f).type)])
  rows, out, schema = [], "ok", want
  try:
    v = views["left"].join(views["right"], ["k"], args["left"], args["right"], refs["left"], refs["right"])
    schema = [[f.name, str(f.type)] for f in v.schema]
    pf = partition(rnd, kind) if rnd.random() < .6 else None
    ro = RayOptions(max_parallelism=rnd.choice([1, 2, 4]), enable_row_range_block=rnd.random() < .5)
    if rnd.random() < .2:  # as a Ray data set, which does not reload the inputs
      for n in s:
        for d in views[n].sources.values(): d.storage.reload()
      kw = {} if pf is None else dict(join_options=JoinOptions(partition_fn=pf))
      bs = [b for b in v.ray_dataset(ray_options=ro, **kw).iter_batches(batch_size=None, batch_format="pyarrow", drop_last=False)
            if b.num_rows > 0]
      t = pa.concat_tables(bs) if bs else None
    else:
      t = v.ray(ro).read_all(join_options=JoinOptions(partition_fn=pf))
    for n, x in s.items():
      if refs[n] and t is not None: t = x.w.resolve(x.w.fresh(), t)
    rows = joint.rows(t)
  except Exception as e:
    env.last_exc = e
    out = exc(e)
  ev.append(dict(ev="join", kl=l.of_field["k"][0], kr=r.of_field["k"][0],
                 cl=l.cols_of(["k"] + cols["left"]), cr=r.cols_of(cols["right"]), lp=preds["left"], rp=preds["right"],
                 out=out, rows=rows, schema=schema, want=want))


@scenario("join.refuse", owner=["C22"])
def refused(env, rnd, i):
  """Joins that are not supported are refused."""
  env.fact("setup", True)
  ev = env.traces[-1]
  a = Side(env, "left", dict(fields=[("k", "i64"), ("a", "i64")], pk=["k"], rec=[]), [1, 2], rnd)
  b = Side(env, "right", dict(fields=[("k", "i64"), ("b", "i64")], pk=["k"], rec=[]), [1, 2], rnd)
  x, y = a.w.h["a"], b.w.h["a"]
  for t in (a, b): t.h.do_append("a")
  v = x.join(y, ["k"])
  for what, fn in [("two keys", lambda: x.join(y, ["k", "a"])), ("no keys", lambda: x.join(y, [])),
                   ("no key field", lambda: x.join(y, ["a"])), ("key on one side", lambda: x.join(y, ["b"])),
                   ("no fields", lambda: x.join(y, ["k"], left_fields=[])),
                   ("only keys", lambda: x.join(y, ["k"], right_fields=["k"])),
                   ("unknown field", lambda: x.join(y, ["k"], left_fields=["zz"])),
                   ("fields", lambda: v.ray().read_all(fields=["k"])),
                   ("references", lambda: v.ray().read_all(reference_read=True))]:
    try:
      fn()
      out = "ok"
    except Exception as e:
      out = exc(e)
    ev.append(dict(ev="refuse", what=what, out=out))
