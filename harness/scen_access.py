"""Random access data sources over record fields."""
import os
import pyarrow as pa
from scen import scenario
from gen import PROFILES
from codec import BAD
from world import World, HEAD, TRUE, vid, TINY, exc, pyver
from scen_load import LoadHist
import preds as P

W = dict(append=4, big=.6, insert=1, upsert=4, delete=6, ref=.7, branch=1, load=.6, nested=.3, access=9, read=.5)


class AccessHist(LoadHist):

  def access(self, h, src=None, given=None, single=None, deserialize=None):
    from space.core.random_access import RandomAccessDataSource
    r, w, c = self.r, self.w, self.c
    recs = w.profile["rec"]
    feat = [n for n in recs if dict(w.profile["fields"])[n] == "feat"]
    fields = r.sample(recs, r.randint(1, len(recs)))
    deserialize = r.random() < .5 if deserialize is None else deserialize
    if not all(f in feat for f in fields): deserialize = False
    src = src or r.choice(["loc", "loc", "handle"])
    ards = r.random() < .6
    given = r.random() < .35 if given is None else given
    given = given and not self.env.control
    storage = w.h[h].storage
    feature = {f: (w.loc if src == "loc" or (given and r.random() < .5) else storage) for f in fields}
    kinds = [c.coords[c.of_field[f][0] - 1].kind for f in fields]

    def code(item):
      vals = [item] if len(fields) == 1 else [item.get(f) for f in fields] if isinstance(item, dict) else [None] * len(fields)
      return [(k.of_value(v) if deserialize else k.enc(v)) if v is not None else BAD for k, v in zip(kinds, vals)]

    def codes(got):
      if len(fields) == 1: return [code(x) for x in got]
      return [code(dict(zip(fields, x))) for x in zip(*[got[f] for f in fields])]

    ev = dict(ev="access", h=h, src=src, given=given, cols=c.cols_of(fields), order=[], out="ok", n=0, items=[], iter=[],
              lists=[], exact=False, beyond=False)
    try:
      addresses = None
      if given:
        kw = dict(fields=fields, reference_read=True)
        ver = vid(r.choice(self.ids())) if r.random() < .5 else HEAD
        if r.random() < .5: kw["filter_"] = P.expr(c, self.pred(h, 1))
        addresses = w.h[h].local().read_all(version=pyver(ver), **kw)
        if addresses is None or addresses.num_rows == 0: return
        n = addresses.num_rows
        how = r.choice(["all", "shuffle", "some", "dups"])
        ix = list(range(n))
        if how == "some": ix = sorted(r.sample(ix, r.randint(1, n)))
        if how == "dups": ix = [r.randrange(n) for _ in range(r.randint(1, n + 2))]
        if how == "shuffle": r.shuffle(ix)
        addresses = addresses.take(ix)
        # the records referred to, read independently
        t = w.resolve(w.h[h], addresses.combine_chunks())
        ev["order"] = [list(x) for x in zip(*[[k.enc(v) for v in t.column(f).to_pylist()] for k, f in zip(kinds, fields)])]
        if r.random() < .5: addresses = addresses.flatten()
        ev["exact"] = not (ards and len(fields) == 1)
      ds = RandomAccessDataSource(dict(feature), addresses, deserialize=deserialize, use_array_record_data_source=ards)
      n = ev["n"] = len(ds)
      m = n if n <= 60 else 60
      ev["items"] = [code(ds[i]) for i in range(n)]
      ev["iter"] = [code(x) for x in ds]
      if n:
        pats = [list(range(n)), list(range(n))[::-1], [r.randrange(n) for _ in range(r.randint(1, 6))], [0, 0], [n - 1, 0]]
        pats += [sorted(r.sample(range(n), r.randint(1, n)))]
        for p in r.sample(pats, 3):
          p = p[:80]
          got = ds[p] if r.random() < .5 else ds.__getitems__(p)
          ev["lists"].append(dict(ix=p, got=codes(got)))
        try:
          ds[n]
          ev["beyond"] = True
        except Exception:
          pass
    except Exception as e:
      w.last_exc = e
      ev["out"] = exc(e)
    w.emit(**ev)

  def do_access(self, h):
    self.access(h)


def run(env, rnd, profiles):
  prof = PROFILES[rnd.choice(profiles)]
  w = env.world(prof, handles=["a", "b"])
  h = AccessHist(env, w, rnd, keys=rnd.choice([3, 6, 12, 20]), null=.1, nullkey=rnd.choice([0, .1]))
  wt = {k: v for k, v in W.items() if k != "load" or (len(prof["rec"]) == 1 and "feat" not in prof["fields"][1])}
  h.access("a", given=False)  # nothing there yet
  h.do_append("a")
  h.run(14 if env.tier == "quick" else rnd.choice([14, 30]), wt, ["a", "b"])
  for k in (False, True): h.access(rnd.choice("ab"), given=k)


@scenario("access.random", owner=["C19"])
def access(env, rnd, i):
  run(env, rnd, ["rec", "rec", "rec2", "i32", "rec2", "odd", "odd1"])


@scenario("access.feature", owner=["C19"])
def feature(env, rnd, i):
  run(env, rnd, ["feat", "feat2"])


@scenario("access.runs", owner=["C19"])
def runs(env, rnd, i):
  """Every pattern of live and deleted rows over small record files."""
  w = env.world(PROFILES[rnd.choice(["rec", "i32"])], handles=["a"])
  h = AccessHist(env, w, rnd, keys=28, null=0, nullkey=0)
  c = w.codec
  pkc = c.pk[0] - 1
  # the first 256 cases are all patterns of a file of 5 and a file of 3 records
  sizes = [5, 3] if i < 256 else [rnd.choice([3, 5, 8]), rnd.choice([2, 4])]
  key = 0
  for s in sizes:
    rows = h.rows(s)
    while len(rows) < s: rows += h.rows(s - len(rows))
    for x in rows:
      x[pkc] = key
      key += 1
    w.append("a", rows, opts={} if i < 256 else rnd.choice([{}, dict(ar=60), dict(ar=1)]))
  # delete the rows outside of a pattern, in one or several steps
  pat = i if i < 256 else rnd.getrandbits(key)
  gone = [k for k in range(key) if not pat >> k & 1]
  rnd.shuffle(gone)
  parts = [gone] if rnd.random() < .5 else [gone[::2], gone[1::2]]
  for part in parts:
    if part: h.note(w.delete("a", {"k": "in", "c": c.pk[0], "vs": sorted(part)}, opts={}))
  h.access("a", "loc", False)
  h.access("a", "handle", False)
  h.access("a", given=True)


@scenario("access.multi", owner=["C19"])
def multi(env, rnd, i):
  """A given address table over record fields of two datasets, as a join gives."""
  from space.core.random_access import RandomAccessDataSource
  ws, ts = [], []
  for p in ("rec", "i32"):
    w = env.world(PROFILES[p], handles=["a"])
    h = AccessHist(env, w, rnd, keys=12, null=0, nullkey=0)
    h.do_append("a")
    h.run(4, dict(append=4, delete=2, upsert=1), ["a"])
    while not h.pool("a"): h.do_append("a")
    ws.append(w)
  fields = ["img", "w"]
  n = rnd.choice([1, 3, 9])
  cols, order = {}, []
  for w, f in zip(ws, fields):
    t = w.h["a"].local().read_all(fields=[f], reference_read=True)
    t = t.take([rnd.randrange(t.num_rows) for _ in range(n)]).combine_chunks()
    kind = w.codec.coords[w.codec.of_field[f][0] - 1].kind
    order.append([kind.enc(v) for v in w.resolve(w.h["a"], t).column(f).to_pylist()])
    cols[f] = t.column(f)
  addresses = pa.table(cols)
  w = ws[-1]
  enc = lambda d: [x.codec.coords[x.codec.of_field[f][0] - 1].kind.enc(d.get(f)) for x, f in zip(ws, fields)]
  ev = dict(ev="access", h="a", src="loc", given=True, cols=[], order=[list(x) for x in zip(*order)], out="ok", n=0,
            items=[], iter=[], lists=[], exact=True, beyond=False)
  try:
    ds = RandomAccessDataSource({f: (x.loc if rnd.random() < .5 else x.h["a"].storage) for x, f in zip(ws, fields)},
                                addresses, use_array_record_data_source=rnd.random() < .5)
    ev["n"] = len(ds)
    ev["items"] = [enc(ds[k]) for k in range(len(ds))]
    ev["iter"] = [enc(x) for x in ds]
    p = [rnd.randrange(n) for _ in range(5)]
    got = ds[p]
    ev["lists"].append(dict(ix=p, got=[enc(dict(zip(fields, x))) for x in zip(*[got[f] for f in fields])]))
  except Exception as e:
    w.last_exc = e
    ev["out"] = exc(e)
  w.emit(**ev)
