"""Loading external files without copying them."""
import hashlib, os
from scen import scenario
from gen import Hist, PROFILES, ALL, NOREC
from world import HEAD, TRUE, vid, TINY
import loaders

ONE = [p for p in ALL if len(PROFILES[p]["rec"]) == 1]
W = dict(load=8, append=2, insert=1, upsert=3, delete=4, read=3, project=2, diff=3, ref=1, branch=1, layout=2, nested=.7)
NAMES = ["f", "a b", "\u00e9", "p%20q", "x#y", "k=v", "-", "z'"]


def digest(paths):
  return [hashlib.md5(open(p, "rb").read()).hexdigest() for p in paths]


class LoadHist(Hist):

  def __init__(self, env, w, rnd, **k):
    super().__init__(w, rnd, **k)
    self.env, self.ext = env, []

  def files(self, distinct=False):
    """Writes external files; returns (kind, rows, pattern, directory of a relative pattern)."""
    r, w = self.r, self.w
    n = len(self.ext)
    nf = r.choice([0, 1, 1, 1, 2, 2, 3, 3, 5])
    tables = [self.rows(r.choice([0, 1, 1, 2, 3, 4, r.randint(0, 12)]), distinct=distinct) for _ in range(nf)]
    if r.random() < .1: tables = [self.rows(40)]
    if distinct:
      seen, out = set(), []
      for t in tables:
        out.append([])
        for row in t:
          k = tuple(row[c - 1] for c in self.c.pk)
          if k not in seen: out[-1].append(row)
          seen.add(k)
      tables = out
    rows = [x for t in tables for x in t]
    d = os.path.join(self.env.dir, "%s_%s_%d" % (w.name, r.choice(["ext", "e x", "\u00fc"]), n))
    nested = r.random() < .25
    kw = dict(nested=nested, prefix=r.choice(NAMES))
    if w.profile["rec"]:
      paths = loaders.write_array_record(self.c, w.profile["rec"][0], d, tables, group=r.choice([1, 1, 4]), **kw)
      kind, suffix = "array_record", ".array_record"
    else:
      order = None
      if r.random() < .3:
        order = list(self.c.names)
        r.shuffle(order)
      paths = loaders.write_parquet(self.c, d, tables, row_group=r.choice([None, 1, 2, 3, 7]), order=order,
                                    compression=r.choice(["none", "snappy", "gzip", "zstd"]),
                                    use_dictionary=r.random() < .5, write_statistics=r.random() < .75,
                                    version=r.choice(["1.0", "2.6"]), data_page_version=r.choice(["1.0", "2.0"]),
                                    store_schema=r.random() < .8, **kw)
      kind, suffix = "parquet", ".parquet"
    # other files nearby are none of its business
    with open(os.path.join(d, "notes.txt"), "w") as f: f.write("x")
    pattern = os.path.join(d, "s?", "*" + suffix) if nested else os.path.join(d, r.choice(["*", "*" + suffix, kw["prefix"] + "*" + suffix]))
    if pattern.endswith("/*"): pattern = pattern[:-1] + "*" + suffix
    if len(paths) == 1 and not nested and r.random() < .5: pattern = paths[0]
    rel = None
    if r.random() < .4:
      rel = r.choice([self.env.dir, d])
      pattern = os.path.relpath(pattern, rel)
    self.ext.append((paths, digest(paths)))
    return kind, rows, pattern, rel

  def do_load(self, h, nested=None):
    r, w = self.r, self.w
    kind, rows, pattern, rel = self.files()
    if self.env.control:
      return self.note(w.append(h, rows, opts={}))
    cwd = os.getcwd()
    if rel: os.chdir(rel)
    try:
      if kind == "parquet": e = w.load_parquet(h, pattern, rows)
      else: e = w.load_array_record(h, pattern, rows, opts=self.opt())
    finally:
      os.chdir(cwd)
    return self.note(e)

  def unmodified(self):
    self.w.emit(ev="fact", what="C15.unmodified", ok=all(digest(p) == d for p, d in self.ext))


def run(env, rnd, profiles, weights=W):
  w = env.world(PROFILES[rnd.choice(profiles)], handles=["a", "b"])
  h = LoadHist(env, w, rnd, keys=rnd.choice([3, 5, 8, 14]), null=rnd.choice([0, .1, .3]), nullkey=rnd.choice([0, .05, .15]))
  h.do_load("a")
  h.run(14 if env.tier == "quick" else rnd.choice([14, 25, 40]), weights, ["a", "b"])
  for i in h.ids():
    w.read("b", vid(i))
  h.unmodified()
  w.layout(h.ids()[-1])
  w.diff("a", vid(0), HEAD if False else vid(h.ids()[-1]))


@scenario("load.parquet", owner=["C15"], control=True)
def parquet(env, rnd, i):
  run(env, rnd, NOREC)


@scenario("load.array_record", owner=["C15"], control=True)
def array_record(env, rnd, i):
  run(env, rnd, ONE)
