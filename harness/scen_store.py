"""Random histories over one dataset with several handles."""
from scen import scenario
from gen import Hist, PROFILES, ALL, NOREC
from world import TINY, vid

RECS = [p for p in ALL if PROFILES[p]["rec"]]
BASE = dict(append=4, insert=2, upsert=3, delete=4, read=4, project=2, diff=3, ref=3, branch=2, layout=2,
            open=.4, versions=1, files=.5, nested=1, inflight=1)
STEPS = 25

FOCUS = {
    "mixed": dict(),
    "append": dict(append=14, big=2, read=3, project=3, layout=3, ref=.3, branch=.3, nested=.3),
    "delete": dict(delete=12, append=6, big=1, read=2, ref=.5, branch=.5, diff=1, upsert=3),
    "keys": dict(insert=9, upsert=9, append=3, delete=3, read=1, ref=.5, branch=.5, diff=1, project=0),
    "old": dict(read=9, ref=4, files=3, open=1, append=4, versions=2),
    "branches": dict(branch=6, ref=5, read=5, nested=3, append=6, diff=2, layout=.5),
    "refs": dict(ref=14, branch=6, versions=3, append=3, nested=2, read=2, layout=.2, diff=1),
    "txn": dict(nested=12, append=3, branch=3, ref=3, read=1, layout=.5, diff=1, project=0),
    "diff": dict(diff=12, append=4, delete=4, upsert=4, branch=2, ref=2, read=1, layout=.3, big=.5),
    "filter": dict(read=14, append=6, big=1, delete=2, project=0, diff=.5, layout=.3, ref=.5, branch=.5, upsert=2),
    "project": dict(project=14, append=5, big=1, delete=3, upsert=3, read=2, diff=.5, layout=.5),
    "layout": dict(layout=10, append=5, big=1, delete=5, upsert=4, read=.5, project=.5, diff=.5, ref=.5, branch=.5),
    "inflight": dict(inflight=9, append=4, delete=4, upsert=3, ref=3, branch=2, read=6, layout=.3, diff=1),
    "reject": dict(bad=7, ref=5, insert=5, branch=4, diff=3, nested=3, append=3, delete=4),
}
PROF = {"keys": ["basic", "str", "comp", "comp3", "f64", "f32", "i32", "bin", "boolk", "rec", "long", "nest"],
        "project": ALL + RECS * 3, "append": ALL + RECS, "filter": ALL + ["comp", "nest", "comp3"]}


def make(name, weights):

  def run(env, rnd, i):
    p = rnd.choice(PROF.get(name, ALL))
    hs = ["a", "b"] if name not in ("inflight", "txn", "refs") else ["a", "b", "c"]
    w = env.world(PROFILES[p], handles=hs)
    if rnd.random() < .3: w.shuffle = rnd
    # small key domains collide often, large ones spread over files
    h = Hist(w, rnd, keys=rnd.choice([3, 5, 8, 14]), null=rnd.choice([0, .1, .3]),
             nullkey=rnd.choice([0, .05, .15]))
    h.run(STEPS if env.tier == "quick" else rnd.choice([25, 40, 70]), {**BASE, **weights}, hs)
    w.check_files()
    w.layout(h.ids()[-1])

  scenario("store." + name)(run)


for k, v in FOCUS.items():
  make(k, v)


@scenario("store.long")
def long_history(env, rnd, i):
  """Many commits: nothing is forgotten."""
  w = env.world(PROFILES[rnd.choice(["basic", "str", "rec", "comp"])], handles=["a", "b"])
  h = Hist(w, rnd, keys=rnd.choice([5, 14]), maxrows=40)
  h.opts = [{}, TINY]
  n = rnd.choice([25, 40, 60]) if env.tier == "quick" else rnd.choice([60, 120, 260])
  for k in range(n):
    o = rnd.choice(["a", "b"])
    h.step(o, dict(append=5, upsert=2, delete=2, ref=1, branch=.6), [])
    if k % 10 == 9: h.step(o, dict(read=1, diff=1), [])
  for v in h.ids():
    w.read("a", vid(v))
  par = dict(h.lasto()["snaps"])
  for v in rnd.sample(h.ids(), 4):
    p = v
    while par[p] != -1 and rnd.random() < .95: p = par[p]
    w.diff("b", vid(p), vid(v))
  w.versions("a")
  w.check_files()
  w.layout(h.ids()[-1])
