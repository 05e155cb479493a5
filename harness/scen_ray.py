"""The same histories with the operations run by the Ray runner.

Ray is replaced by harness/rayshim, which runs every task in this process, on
copies of its arguments, in an order chosen here."""
import random

from scen import scenario
from gen import Hist, PROFILES, ALL
from scen_store import BASE, STEPS, PROF
from world import World, file_options

import pyarrow as pa
import ray
from space import RayOptions
from space.core.options import ReadOptions


class RayDatasetReader:
  """Reads by View.ray_dataset, the Ray data set of a data set."""

  def __init__(self, ds, opts):
    self.ds, self.opts = ds, opts

  def read(self, filter_=None, fields=None, version=None, reference_read=False, batch_size=None):
    st = self.ds.storage
    st.reload()
    snap = None if version is None else st.version_to_snapshot_id(version)
    o = ReadOptions(filter_, fields, snap, reference_read, batch_size)
    d = self.ds.ray_dataset(self.opts, o)
    return (b for b in d.iter_batches(batch_size=None, batch_format="pyarrow", drop_last=False) if b.num_rows > 0)

  def diff(self, *a, **k):
    return self.ds.ray(self.opts).diff(*a, **k)

  def read_all(self, **kw):
    ts = list(self.read(**kw))
    return pa.concat_tables(ts) if ts else None


class RayWorld(World):
  """Runs operations by Ray, or, with share 0, by the local runner."""
  share, rnd = 0.85, None

  def setup(self, rnd, control):
    # the control run consumes the same random numbers, so that it replays the same history
    share, order, seed = rnd.choice([.6, 1]), rnd.choice("fsr"), rnd.random()
    self.rnd, self.share = rnd, 0 if control else share
    sh = random.Random(seed)
    ray.SHIM_TASK_ORDER = {"f": None, "s": lambda n: sh.sample(range(n), n), "r": lambda n: list(range(n))[::-1]}[order]
    return self

  def is_ray(self):
    x = self.rnd.random()
    return x < self.share

  def ray_options(self):
    return RayOptions(max_parallelism=self.rnd.choice([1, 1, 2, 3, 4, 8]),
                      enable_row_range_block=self.rnd.random() < .5)

  def runner(self, h, opts=None):
    o, r = self.ray_options(), self.is_ray()
    if not r: return super().runner(h, opts)
    return self.h[h].ray(o, file_options(**opts) if opts else None)

  def reader(self, h):
    o, r = self.ray_options(), self.is_ray()
    if r and self.rt.random() < .2: return RayDatasetReader(self.h[h], o)
    return self.h[h].ray(o) if r else super().reader(h)

  def append(self, h, rows, nested=None, how="append", **k):
    if nested is not None: how, k["batches"] = "dict", None  # a callback can't be sent to another process
    return super().append(h, rows, nested=nested, how=how, **k)


FOCUS = {
    "write": dict(append=10, big=2, insert=5, upsert=6, delete=7, read=3, project=2, layout=4, ref=.5, branch=1, nested=1,
                  inflight=.5, bad=.5),
    "delete": dict(append=7, delete=9, upsert=4, big=1, read=2, project=1, layout=2, ref=.5, branch=.7, diff=3, nested=.3),
    "read": dict(read=10, project=7, append=6, upsert=2, delete=3, big=1, inflight=2, layout=.3, diff=2, ref=1, branch=1),
    "diff": dict(diff=14, append=6, upsert=5, delete=5, insert=2, big=.7, read=1, layout=.2, ref=1, branch=1.5),
}


def make(name, weights):

  def run(env, rnd, i):
    p = rnd.choice(ALL)
    w = env.world(PROFILES[p], handles=["a", "b"], cls=RayWorld).setup(rnd, env.control)
    try:
      h = Hist(w, rnd, keys=rnd.choice([3, 5, 8, 14]), null=rnd.choice([0, .1, .3]), nullkey=rnd.choice([0, .05, .15]))
      # many small files per manifest
      if rnd.random() < .4: h.opts = [dict(rg=1, fb=1), dict(rg=1, fb=1, ar=60), {}]
      h.run(STEPS if env.tier == "quick" else rnd.choice([25, 40, 70]), {**BASE, **weights}, ["a", "b"])
      w.layout(h.ids()[-1])
    finally:
      ray.SHIM_TASK_ORDER = None

  scenario("ray." + name, owner=["C21"], control=True)(run)


for k, v in FOCUS.items():
  make(k, v)
