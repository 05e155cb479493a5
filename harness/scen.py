"""Registry of scenarios.  A scenario drives the real code and records traces.

A scenario is a function (env, rnd, i): it creates worlds with env.world() and
lets them record events.  It is deterministic in (tier, seed, i)."""
import os, random, shutil
from world import World

SCENARIOS = {}


def scenario(name, owner=(), control=False):
  """owner: properties a failure of any clause belongs to as well."""

  def deco(fn):
    SCENARIOS[name] = (fn, tuple(owner), control)
    return fn

  return deco


class Env:

  def __init__(self, base, name, seed, i, tier="quick", control=False):
    self.base, self.name, self.seed, self.i = base, name, seed, i
    self.tier, self.control = tier, control
    self.rnd = random.Random("%s/%s/%s" % (name, seed, i))
    self.traces = []   # (trace name, list of events)
    self.dir = os.path.join(base, "%s_%d" % (name.replace(".", "_"), i))
    shutil.rmtree(self.dir, ignore_errors=True)
    os.makedirs(self.dir)

  def tname(self):
    return "%s#%s#%d#%d" % (self.name, self.seed, self.i, len(self.traces))

  def world(self, profile, handles=("a",), cls=World, **k):
    ev = []
    self.traces.append(ev)
    n = "w%d" % len(self.traces)
    w = cls(self.dir, n, profile, handles=handles, ev=ev, tr=self.tname_last(), **k)
    return w

  def tname_last(self):
    return "%s#%s#%d#%d" % (self.name, self.seed, self.i, len(self.traces) - 1)

  def fact(self, what, ok, **info):
    """A single measured fact outside of a world's trace."""
    if not self.traces or self.traces[-1] is not getattr(self, "_facts", None):
      self._facts = []
      self.traces.append(self._facts)
      self._facts.append(dict(ev="reset", tr=self.tname_last(), pk=[1]))
    self._facts.append(dict(ev="fact", what=what, ok=bool(ok), **info))

  def close(self):
    shutil.rmtree(self.dir, ignore_errors=True)


def load_all():
  import importlib
  here = os.path.dirname(os.path.abspath(__file__))
  for f in sorted(os.listdir(here)):
    if f.startswith("scen_") and f.endswith(".py"):
      importlib.import_module(f[:-3])


def load(name):
  import importlib
  importlib.import_module("scen_" + name.split(".")[0])
  return SCENARIOS[name]
