"""Datasets that are moved or copied as a directory."""
import os, shutil
from scen import scenario
from gen import Hist, PROFILES, ALL
from world import World, HEAD, TRUE, vid, vref, TINY
from scen_load import LoadHist

W = dict(append=5, big=.3, insert=1, upsert=3, delete=3, ref=3, branch=1.5, read=.5, layout=.3)
POST = dict(append=3, upsert=2, delete=2, insert=1, ref=1, branch=1, read=3, project=3, diff=2, layout=1, nested=1, files=.3)


def continued(env, w, loc):
  """A trace that goes on with the dataset of w at another location."""
  ev = []
  env.traces.append(ev)
  x = World(os.path.dirname(loc), os.path.basename(loc), w.profile, create=False, location=loc, ev=[], tr="")
  ev.append(dict(w.ev[0], tr=env.tname_last()))
  ev += w.ev[1:]
  x.ev = ev
  x.uniq = w.uniq
  return x


def observe(w, h, rnd, hd):
  """Every version and reference in all ways of reading."""
  o = w.obs()
  w.emit(ev="obs", obs=o)
  for i, _ in o["snaps"]:
    w.read(hd, vid(i), batch=rnd.choice([None, 1, 3]), how=rnd.choice(["read", "read_all"]))
    w.read(hd, vid(i), pred=h.pred(hd, 1))
  for r in o["refs"]:
    w.read(hd, vref(r["n"]))
  if w.profile["rec"]:
    for i in rnd.sample([i for i, _ in o["snaps"]], min(3, len(o["snaps"]))):
      w.read_refs(hd, vid(i))
  for i in rnd.sample([i for i, _ in o["snaps"]], min(3, len(o["snaps"]))):
    if i: w.diff(hd, vid(0), vid(i))
  w.layout(rnd.choice([i for i, _ in o["snaps"]]))


@scenario("move.random", owner=["C16"], control=True)
def move(env, rnd, i):
  prof = PROFILES[rnd.choice(ALL)]
  how = rnd.choice(["rename", "copy", "copy", "symlink"])
  # the same location in different spellings
  spell = rnd.choice(["{}", "{}", "{}/", "{}/.", "{}/../{b}"])
  loc = os.path.join(env.dir, "orig", "ds")
  os.makedirs(os.path.dirname(loc))
  real = loc
  use = spell.format(loc, b="ds")
  if "/.." in spell: os.makedirs(loc)
  w = env.world(prof, handles=["a", "b"], location=use)
  h = LoadHist(env, w, rnd, keys=rnd.choice([3, 5, 8]), null=.1)
  wt = dict(W, load=1) if len(prof["rec"]) < 2 else W
  h.run(rnd.choice([4, 8, 12]), wt, ["a", "b"])
  moves = rnd.choice([1, 1, 2])
  for k in range(moves):
    new = os.path.join(env.dir, rnd.choice(["m%d", "deep/er/m%d", "m %d", "\u00fc%d"]) % k)
    os.makedirs(os.path.dirname(new), exist_ok=True)
    if env.control:
      new = w.loc
    elif how == "rename":
      os.rename(real, new)
    elif how == "copy":
      shutil.copytree(real, new)
    else:
      os.rename(real, new + "_t")
      os.symlink(new + "_t", new)
    copied = how == "copy" and not env.control
    gone = None
    if copied and rnd.random() < .5:  # the original is out of reach for a while
      gone = real + "_gone"
      os.rename(real, gone)
    x = continued(env, w, new)
    hx = LoadHist(env, x, rnd, keys=5, null=.1)
    hx.pg.nan, hx.pg.add = h.pg.nan, h.pg.add
    hx.model = {e["new"]["id"]: e["new"]["rows"] for e in x.ev if e.get("new", {}).get("id", -1) != -1}
    x.open("c")
    x.open("d")
    observe(x, hx, rnd, "c")
    hx.run(rnd.choice([4, 8]), POST, ["c", "d"])
    observe(x, hx, rnd, "d")
    x.check_files()
    if gone: os.rename(gone, real)
    if copied:
      # the original goes on, too
      w.open("e")
      observe(w, h, rnd, "e")
      for hd in ("a", "b"): w.open(hd)
      h.run(4, POST, ["a", "b"])
      observe(w, h, rnd, "e")
      w.check_files()
      x.open("f")
      observe(x, hx, rnd, "f")
    w, h, real = x, hx, new
    if how == "symlink": how = "copy"
