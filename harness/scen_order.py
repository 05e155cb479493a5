"""The order of the file system steps of operations: at each of them the
process may die, and what is visible then must be complete."""
import os
from scen import scenario
from gen import Hist, PROFILES, ALL
from world import World, HEAD, TRUE, vid
from procs import Client
from scen_crash import pick_spec, client_for, PRE

ENTRY = "metadata/entrypoint.txtpb"


class Ids:

  def __init__(self, loc):
    self.loc, self.ids = loc, {os.path.join(loc, ENTRY): 1}

  def of(self, p):
    if not os.path.isabs(p): p = os.path.join(self.loc, p)
    return self.ids.setdefault(os.path.normpath(p), len(self.ids) + 1)

  def set(self, ps):
    return sorted({self.of(p) for p in ps})


def inside(w, ps):
  """Files of the dataset itself."""
  ps = [p if os.path.isabs(p) else os.path.join(w.loc, p) for p in ps]
  return [p for p in ps if p.startswith(w.loc + os.sep)]


def all_files(loc):
  return [os.path.join(d, f) for d, _, fs in os.walk(loc) for f in fs]


def record(w, ids, r, rw):
  new = inside(w, w.referenced())
  there = all(os.path.exists(p) for p in new)
  steps = [dict(k=k, p=ids.of(w.loc + p), q=ids.of(w.loc + q) if q else 0)
           for k, p, q in r["order"] if k in ("openw", "write", "close", "rename", "unlink")]
  # writes to the same file in a row are one step
  steps = [s for i, s in enumerate(steps) if not (s["k"] == "write" and i and steps[i - 1] == s)]
  w.emit(ev="op", steps=steps, new=ids.set(new), rw=rw, there=there, out=r["out"])


@scenario("order.steps")
def order(env, rnd, i):
  w = env.world(PROFILES[rnd.choice(ALL)])
  if rnd.random() < .2:
    # the creation of a dataset or of a materialized view
    view = dict(src=w.loc, n=rnd.choice([1, 1, 2, 3])) if rnd.random() < .6 else None
    v = World(env.dir, "new", w.profile, create=False, ev=[])
    ids = Ids(v.loc)
    env.traces[-1] = v.ev
    v.ev[:] = [dict(ev="reset", tr=env.tname_last()), dict(ev="start", here=[], kept=[])]
    c = Client(v.loc, v.profile)
    r = c.call(c="create", view=view, arm={}, order=1)
    record(v, ids, r, True)
    w = v
    c.close()
    w.open("a")
    w.ev.pop()
    h = Hist(w, rnd, keys=4)
    h.note({"new": {"id": -1}})
    ev = w.ev
  else:
    h = Hist(w, rnd, keys=rnd.choice([3, 5]))
    for _ in range(rnd.choice([1, 2, 4])):
      h.step("a", PRE, [])
    ids = Ids(w.loc)
    ev = [dict(ev="reset", tr=env.tname_last())]
    env.traces[-1] = ev
    w.ev = ev
    ev.append(dict(ev="start", here=ids.set(all_files(w.loc)), kept=ids.set(inside(w, w.referenced()) + [ENTRY])))
  c = Client(w.loc, w.profile)
  c.call(c="open", h="a")
  refs = []
  for k in range(rnd.choice([3, 5, 8])):
    t = rnd.choice(["data"] * 5 + ["ref", "ref", "read", "diff"])
    if t == "data":
      w.ev = []   # events of the generator are of no interest here
      spec = pick_spec(env, rnd, h, w)
      w.ev = ev
      r = c.call(c="data", h="a", spec=spec, arm={}, order=1)
      record(w, ids, r, r["out"] == "succeeded")
      h.model[w.head()] = w.rows_at(None)
    elif t == "ref":
      what = rnd.choice(["add_tag", "add_branch", "remove_tag", "remove_branch", "set_branch"])
      n = rnd.choice(refs) if refs and what not in ("add_tag", "add_branch") else "n%d" % k
      r = c.call(c="ref", h="a", what=what, n=n, id=-1, arm={}, order=1)
      record(w, ids, r, r["out"] == "ok" and what != "set_branch")
      if what.startswith("add"): refs.append(n)
    elif t == "read":
      r = c.call(c="read", h="a", ver=HEAD, pred=TRUE, arm={}, order=1)
      record(w, ids, r, False)
    else:
      r = c.call(c="diff", h="a", s=vid(0), e=vid(w.head()), arm={}, order=1)
      record(w, ids, r, False)
  c.close()
