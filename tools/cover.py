"""Which lines of google/space do the scenarios not execute?

usage: cover.py [CASES PER SCENARIO]   prints the lines never executed"""
import ast, json, os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/python/src/space/"
PY = "/opt/venv/bin/python"
ONE = r'''
import sys, os, json, tempfile, shutil
hits = set()
m = sys.monitoring
m.use_tool_id(1, "cover")
def line(code, n):
    if code.co_filename.startswith(%r): hits.add((code.co_filename[len(%r):], n))
    return m.DISABLE
m.register_callback(1, m.events.LINE, line)
m.set_events(1, m.events.LINE)
sys.path.insert(0, %r)
import scen
name, n, out = sys.argv[1], int(sys.argv[2]), sys.argv[3]
fn, _, _ = scen.load(name)
base = tempfile.mkdtemp(dir="/dev/shm")
for i in range(n):
    env = scen.Env(base, name, 5, i)
    try: fn(env, env.rnd, i)
    except Exception as e: print(name, i, repr(e)[:200])
    env.close()
if "procs" in sys.modules: sys.modules["procs"].Zygote.stop()
shutil.rmtree(base)
json.dump(sorted(hits), open(out, "w"))
''' % (SRC, SRC, ROOT + "/harness")


def lines(path):
  """First lines of statements within functions."""
  out = set()
  for f in ast.walk(ast.parse(open(path).read())):
    if isinstance(f, ast.FunctionDef):
      for s in ast.walk(f):
        if isinstance(s, ast.stmt) and s is not f and not isinstance(s, ast.FunctionDef):
          if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
          out.add(s.lineno)
  return out


def main():
  sys.path.insert(0, ROOT + "/harness")
  import plans
  n = int(sys.argv[1]) if len(sys.argv) > 1 else 6
  parts = {p["scenario"]: p for c in plans.PLANS.values() for p in c["parts"]}
  tmp = tempfile.mkdtemp(dir="/dev/shm")
  hits, run, todo = set(), [], sorted(parts)
  while todo or run:
    while todo and len(run) < 6:
      s = todo.pop()
      env = dict(os.environ, PYTHONPATH="/repo/python/src", TF_CPP_MIN_LOG_LEVEL="3", PYTHONDONTWRITEBYTECODE="1")
      if parts[s].get("ray"): env["PYTHONPATH"] = ROOT + "/harness/rayshim:" + env["PYTHONPATH"]
      o = os.path.join(tmp, s)
      run.append((s, o, subprocess.Popen([PY, "-W", "ignore", "-c", ONE, s, str(n), o], env=env,
                                         stderr=subprocess.DEVNULL)))
    s, o, p = run.pop(0)
    p.wait()
    if os.path.exists(o): hits |= {tuple(x) for x in json.load(open(o))}
    else: print("no result:", s)
  tot = miss = 0
  for d, _, fs in sorted(os.walk(SRC)):
    for f in sorted(fs):
      p = os.path.join(d, f)
      r = os.path.relpath(p, SRC)
      if not f.endswith(".py") or f.endswith("_pb2.py"): continue
      ls = lines(p)
      no = sorted(l for l in ls if (r, l) not in hits)
      tot += len(ls)
      miss += len(no)
      src = open(p).read().splitlines()
      for l in no: print("%s:%d: %s" % (r, l, src[l - 1].strip()))
  print("%d of %d statements never executed" % (miss, tot))


main()
