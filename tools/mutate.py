"""Systematic mutation of google/space: which small changes that pass its tests
do the checks miss?

usage: mutate.py list [GLOB]             prints the mutants
       mutate.py tests OUT.json [GLOB] [N SEED]   runs the stable tests on (a sample of N) mutants; keeps the survivors
       mutate.py checks SURVIVORS.json OUT.json   runs a share of every scenario on the survivors
Works on copies of the sources in /dev/shm."""
import ast, fnmatch, json, os, random, shutil, signal, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo/python/src/space/"
PY = "/opt/venv/bin/python"
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in",
        ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
NAMES = {"min": "max", "max": "min", "any": "all", "all": "any", "sorted": "list"}


def mutants(path):
  src = open(path).read()
  tree = ast.parse(src)
  lines = src.splitlines(keepends=True)
  off = [0]
  for l in lines: off.append(off[-1] + len(l.encode()))
  b = src.encode()
  pos = lambda ln, col: off[ln - 1] + col
  st = lambda n: pos(n.lineno, n.col_offset)
  en = lambda n: pos(n.end_lineno, n.end_col_offset)
  out = []

  def add(n, s, e, new, what):
    out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))

  docs = set()
  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): docs.add(n.value)
    if isinstance(n, ast.Raise):
      for x in ast.walk(n): skip.add(x)
    if isinstance(n, (ast.FunctionDef,)):
      for x in [n.returns] + [a.annotation for a in n.args.args]:
        if x is not None:
          for y in ast.walk(x): skip.add(y)
    if isinstance(n, ast.AnnAssign):
      for y in ast.walk(n.annotation): skip.add(y)
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith("logging"):
      for y in ast.walk(n): skip.add(y)
  for n in ast.walk(tree):
    if n in skip or n in docs: continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      add(n, en(n.left), st(n.comparators[0]), " %s " % SWAP[type(n.ops[0])], "compare")
    elif isinstance(n, ast.BoolOp):
      w = "or" if isinstance(n.op, ast.And) else "and"
      add(n, st(n), en(n), "(" + (" %s " % w).join("(%s)" % ast.unparse(v) for v in n.values) + ")", "bool")
      for k in range(len(n.values)):
        add(n, st(n), en(n), "(" + (" or " if w == "and" else " and ").join("(%s)" % ast.unparse(v) for i, v in
            enumerate(n.values) if i != k) + ")", "drop operand %d" % k)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      add(n, st(n), en(n), "bool(%s)" % ast.unparse(n.operand), "not")
    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
      o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//"}[type(n.op)]
      if not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(getattr(n.left, "value", 0), int):
        add(n, st(n), en(n), "(%s) %s (%s)" % (ast.unparse(n.left), o, ast.unparse(n.right)), "arith")
    elif isinstance(n, ast.AugAssign):
      add(n, st(n), en(n), "%s = %s" % (ast.unparse(n.target), ast.unparse(n.value)), "augassign")
    elif isinstance(n, ast.Constant) and n.value in (True, False) and isinstance(n.value, bool):
      add(n, st(n), en(n), str(not n.value), "bool const")
    elif isinstance(n, ast.Constant) and isinstance(n.value, int):
      add(n, st(n), en(n), str(n.value + 1), "int")
    elif isinstance(n, (ast.If, ast.IfExp)):
      for v in ("True", "False"): add(n, st(n.test), en(n.test), v, "if " + v)
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      add(n, st(n), en(n), "pass", "no call")
    elif isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
      add(n, st(n), en(n), "pass", "no assign")
    elif isinstance(n, (ast.Continue, ast.Break)):
      add(n, st(n), en(n), "pass", "no jump")
      add(n, st(n), en(n), "break" if isinstance(n, ast.Continue) else "continue", "jump")
    elif isinstance(n, ast.Call):
      f = ast.unparse(n.func)
      for k, kw in enumerate(n.keywords):
        c = ast.Call(n.func, n.args, [x for x in n.keywords if x is not kw])
        add(n, st(n), en(n), ast.unparse(c), "drop %s=" % kw.arg)
      if f in NAMES: add(n, st(n.func), en(n.func), NAMES[f], f)
      if len(n.args) == 2 and f not in ("isinstance", "print"):
        add(n, st(n), en(n), ast.unparse(ast.Call(n.func, n.args[::-1], n.keywords)), "swap args")
    elif isinstance(n, ast.Slice):
      if n.lower is not None: add(n, st(n.lower), en(n.lower), "", "slice low")
      if n.upper is not None: add(n, st(n.upper), en(n.upper), "", "slice high")
    elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
      add(n, st(n), en(n), "return None", "return None")
    elif isinstance(n, ast.FunctionDef):
      for d in n.decorator_list:
        if ast.unparse(d) not in ("property", "classmethod", "staticmethod", "abstractmethod"):
          add(d, st(d) - 1, en(d), "", "no decorator")
    elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
      for g in n.generators:
        for i in g.ifs: add(n, st(i), en(i), "True", "comprehension if")
  res, seen = [], set()
  for ln, what, text in sorted(out, key=lambda x: (x[0], x[1])):
    if text in seen or text == src: continue
    seen.add(text)
    try:
      ast.parse(text)
    except SyntaxError:
      continue
    res.append((ln, what, text))
  return res


def everything(glob="*"):
  for d, _, fs in sorted(os.walk(REPO)):
    for f in sorted(fs):
      p = os.path.join(d, f)
      r = os.path.relpath(p, REPO)
      if f.endswith(".py") and not f.endswith("_pb2.py") and fnmatch.fnmatch(r, glob):
        for k, (ln, what, text) in enumerate(mutants(p)):
          yield dict(id="%s:%d:%d %s" % (r, ln, k, what), file=r, line=ln, what=what, text=text)


def tree(m, where):
  """A copy of the sources with a mutant."""
  shutil.rmtree(where, ignore_errors=True)
  os.makedirs(where)
  shutil.copytree("/repo/python/src", where + "/python/src", ignore=shutil.ignore_patterns("__pycache__"))
  for f in ("tests", "pyproject.toml", "README.md"):
    os.symlink("/repo/python/" + f, where + "/python/" + f)
  if m is not None:
    with open(os.path.join(where, "python/src/space", m["file"]), "w") as f: f.write(m["text"])


TESTER = r'''
import json, os, sys, io, contextlib
sys.dont_write_bytecode = True
import tensorflow, tensorflow_datasets, pyarrow, pyarrow.dataset, pyarrow.parquet, pyarrow.acero, pandas, numpy, pytest, substrait
def run(src):
    sys.path.insert(0, src + "/python/src")
    os.chdir(src + "/python")
    class P:
        ok = set()
        def pytest_runtest_logreport(self, report):
            if report.when == "call" and report.passed: self.ok.add(report.nodeid)
    p = P()
    with open(os.devnull, "w") as f, contextlib.redirect_stdout(f), contextlib.redirect_stderr(f):
        pytest.main(["-q", "-x", "-p", "no:cacheprovider", "--timeout=120", "--ignore=tests/ray",
                     "--deselect", "tests/catalogs/test_directory.py::TestDirectoryCatalog::test_materialized_view_crud",
                     "-p", "no:xdist"], plugins=[p])
    return len(p.ok)
print("ready", flush=True)
for line in sys.stdin:
    src, out = line.split()
    pid = os.fork()
    if pid == 0:
        try:
            n = run(src)
        except BaseException as e:
            n = -1
        with open(out + ".tmp", "w") as f: f.write(str(n))
        os.rename(out + ".tmp", out)
        os._exit(0)
    os.waitpid(pid, 0)
    print("done", flush=True)
'''


def tests(out, glob, n, seed):
  ms = list(everything(glob))
  if n: ms = random.Random(seed).sample(ms, min(n, len(ms)))
  base = tempfile.mkdtemp(dir="/dev/shm", prefix="mut")
  env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC", "TF_CPP_MIN_LOG_LEVEL": "3",
         "CUDA_VISIBLE_DEVICES": "", "TMPDIR": base}
  ps = []
  for k in range(int(os.environ.get("J", "8"))):
    p = subprocess.Popen([PY, "-c", TESTER], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env,
                         start_new_session=True, stderr=subprocess.DEVNULL)
    ps.append(p)
  for p in ps: assert p.stdout.readline().strip() == "ready"
  import concurrent.futures as cf, queue
  q = queue.Queue()
  for k, p in enumerate(ps): q.put((k, p))
  want = [None]

  def one(m):
    k, p = q.get()
    try:
      d = "%s/t%d" % (base, k)
      tree(m, d)
      o = d + "/out"
      p.stdin.write("%s %s\n" % (d, o)); p.stdin.flush()
      p.stdout.readline()
      r = int(open(o).read()) if os.path.exists(o) else -2
      shutil.rmtree(d)
      return r
    finally:
      q.put((k, p))

  want = one(None)
  print("tests that pass:", want, "mutants:", len(ms), flush=True)
  keep = []
  with cf.ThreadPoolExecutor(len(ps)) as ex:
    for m, r in zip(ms, ex.map(one, ms)):
      if r == want:
        keep.append(m)
        print(m["id"], flush=True)
        json.dump(keep, open(out, "w"))
  for p in ps: p.stdin.close(); p.wait()
  json.dump(keep, open(out, "w"))
  shutil.rmtree(base)
  print(len(keep), "survive of", len(ms))


# Which scenarios are worth running for a file (prefixes; others get all).
REL = {
    "core/manifests/falsifiable_filters.py": ["prune.", "store.filter", "store.delete", "store.keys", "ray.read", "join."],
    "core/manifests": ["store.", "load.", "prune.", "join.", "ray.", "crash.data"],
    "core/views.py": ["view.", "join.", "catalog."],
    "core/transform/join.py": ["join."], "core/transform": ["view.", "join."],
    "core/random_access.py": ["access.", "serde.", "load.array"],
    "core/ops": ["store.", "load.", "crash.", "ray.", "conc.", "order.", "view.refresh"],
    "core/loaders": ["load.", "access."], "core/serializers": ["serde.", "schema."],
    "core/schema": ["schema.", "serde.", "store.project", "store.filter", "prune.", "access."],
    "ray/ops/join.py": ["join."], "ray": ["ray.", "view.", "join.", "catalog."], "catalogs": ["catalog.", "view.load", "move."],
}


def checks(inp, out):
  sys.path.insert(0, os.path.join(ROOT, "harness"))
  import plans
  import concurrent.futures as cf
  parts, seen = [], set()
  for pid, pl in plans.PLANS.items():
    for p in pl["parts"]:
      if p["scenario"] not in seen and p["scenario"] not in ("conc.window", "view.filter_fields"):
        seen.add(p["scenario"])
        parts.append(p)
  share = float(os.environ.get("SHARE", "0.12"))
  order = {}
  res = json.load(open(out)) if os.path.exists(out) else {}
  base = tempfile.mkdtemp(dir="/dev/shm", prefix="mut")
  try:
    for m in json.load(open(inp)):
      if m["id"] in res: continue
      d = base + "/repo"
      tree(m, d)
      t0 = time.time()
      fam = m["file"].split("/")
      rel = next((REL[k] for k in REL if m["file"].startswith(k)), [""])
      ps = sorted([p for p in parts if any(p["scenario"].startswith(x) for x in rel)], key=lambda p: -order.get((m["file"], p["scenario"]), 0))
      hit, procs = None, []

      def start(p, k):
        o = "%s/o%d.json" % (base, k)
        if os.path.exists(o): os.unlink(o)
        cfg = dict(scenario=p["scenario"], seed=7, first=0, count=max(2, int(p["quick"] * share)), step=1, tier="quick",
                   out=o, deadline=time.time() + 240, spec=p.get("spec", "TraceStore"))
        path = [os.path.join(ROOT, "harness", "rayshim")] if p.get("ray") else []
        env = {**os.environ, "PYTHONPATH": ":".join(path + [d + "/python/src"]), "TF_CPP_MIN_LOG_LEVEL": "3",
               "CUDA_VISIBLE_DEVICES": "", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "ARROW_IO_THREADS": "2",
               "PYTHONHASHSEED": "0", "TMPDIR": base}
        return p, o, subprocess.Popen([PY, os.path.join(ROOT, "harness", "worker.py"), json.dumps(cfg)], env=env,
                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, cwd="/tmp")

      todo, run, k = list(ps), [], 0
      while (todo or run) and hit is None:
        while todo and len(run) < int(os.environ.get("J", "8")):
          run.append(start(todo.pop(0), k))
          k += 1
        time.sleep(.2)
        for x in list(run):
          if x[2].poll() is None: continue
          run.remove(x)
          if not os.path.exists(x[1]): hit = (x[0]["scenario"], "no result")
          else:
            r = json.load(open(x[1]))
            if r["fails"]: hit = (x[0]["scenario"], ",".join(r["fails"][0]["clauses"])[:80])
            os.unlink(x[1])
          if hit:
            order[m["file"], x[0]["scenario"]] = order.get((m["file"], x[0]["scenario"]), 0) + 1
            break
      for x in run:
        try:
          os.killpg(x[2].pid, signal.SIGKILL)
        except ProcessLookupError: pass
        x[2].wait()
      subprocess.run(["pkill", "-9", "-f", base], check=False)
      for x in os.listdir(base):
        if x != "repo": shutil.rmtree(os.path.join(base, x), ignore_errors=True) if os.path.isdir(os.path.join(base, x)) else os.unlink(os.path.join(base, x))
      res[m["id"]] = hit
      json.dump(res, open(out, "w"), indent=0)
      print("%-60s %s %.0fs" % (m["id"], hit or "MISSED", time.time() - t0), flush=True)
  finally:
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
  a = sys.argv[1:]
  if a[0] == "list":
    ms = list(everything(*a[1:2]))
    for m in ms: print(m["id"])
    print(len(ms))
  elif a[0] == "tests":
    tests(a[1], a[2] if len(a) > 2 else "*", int(a[3]) if len(a) > 3 else 0, a[4] if len(a) > 4 else "0")
  else:
    checks(a[1], a[2])
