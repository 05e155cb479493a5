"""Plants a bug in a scratch copy of /repo, confirms it and keeps it under seeded/.

usage: plant.py BUGS.py [ID...]     BUGS.py defines BUGS = [dict(id, property,
edits=[(file, old, new)], demo=python code, needs, breaks)]
       plant.py --check ID [PROP...]   runs the quick checks against the bug
       plant.py --demos                runs all demos with and without the bugs
"""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
SRC = "python/src/space/"
HEAD = '''import sys, os
D = sys.argv[1]
import pyarrow as pa, pyarrow.compute as pc
import logging; logging.disable(logging.WARNING)
from space import Dataset
'''
DEMO = '''#!/bin/bash
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
export PYTHONPATH=$PWD/python/src TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python "$(dirname "$0")/demo.py" "$d"
'''


def copy():
  d = tempfile.mkdtemp(prefix="plant")
  subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
  subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
  return d


def demo(d, i):
  t = tempfile.mkdtemp(prefix="demo")
  for f in os.listdir(os.path.join(SEED, i)):
    a = os.path.join(SEED, i, f)
    if os.path.isdir(a): shutil.copytree(a, os.path.join(t, f))
    elif f not in ("meta.json", "patch.diff"): shutil.copy(a, t)
  p = subprocess.run(["bash", t + "/demo.sh"], cwd=d + "/repo", capture_output=True, text=True, timeout=300)
  shutil.rmtree(t)
  return p.returncode, (p.stdout + p.stderr)[-1500:]


def tests(d):
  o = d + "/junit.xml"
  env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TZ": "UTC", "TF_CPP_MIN_LOG_LEVEL": "3",
         "CUDA_VISIBLE_DEVICES": "", "PYTHONPATH": d + "/repo/python/src"}
  p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "4", "-p", "no:cacheprovider", "--timeout=300",
                      "--continue-on-collection-errors", "--ignore=tests/ray", "-o", "junit_family=xunit2",
                      "--junitxml=" + o], cwd=d + "/repo/python", env=env, capture_output=True, text=True)
  import xml.etree.ElementTree as ET
  ok = set()
  for tc in ET.parse(o).getroot().iter("testcase"):
    if not any(c.tag in ("failure", "error", "skipped") for c in tc): ok.add(tc.get("classname") + "::" + tc.get("name"))
  stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
  return sorted(stable - ok)


def plant(b):
  d = copy()
  try:
    for f, old, new in b["edits"]:
      p = os.path.join(d, "repo", SRC + f)
      s = open(p).read()
      if s.count(old) != 1: return "edit of %s matches %d times" % (f, s.count(old))
      open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", d + "/repo", "diff"], capture_output=True, text=True).stdout
    out = os.path.join(SEED, b["id"])
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO if not b.get("ray") else DEMO.replace(
        "$PWD/python/src", '"$(cd "$(dirname "$0")" && pwd)/standin:$PWD/python/src"'))
    if b.get("ray"):
      shutil.copytree(os.path.join(ROOT, "harness", "rayshim"), out + "/standin", ignore=shutil.ignore_patterns("__pycache__"),
                      dirs_exist_ok=True)
    open(out + "/demo.py", "w").write(HEAD + b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(out + "/meta.json", "w"), indent=1)
    rc, log = demo(d, b["id"])
    bad = tests(d) if rc != 0 else []
    subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
    rc0, log0 = demo(d, b["id"])
    res = "ok" if rc != 0 and rc0 == 0 and not bad else "REJECTED rc=%d clean rc=%d %s failed tests %s" % (rc, rc0, log0 if rc0 else "", bad)
    if res != "ok": shutil.rmtree(out)
    return res + "   [" + log.strip().splitlines()[-1][:150] + "]" if log.strip() else res
  finally:
    shutil.rmtree(d)


def check(i, props):
  meta = json.load(open(os.path.join(SEED, i, "meta.json")))
  d = copy()
  try:
    subprocess.run(["git", "-C", d + "/repo", "apply", os.path.join(SEED, i, "patch.diff")], check=True)
    for p in props or [meta["property"]]:
      r = subprocess.run([os.path.join(ROOT, "check.py"), p, "quick"], env={**os.environ, "VERIF_REPO": d + "/repo", "VERIF_SEED": "1"},
                         capture_output=True, text=True)
      v = [l for l in r.stdout.splitlines() if re.match(r"\S+#\d", l)]
      print("%-28s %s: %s %s" % (i, p, "MISSED" if r.returncode == 0 else "caught" if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout else "ERROR",
                                  (v[0][:140] if v else r.stdout[-300:])), flush=True)
  finally:
    shutil.rmtree(d)


if __name__ == "__main__":
  a = sys.argv[1:]
  if a[0] == "--check":
    check(a[1], a[2:])
  elif a[0] == "--demos":
    d = copy()
    for i in sorted(os.listdir(SEED)):
      subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
      r0 = demo(d, i)[0]
      r = subprocess.run(["git", "-C", d + "/repo", "apply", os.path.join(SEED, i, "patch.diff")]).returncode
      r1 = demo(d, i)[0]
      print(i, "ok" if r0 == 0 and r == 0 and r1 != 0 else "BAD %s %s %s" % (r0, r, r1), flush=True)
    shutil.rmtree(d)
  else:
    ns = {}
    exec(open(a[0]).read(), ns)
    for b in ns["BUGS"]:
      if len(a) == 1 or b["id"] in a[1:]: print(b["id"], plant(b), flush=True)
