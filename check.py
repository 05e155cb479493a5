#!/opt/venv/bin/python
"""Runs the check of one property.

usage: check.py <property id> [quick|thorough]
       check.py --replay <file>
Exit 0: the property held on everything explored.  Exit 1, with a line
"VIOLATION property=<id> replay=<path>": it did not."""
import concurrent.futures as cf
import fnmatch, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import clauses, plans, tlc

PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def env(ray=False):
  e = dict(os.environ)
  path = [os.path.join(HERE, "harness", "rayshim")] if ray else []
  e.update(PYTHONPATH=":".join(path + [os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python/src")]),
           TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="", PYTHONDONTWRITEBYTECODE="1",
           OMP_NUM_THREADS="1", ARROW_IO_THREADS="2", PYTHONWARNINGS="ignore", PYTHONHASHSEED="0")
  return e


def known(pid):
  """Findings recorded as known: lines `known: property=<id> scenario=<glob>
  profile=<glob> clause=<glob> ...`."""
  out = []
  for l in open(os.path.join(HERE, "known_findings.txt")):
    if l.startswith("known: property=%s " % pid):
      out.append(dict(x.split("=", 1) for x in l[7:].split() if "=" in x) | {"text": l.strip()})
  return out


def run_worker(cfg, out, ray, timeout):
  p = subprocess.Popen([PY, os.path.join(HERE, "harness", "worker.py"), json.dumps(cfg)], env=env(ray),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                       cwd=tempfile.gettempdir())
  try:
    log, _ = p.communicate(timeout=timeout)
  except subprocess.TimeoutExpired:
    log = "timeout"
  finally:
    try:
      os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
      pass
    p.wait()
  if os.path.exists(out):
    return json.load(open(out))
  return dict(crash="worker ended with %s: %s" % (p.returncode, log[-3000:]))


def main():
  if sys.argv[1] == "--replay":
    return replay(sys.argv[2])
  pid = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  plan = plans.PLANS[pid]
  budget = 1e9 if tier == "thorough" and "VERIF_BUDGET" not in os.environ else float(
      os.environ.get("VERIF_BUDGET", "420"))
  base = tempfile.mkdtemp(prefix="vfc_")
  tot = dict(cases=0, traces=0, events=0, states=0, mc_states=0, mc_transitions=0)
  fails, crashes, kinds, samples, per, mcs, late = [], [], {}, [], {}, [], False
  try:
    jobs = []
    with cf.ThreadPoolExecutor(WORKERS) as ex:
      n = 0
      for part in plan["parts"]:
        count = part[tier] if tier in part else part["quick"]
        nw = min(WORKERS, max(1, count // part.get("min", 1)))
        rounds = part.get("rounds", 1) if tier == "quick" else part.get("rounds", 1) * 4
        nj = nw * rounds
        for k in range(nj):
          c = count // nj + (1 if k < count % nj else 0)
          if not c: continue
          out = os.path.join(base, "r%d.json" % n)
          n += 1
          cfg = dict(scenario=part["scenario"], seed=seed, first=k, count=c, step=nj, tier=tier, out=out,
                     deadline=t0 + budget, spec=part.get("spec", "TraceStore"), batch=part.get("batch", 100000))
          jobs.append((part, ex.submit(run_worker, cfg, out, part.get("ray", False), 6 * 3600 if budget > 1e6 else budget + 300)))
      for m in plan["mc"]:
        spec, cfg = m[0], (m[1] if tier == "quick" or len(m) < 3 else m[2])
        jobs.append(((spec, cfg), ex.submit(tlc.model_check, spec, cfg, workers=2 if tier == "quick" else 4, mem="4g",
                                            timeout=600 if tier == "quick" else 5 * 3600)))
      for part, j in jobs:
        r = j.result()
        if isinstance(part, tuple):
          g, d, err = r
          tot["mc_states"] += d
          tot["mc_transitions"] += g
          mcs.append(dict(spec=part[0], config=part[1], states=d, transitions=g, ok=err is None))
          if err: crashes.append("model checking of %s failed: %s" % (part, err))
          continue
        if "crash" in r:
          crashes.append("%s: %s" % (part["scenario"], r["crash"]))
          continue
        for k in ("cases", "traces", "events", "states"):
          tot[k] += r[k]
        p = per.setdefault(part["scenario"], dict(cases=0, traces=0, events=0))
        for k in p: p[k] += r[k]
        for k, v in r["kinds"].items(): kinds[k] = kinds.get(k, 0) + v
        if r["samples"] and not any(s.startswith(part["scenario"]) for s in samples):
          samples.append(part["scenario"] + ": " + r["samples"][0])
        late |= r["late"]
        for f in r["fails"]:
          f["owner"] = part.get("owner", [])
          f["ray"] = part.get("ray", False)
          f["spec"] = part.get("spec", "TraceStore")
          fails.append(f)
  finally:
    shutil.rmtree(base, ignore_errors=True)

  mine, foreign, hits = [], [], {}
  for f in fails:
    ps = set(f["owner"])
    for c in f["clauses"]:
      try:
        ps |= clauses.props(c, f["event"])
      except Exception as e:  # a violation that cannot be attributed is everybody's
        f["error"] += repr(e)
        ps.add("*")
    if f["control"]:
      # the same history violates the same clauses without the feature that the
      # scenario is about: this is a violation of another property
      if set(f["clauses"]) & set(f["control"]): ps -= set(f["owner"])
    if not (pid in ps or "*" in ps):
      foreign.append(f)
      continue
    for k in known(pid):
      if fnmatch.fnmatch(f["scenario"], k.get("scenario", "*")) and all(
          fnmatch.fnmatch(c, k["clause"]) for c in f["clauses"]) and k.get("profile", "") in f["trace"]:
        hits.setdefault(k["text"], f)
        break
    else:
      mine.append(f)
  wall = time.time() - t0
  ev = dict(property=pid, tier=tier, seed=seed, level=plan.get("level", "model_checking"), wall_s=round(wall, 1),
            coverage=dict(states=tot["mc_states"] + tot["states"], transitions=tot["mc_transitions"] + tot["states"],
                          traces_validated_against_impl=tot["traces"], samples=samples[:6],
                          evaluations=tot["events"], cases=tot["cases"], events_by_kind=dict(sorted(kinds.items())),
                          scenarios=per, model_checking_runs=mcs, cut_short_by_deadline=late,
                          violations=len(mine), foreign_violations=[
                              "%s %s" % (f["trace"], ",".join(f["clauses"])) for f in foreign][:10]),
            assumptions=plan.get("assumptions", []))
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
    json.dump(ev, f, indent=1)
  for k in hits:
    print("KNOWN-FINDING: property=%s %s" % (pid, k.split(None, 4)[-1]))
  for f in foreign[:5]:
    print("note: %s fails %s, which is not about %s" % (f["trace"], f["clauses"], pid))
  if mine:
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for f in mine[:5]:
      name = "%s_%s.json" % (pid, re.sub(r"[^A-Za-z0-9]+", "_", f["trace"]))
      path = os.path.join(HERE, "replays", name)
      with open(path, "w") as o:
        json.dump(dict(property=pid, **f), o, indent=1)
      print("%s: %s at %s" % (f["trace"], ", ".join(f["clauses"]), json.dumps(f["event"])[:600]))
      if f["error"]: print(f["error"][-1500:])
      print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
  if crashes:
    print("\n".join(crashes[:5]))
    print("ERROR: the check of %s could not be completed" % pid)
    return 2
  print("OK property=%s: %d traces with %d events, %d model states, %.0f s" %
        (pid, tot["traces"], tot["events"], tot["mc_states"], wall))
  return 0


def replay(path):
  f = json.load(open(path))
  base = tempfile.mkdtemp(prefix="vfr_")
  out = os.path.join(base, "r.json")
  cfg = dict(scenario=f["scenario"], seed=f["seed"], first=f["i"], count=1, step=1, tier=f["tier"], out=out,
             deadline=time.time() + 3600, spec=f["spec"])
  r = run_worker(cfg, out, f["ray"], 3600)
  shutil.rmtree(base, ignore_errors=True)
  if "crash" in r:
    print(r["crash"])
    return 2
  for x in r["fails"]:
    print(x["trace"], x["clauses"], json.dumps(x["event"])[:2000])
    print("VIOLATION property=%s replay=%s" % (f["property"], path))
  return 1 if r["fails"] else 0


if __name__ == "__main__":
  try:
    sys.exit(main())
  except Exception:
    import traceback
    traceback.print_exc(file=sys.stdout)
    print("ERROR: the check failed")
    sys.exit(2)
