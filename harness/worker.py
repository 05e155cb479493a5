"""Runs a share of the cases of one scenario and validates their traces.

usage: worker.py '{"scenario":..., "seed":..., "first":..., "count":...,
                   "step":..., "deadline":..., "out":..., "tier":...}'
"""
import logging
logging.disable(logging.WARNING)
import json, os, shutil, sys, tempfile, time, traceback, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import scen, tlc


def last_errors(e):
  return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]


def run_case(fn, base, cfg, i, control=False):
  env = scen.Env(base, cfg["scenario"], cfg["seed"], i, cfg["tier"], control)
  err = ""
  try:
    fn(env, env.rnd, i)
  except Exception as e:  # the code under test misbehaved in an unforeseen way
    err = last_errors(e)
    if not env.traces:
      env.fact("setup", True)
    env.traces[-1].append(dict(ev="fact", what="exception." + type(e).__name__, ok=False))
  finally:
    env.close()
  return env, err


def main():
  cfg = json.loads(sys.argv[1])
  os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
  fn, owner, control = scen.load(cfg["scenario"])
  base = tempfile.mkdtemp(prefix="vf_")
  res = dict(cases=0, traces=0, events=0, states=0, fails=[], samples=[], kinds={}, late=False)
  try:
    n, batch = 0, cfg.get("batch", 100000)
    todo = list(range(cfg["first"], cfg["first"] + cfg["count"] * cfg["step"], cfg["step"]))
    while todo and not res["fails"]:
      lines, index, errs = [], [], {}
      while todo and len(index) < batch and len(lines) < 12000:
        if time.time() > cfg["deadline"]:
          res["late"] = bool(todo)
          todo = []
          break
        i = todo.pop(0)
        env, err = run_case(fn, base, cfg, i)
        if err: errs[i] = err
        res["cases"] += 1
        for ev in env.traces:
          index.append((len(lines), i, ev))
          lines += ev
          for e in ev:
            k = e["ev"] + ("." + e["o"] if "o" in e else "")
            if e.get("out") not in (None, "ok", "succeeded"): k += "/" + e["out"].split(":")[0]
            if e["ev"] == "fact": k = "fact." + e["what"]
            res["kinds"][k] = res["kinds"].get(k, 0) + 1
      if not index: break
      path = os.path.join(base, "trace.ndjson")
      with open(path, "w") as f:
        for e in lines: f.write(json.dumps(e) + "\n")
      try:
        fails, states = tlc.validate(path, cfg.get("spec", "TraceStore"), nlines=len(lines))
      except Exception:
        shutil.copy(path, cfg["out"] + ".trace")
        raise
      res["traces"] += len(index)
      res["events"] += len(lines)
      res["states"] += states
      if len(res["samples"]) < 1:
        k = index[-1][2]
        res["samples"].append(json.dumps(k)[:1500])
      for tr, line, clauses in fails:
        start, i, ev = [x for x in index if x[0] < line][-1]
        ctl = []
        if control:
          # does the same history fail without the feature under test as well?
          cenv, _ = run_case(fn, base, cfg, i, control=True)
          cl = [e for t in cenv.traces for e in t]
          cp = os.path.join(base, "control.ndjson")
          with open(cp, "w") as f:
            for e in cl: f.write(json.dumps(e) + "\n")
          ctl = sorted({c for x in tlc.validate(cp, cfg.get("spec", "TraceStore"))[0] for c in x[2]})
        res["fails"].append(dict(scenario=cfg["scenario"], seed=cfg["seed"], i=i, tier=cfg["tier"], trace=tr,
                                 clauses=clauses, control=ctl, event=ev[line - start - 1],
                                 error=errs.get(i, ""), events=ev[:line - start]))
        if len(res["fails"]) >= 12: break
  finally:
    if "procs" in sys.modules: sys.modules["procs"].Zygote.stop()
    shutil.rmtree(base, ignore_errors=True)
  with open(cfg["out"], "w") as f:
    json.dump(res, f)


if __name__ == "__main__":
  main()
