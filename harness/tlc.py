"""Runs TLC on the specifications of /verif/specs."""
import json, os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
  pass


def tlc(spec, cfg=None, env=None, workers=1, mem="1g", timeout=800, extra=(), jvm=()):
  meta = tempfile.mkdtemp(prefix="tlc")
  # a run must not write into /verif/specs
  cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
         "-XX:TieredStopAtLevel=1" if workers == 1 and mem == "1g" else "-XX:+TieredCompilation",
         *jvm, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
         "-config", cfg or spec + ".cfg", *extra, spec + ".tla"]
  try:
    p = subprocess.run(cmd, cwd=SPECS, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True)
  finally:
    shutil.rmtree(meta, ignore_errors=True)
  return p.returncode, p.stdout


def stats(out):
  m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
  if not m: return 0, 0
  return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def model_check(spec, cfg=None, **k):
  """Returns (generated, distinct, error text or None)."""
  rc, out = tlc(spec, cfg, **k)
  g, d = stats(out)
  if rc == 0 and "No error has been found" in out:
    return g, d, None
  return g, d, out[-6000:]


def validate(path, spec="TraceStore", nlines=None):
  """Validates an ndjson file; returns (list of (trace, line, clauses), states)."""
  rc, out = tlc(spec, env={"TRACE": path})
  done = re.search(r'<<"DONE", (\d+), (\d+)>>', out)
  if not done or done.group(1) != done.group(2):
    raise TlcError(out[-8000:])
  if nlines is not None and int(done.group(2)) != nlines:
    raise TlcError("trace not fully read: " + out[-3000:])
  fails = []
  for m in re.finditer(r'<<\s*"FAIL",\s*"([^"]*)",\s*(\d+),\s*<<(.*?)>>\s*>>', out, re.S):
    fails.append((m.group(1), int(m.group(2)), re.findall(r'"([^"]*)"', m.group(3))))
  return fails, stats(out)[0]


def write_trace(path, worlds):
  n = 0
  with open(path, "w") as f:
    for ev in worlds:
      for e in ev:
        f.write(json.dumps(e) + "\n")
        n += 1
  return n
