"""Forks client processes that run single operations under fsshim.

Started with fsshim.so preloaded; reads paths of Unix sockets from stdin and
forks one client per line, which connects to that socket and serves it."""
import logging
logging.disable(logging.WARNING)
import ctypes, json, os, signal, socket, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.filterwarnings("ignore")
from world import World, pyver, exc
import preds as P
from space import Dataset
# whatever operations import lazily
import pyarrow.acero, pyarrow.dataset, pyarrow.fs, pyarrow.parquet, pyarrow.substrait, pyarrow.compute
from array_record.python import array_record_module

KINDS = dict(openr=1, openw=2, write=4, rename=8, mkdir=16, unlink=32)
ACTIONS = dict(none=0, kill=1, kill_after=2, fail=3, part_kill=4, part_fail=5, pause=6, fail_after=7)
MUT = sum(v for k, v in KINDS.items() if k != "openr")
ALLK = sum(KINDS.values())


class Client:

  def __init__(self, sock):
    self.sock = sock
    self.shim = ctypes.CDLL(None)
    self.shim.shim_log.restype = self.shim.shim_order.restype = ctypes.c_char_p
    self.w = None
    self.iters = {}

  def arm(self, loc, a):
    a = a or {}
    k = a.get("kinds", "all")
    k = ALLK if k == "all" else MUT if k == "mut" else sum(KINDS[x] for x in k.split(","))
    self.shim.shim_arm(loc.encode(), k, a.get("sub", "").encode(), ctypes.c_long(a.get("n", 0)),
                       ACTIONS[a.get("action", "none")], self.sock.fileno(), a.get("errno", 5))

  def run(self, m):
    c = m["c"]
    if c == "profile":
      self.w = World(os.path.dirname(m["loc"]), os.path.basename(m["loc"]), m["profile"], create=False)
      return {}
    w = self.w
    w.ev.clear()
    if c == "open":
      w.open(m["h"])
      return {"out": "ok"}
    if c == "create":
      try:
        w.create(m.get("view"))
        w.h["created"] = w._created
        return {"out": "ok"}
      except Exception as e:
        return {"out": exc(e)}
    if c == "data":
      out, upd = w.call(w.thunk(m["h"], m["spec"]))
      return {"out": out, "upd": -1000000 if upd is None or out != "succeeded" else upd.num_rows,
              "err": repr(getattr(w, "last_exc", ""))[:300] if out.startswith("other") else ""}
    if c == "ref":
      return {"out": w.do_ref(m["h"], m["what"], m["n"], m.get("id", -1))}
    if c == "read":
      w.read(m["h"], m["ver"], m.get("fields"), m["pred"], m.get("batch"), m.get("how", "read_all"))
      e = w.ev[-1]
      return {k: e[k] for k in ("out", "rows", "maxb", "cols")}
    if c == "diff":
      w.diff(m["h"], m["s"], m["e"])
      return {k: w.ev[-1][k] for k in ("out", "items")}
    raise ValueError(c)

  def serve(self):
    f = self.sock.makefile("r")
    while True:
      # unbuffered reading: the shim reads from the same socket
      line = b""
      while not line.endswith(b"\n"):
        x = self.sock.recv(1)
        if not x: os._exit(0)
        line += x
      m = json.loads(line)
      if "arm" in m: self.arm(self.w.loc, m["arm"])
      try:
        r = self.run(m)
      except Exception as e:
        import traceback
        r = {"out": "crashed", "trace": traceback.format_exc()[-1500:]}
      self.shim.shim_off()
      if "order" in m: r["order"] = [x.split("\t") for x in self.shim.shim_order().decode().splitlines()]
      if "arm" in m: r["steps"] = self.shim.shim_log().decode().splitlines()
      self.sock.sendall(json.dumps(r).encode() + b"\n")


def main():
  signal.signal(signal.SIGCHLD, signal.SIG_IGN)
  print("ready", flush=True)
  for line in sys.stdin:
    if os.fork() == 0:
      signal.signal(signal.SIGCHLD, signal.SIG_DFL)
      s = socket.socket(socket.AF_UNIX)
      s.connect(line.strip())
      Client(s).serve()
      os._exit(0)


if __name__ == "__main__":
  main()
