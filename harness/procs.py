"""Client processes of the harness and datasets operated through them."""
import json, os, select, shutil, socket, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = os.path.join(os.path.dirname(HERE), "build", "fsshim.so")


def build_shim():
  src = os.path.join(HERE, "fsshim.c")
  if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src): return
  os.makedirs(os.path.dirname(SHIM), exist_ok=True)
  tmp = "%s.%d" % (SHIM, os.getpid())
  subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], check=True)
  os.replace(tmp, SHIM)


class Zygote:
  one = None

  def __init__(self):
    build_shim()
    self.dir = tempfile.mkdtemp(prefix="zy")
    self.path = os.path.join(self.dir, "s")
    self.srv = socket.socket(socket.AF_UNIX)
    self.srv.bind(self.path)
    self.srv.listen(8)
    self.p = subprocess.Popen([sys.executable, os.path.join(HERE, "zygote.py")],
                              env={**os.environ, "LD_PRELOAD": SHIM, "ARROW_IO_THREADS": "1", "OMP_NUM_THREADS": "1"},
                              stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    assert self.p.stdout.readline().strip() == "ready"

  @classmethod
  def get(cls):
    if cls.one is None: cls.one = cls()
    return cls.one

  @classmethod
  def stop(cls):
    if cls.one is not None:
      cls.one.p.stdin.close()
      cls.one.p.wait()
      cls.one.srv.close()
      shutil.rmtree(cls.one.dir, ignore_errors=True)
      cls.one = None

  def spawn(self):
    self.p.stdin.write(self.path + "\n")
    self.p.stdin.flush()
    self.srv.settimeout(60)
    return self.srv.accept()[0]


class Dead(Exception):
  pass


class Client:
  """A client process with its own handles of one dataset."""

  def __init__(self, loc, profile):
    self.s = Zygote.get().spawn()
    self.buf = b""
    self.call(c="profile", loc=loc, profile=profile)

  def start(self, **m):
    self.s.sendall(json.dumps(m).encode() + b"\n")

  def wait(self, timeout=120):
    """The next message: a pause or a result; None if the process died."""
    while b"\n" not in self.buf:
      r, _, _ = select.select([self.s], [], [], timeout)
      if not r: raise TimeoutError("client does not answer")
      try:
        x = self.s.recv(1 << 16)
      except ConnectionResetError:
        x = b""
      if not x: return None
      self.buf += x
    line, self.buf = self.buf.split(b"\n", 1)
    return json.loads(line)

  def resume(self, n=0):
    """Goes on after a pause, until the nth step from there (0: to the end)."""
    self.s.sendall(b"%d\n" % n)

  def call(self, **m):
    self.start(**m)
    r = self.wait()
    if r is None: raise Dead()
    if r.get("out") == "crashed": raise RuntimeError("client: " + r["trace"])
    return r

  def close(self):
    self.s.close()
