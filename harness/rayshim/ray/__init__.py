"""A single-process stand-in for the part of Ray that google/space uses.

Ray itself is not installable here.  The stand-in keeps what matters for the
semantics of space's Ray code: every argument and result of a remote call is
serialised with cloudpickle (so tasks and actors see copies, never shared
objects), actors keep state between calls, task errors surface at `get`, and
datasets are lazy lists of read tasks.  Tasks run at `.remote()` time in the
order they are submitted; `SHIM_TASK_ORDER` (a callable) may be installed by a
harness to execute the tasks of one `get` in another order.
"""
import cloudpickle

from ray import types as _types
from ray.types import ObjectRef

# When set to a list, remote *functions* are deferred until `get` and executed
# in the order returned by this callable (a permutation of range(n)).
SHIM_TASK_ORDER = None


def _copy(x):
  return cloudpickle.loads(cloudpickle.dumps(x))


def _resolve(x):
  return get(x) if isinstance(x, ObjectRef) else x


def _submit(fn, args, kwargs, deferred):
  args = tuple(_resolve(a) for a in args)
  kwargs = {k: _resolve(v) for k, v in kwargs.items()}
  payload = cloudpickle.dumps((args, kwargs))
  ref = ObjectRef()

  def run():
    if ref.done:
      return
    a, k = cloudpickle.loads(payload)
    try:
      ref.value = cloudpickle.dumps(fn(*a, **k))
    except BaseException as e:  # surfaces at get()
      ref.error = e
    ref.done = True

  ref.run = run
  if not deferred:
    run()
  return ref


class RemoteFunction:

  def __init__(self, fn):
    self._fn = fn
    self.__name__ = getattr(fn, "__name__", "remote")

  def options(self, **_):
    return self

  def remote(self, *args, **kwargs):
    return _submit(self._fn, args, kwargs, SHIM_TASK_ORDER is not None)

  def __call__(self, *a, **k):
    raise TypeError("Remote functions cannot be called directly")


class _ActorMethod:

  def __init__(self, bound):
    self._bound = bound

  def options(self, **_):
    return self

  def remote(self, *args, **kwargs):
    return _submit(self._bound, args, kwargs, False)


class _ActorHandle:

  def __init__(self, cls, args, kwargs):
    args, kwargs = _copy((args, kwargs))
    self._obj = cls(*args, **kwargs)

  def __getattr__(self, name):
    if name.startswith("_"):
      raise AttributeError(name)
    return _ActorMethod(getattr(self._obj, name))


class RemoteClass:

  def __init__(self, cls):
    self._cls = cls

  def options(self, **_):
    return self

  def remote(self, *args, **kwargs):
    return _ActorHandle(self._cls, args, kwargs)


def remote(*args, **_):
  def wrap(x):
    return RemoteClass(x) if isinstance(x, type) else RemoteFunction(x)
  if len(args) == 1 and callable(args[0]):
    return wrap(args[0])
  return wrap


def get(refs, timeout=None):
  single = isinstance(refs, ObjectRef)
  rs = [refs] if single else list(refs)
  order = list(range(len(rs)))
  if SHIM_TASK_ORDER is not None:
    order = SHIM_TASK_ORDER(len(rs))
  for i in order:
    rs[i].run()
  out = []
  for r in rs:
    if r.error is not None:
      raise r.error
    out.append(cloudpickle.loads(r.value))
  return out[0] if single else out


def put(x):
  ref = ObjectRef()
  ref.value = cloudpickle.dumps(x)
  ref.done = True
  ref.run = lambda: None
  return ref


def init(*_, **__):
  return None


def is_initialized():
  return True


def shutdown():
  return None


from ray import data  # noqa: E402,F401
