"""Drives real datasets and records what happens as a trace for TraceStore."""
import functools, hashlib, itertools, math, os, random, re, shutil
import pyarrow as pa
import pyarrow.parquet as pq

from codec import Codec, NULL, BAD, KINDS
import preds as P

from space import Dataset
from space.core.jobs import JobResult
from space.core.options import FileOptions, ParquetWriterOptions, ArrayRecordOptions
from space.core.ops.change_data import ChangeType
from space.core.runners import LocalRunner
from space.core.storage import Storage
from space.core.views import MaterializedView
from space.core.utils import errors

TRUE = {"k": "true"}
HEAD = {"t": "head"}


def vid(x): return {"t": "id", "x": x}
def vref(n): return {"t": "ref", "n": n}
def pyver(v): return None if v["t"] == "head" else v["x"] if v["t"] == "id" else v["n"]


def exc(e):
  return "user" if isinstance(e, errors.UserInputError) else "other:" + type(e).__name__


STATE = {JobResult.State.SUCCEEDED: "succeeded", JobResult.State.FAILED: "failed",
         JobResult.State.SKIPPED: "skipped"}


def file_options(rg=None, fb=None, ar=None):
  fo = FileOptions()
  if rg is not None: fo.parquet_options = ParquetWriterOptions(rg, fb)
  if ar is not None: fo.array_record_options = ArrayRecordOptions(max_uncompressed_file_bytes=ar)
  return fo


TINY = dict(rg=1, fb=1)  # every batch becomes a file
DEFAULT = dict()


class Lazy:
  """A column that runs a callback when the operation converts its data."""

  def __init__(self, array, cb):
    self.array, self.cb = array, cb

  def __arrow_array__(self, type=None):
    cb, self.cb = self.cb, None
    if cb: cb()
    return self.array

  def __len__(self):
    return len(self.array)


def _keep(k, row):
  return True


class World:

  def __init__(self, base, name, profile, handles=("a",), create=True, location=None, ev=None,
               tr=None):
    self.dir, self.name, self.profile = base, name, profile
    self.codec = Codec(profile)
    self.loc = location or os.path.join(base, name)
    self.ev = ev if ev is not None else []
    self.h = {}
    self.branch = {}
    self.files = {}
    self.logfeed = True   # read the change feed of every new version
    self.uniq = 0
    self.shuffle = None
    self._seen = {}
    self.tr = tr or name
    self.rt = random.Random("pieces %s %s" % (self.tr, name))
    self.emit(ev="reset", tr=self.tr, pk=self.codec.pk)
    if create:
      self.create()
      for h in handles:
        self.open(h, first=(h == handles[0]))

  def create(self, view=None):
    """Creates the dataset, or a materialized view of a chain of filters of
    the dataset view["src"], which is a dataset of the same fields."""
    if not view:
      self._created = Dataset.create(self.loc, self.codec.create_schema, list(self.profile["pk"]),
                                     list(self.profile["rec"]))
      return
    v = Dataset.load(view["src"])
    for k in range(view["n"]): v = v.filter(fn=functools.partial(_keep, k))
    self._created = v.materialize(self.loc).dataset

  def view_chain(self):
    """The numbers of the functions of the materialized view, as loaded."""
    v, out = MaterializedView.load(self.loc).view, []
    while hasattr(v, "input_"):
      out.insert(0, v.udf.fn.args[0])
      v = v.input_
    return out

  def emit(self, **ev):
    if self.branch.get(ev.get("h"), "main") != "main": ev["on"] = self.branch[ev["h"]]
    self.ev.append(ev)
    return ev

  def open(self, h, first=False):
    self.h[h] = self._created if first else Dataset.load(self.loc)
    self.branch[h] = "main"
    self.emit(ev="open", h=h)

  # ---- observation through a fresh handle
  def obs(self):
    m = Storage.load(self.loc).metadata
    kinds = {1: "tag", 2: "branch"}
    from space.core.proto import metadata_pb2 as meta
    refs = [{"n": n, "k": "tag" if r.type == meta.SnapshotReference.TAG else "branch", "id": r.snapshot_id}
            for n, r in m.refs.items()]
    snaps = [[i, s.parent_snapshot_id if s.HasField("parent_snapshot_id") else -1]
             for i, s in m.snapshots.items()]
    return {"main": m.current_snapshot_id, "refs": refs, "snaps": sorted(snaps)}

  def fresh(self):
    return Dataset.load(self.loc)

  def head(self, branch="main"):
    m = Storage.load(self.loc).metadata
    return m.current_snapshot_id if branch == "main" else m.refs[branch].snapshot_id

  def rows_at(self, version, ds=None):
    return self.codec.rows((ds or self.fresh()).local().read_all(version=version))

  def pkrows(self, t):
    return self.codec.rows(t, list(self.profile["pk"]))

  def diff_items(self, ds, s, e, batch=None, run=None):
    run = run or ds.local()
    return self.items_of(run.diff(s, e) if batch is None else run.diff(s, e, batch))

  def items_of(self, it):
    items = []
    for c in it:
      d = c.type_ == ChangeType.DELETE
      items.append({"id": c.snapshot_id, "t": "d" if d else "a",
                    "rows": self.pkrows(c.data) if d else self.codec.rows(c.data),
                    "n": c.data.num_rows})
    return items

  def new_of(self, known, obs):
    """Contents of the version that appeared, read by a fresh handle."""
    ids = sorted(i for i, _ in obs["snaps"] if i not in known)
    if not ids:
      return {"id": -1, "rows": [], "add": [], "del": [], "err": "", "log": ""}
    i = ids[-1]
    par = dict(obs["snaps"])[i]
    n = {"id": i, "rows": [], "add": [], "del": [], "err": "", "log": ""}
    ds = self.fresh()
    try:
      n["rows"] = self.rows_at(i, ds)
    except Exception as e:
      n["err"] = exc(e)
    try:
      for it in self.diff_items(ds, par, i):
        n["del" if it["t"] == "d" else "add"] += it["rows"]
    except Exception as e:
      n["log"] = exc(e)
    return n

  def known(self):
    return {i for i, _ in self.obs()["snaps"]}

  # ---- data operations
  def arrow(self, rows):
    t = self.codec.table(rows)
    if self.shuffle is not None:  # columns in another order
      names = list(t.column_names)
      self.shuffle.shuffle(names)
      t = t.select(names)
    return self.pieces(t)

  def pieces(self, t):
    """The same rows in several chunks, which are slices of one buffer in any order."""
    r = self.rt
    if t.num_rows == 0 or r.random() > .35: return t
    n = t.num_rows
    cuts = [0] + sorted(r.randint(0, n) for _ in range(r.randint(0, 3))) + [n]
    parts = [(a, b) for a, b in zip(cuts, cuts[1:])]
    order = r.sample(range(len(parts)), len(parts))
    at, base, off = {}, [], 0
    for k in order:
      if r.random() < .3:  # rows that are not of the data
        j = r.randrange(n)
        base.append(t.slice(j, 1))
        off += 1
      a, b = parts[k]
      base.append(t.slice(a, b - a))
      at[k] = off
      off += b - a
    base = pa.concat_tables(base).combine_chunks()
    return pa.concat_tables([base.slice(at[k], parts[k][1] - parts[k][0]) for k in range(len(parts))])

  def call(self, fn):
    """Returns (outcome, statistics update)."""
    try:
      r = fn()
    except Exception as e:
      self.last_exc = e
      return exc(e), None
    return STATE.get(r.state, "other"), r.storage_statistics_update

  def record(self, ev, known, h, o, rows, pred, out, upd):
    ob = self.obs()
    e = dict(ev=ev, h=h, o=o, rows=rows, pred=pred, out=out, obs=ob, new=self.new_of(known, ob),
             upd=upd.num_rows if (upd is not None and out == "succeeded") else -1000000)
    self.last_upd = ([upd.num_rows, upd.index_compressed_bytes, upd.index_uncompressed_bytes,
                      upd.record_uncompressed_bytes] if upd is not None and out == "succeeded" else [])
    self.last_new = e["new"]["id"]
    if self.profile["rec"]: e["nr"] = [i for i, c in enumerate(self.codec.coords, 1) if c.top not in ("rec", "feat")]
    return self.emit(**e)

  def runner(self, h, opts=None):
    return self.h[h].local(file_options(**opts) if opts else None)

  def reader(self, h):
    return self.h[h].local()

  def thunk(self, h, spec, runner=None, on_begin=None):
    """The call that performs a data operation described by JSON."""
    o, rows, opts = spec["o"], spec.get("rows", []), spec.get("opts")
    if o == "delete":
      run = runner or self.runner(h, opts)
      f = P.expr(self.codec, spec["pred"])
      return lambda: run.delete(f)
    if o == "load_parquet":
      return lambda: (runner or self.runner(h, opts)).append_parquet(spec["pattern"])
    if o == "load_array_record":
      return lambda: (runner or self.runner(h, opts)).append_array_record(spec["pattern"], self.index_fn(spec))
    run = runner or self.runner(h, opts)
    how = spec.get("how", "append")
    if o == "append" and how in ("append", "dict") and on_begin is None:
      t = self.arrow(rows)
      if how == "dict": t = {n: t.column(n).to_pylist() if not self.nulls(t.column(n)) else t.column(n)
                             for n in t.column_names}
      return lambda: run.append(t)
    if o == "append" and how not in ("append", "dict"):
      tables = [self.arrow(x) for x in (spec["batches"] if spec.get("batches") is not None else [rows])]

      def gen(ts, first):
        if on_begin is not None and first:
          on_begin()
        for t in ts:
          yield t

      if how == "froms" and len(tables) > 1:
        k = len(tables) // 2
        fns = [(lambda p=p, i=i: gen(p, i == 0)) for i, p in enumerate([tables[:k], tables[k:]])]
      else:
        fns = lambda: gen(tables, True)
      return lambda: run.append_from(fns)
    data = self.arrow(rows)
    if on_begin is not None:
      cols = {n: data.column(n).combine_chunks() for n in data.column_names}
      first = data.column_names[0]
      data = {n: (Lazy(c, on_begin) if n == first else c) for n, c in cols.items()}
    return lambda: {"upsert": run.upsert, "insert": run.insert, "append": run.append}[o](data)

  def nulls(self, col):
    # plain Python lists lose the type of e.g. float32 or int32 columns
    return col.type not in (pa.int64(), pa.string(), pa.binary(), pa.float64()) or col.null_count == len(col)

  def data_op(self, h, spec, runner=None, nested=None, soft=False):
    """Runs a data operation and records it.

    nested: callable run in the middle of the transaction."""
    known = self.known()
    on_begin = None
    if nested is not None:
      begun = []

      def on_begin():
        if not begun:
          begun.append(1)
          self.emit(ev="begin", h=h, soft=soft)
          nested()

    out, upd = self.call(self.thunk(h, spec, runner, on_begin))
    if nested is not None:
      known = self._known_before_commit(known)
    o = "append" if spec["o"].startswith("load") else spec["o"]
    return self.record("commit" if nested is not None else "op", known, h, o, spec.get("rows", []),
                       spec.get("pred", TRUE), out, upd)

  def append(self, h, rows, opts=None, how="append", batches=None, runner=None, nested=None):
    """how: append (one table) / dict / from (batches) / froms (several sources)."""
    return self.data_op(h, dict(o="append", rows=rows, opts=opts, how=how, batches=batches), runner, nested)

  def _known_before_commit(self, known):
    """Versions known from the events so far (nested operations included)."""
    ids = set(known)
    for e in self.ev:
      if "obs" in e:
        ids |= {i for i, _ in e["obs"]["snaps"]}
    return ids

  def upsert(self, h, rows, opts=None, runner=None, nested=None, mode="upsert"):
    return self.data_op(h, dict(o=mode, rows=rows, opts=opts), runner, nested, soft=True)

  def insert(self, h, rows, **k):
    return self.upsert(h, rows, mode="insert", **k)

  def delete(self, h, pred, opts=None, runner=None):
    return self.data_op(h, dict(o="delete", pred=pred, opts=opts), runner)

  def load_parquet(self, h, pattern, rows, runner=None):
    return self.data_op(h, dict(o="load_parquet", pattern=pattern, rows=rows), runner)

  def load_array_record(self, h, pattern, rows, runner=None, opts=None, **k):
    return self.data_op(h, dict(o="load_array_record", pattern=pattern, rows=rows, opts=opts, **k), runner)

  def index_fn(self, spec):
    """The index fields of a record, found by the bytes of the record."""
    rec = self.profile["rec"][0]
    t = self.codec.table(spec["rows"])
    byrec = {}
    for row in t.to_pylist():
      b = row.pop(rec)
      byrec[b] = row
    return lambda record: dict(byrec[record[rec][0]])

  def bad(self, h, r, only=None):
    """An operation with wrong arguments; it must not succeed nor change anything."""
    import pyarrow.compute as pc
    c, ds = self.codec, self.h[h]
    run = ds.local()
    row = [[(co.kind.domain[0] if co.sub != "?" else 1) for co in c.coords]]
    t = self.arrow(row)
    pkn = self.profile["pk"][0]
    other = [n for n in c.names if n not in self.profile["pk"]][-1]
    drop = lambda n: t.drop([n])
    wrong = lambda n: t.set_column(t.column_names.index(n), n, pa.array([[[1.5]]]))

    big = self.rt.random() < .4
    n, at = self.rt.choice([1, 2, 3, 5]), self.rt.choice([0, 1, 2, 4])
    last = self.rt.random() < .5
    bang = self.rt.choice([ZeroDivisionError, RuntimeError, ValueError, KeyError, OSError, StopIteration, NotImplementedError,
                           EOFError, AssertionError, pa.ArrowInvalid, errors.UserInputError, errors.SpaceRuntimeError])

    def gen():
      for _ in range(at):
        yield t
      raise bang("source failed")

    src = [lambda: iter([t])] * (n - 1)
    src.insert(len(src) if last else self.rt.randrange(n), gen)
    if big: run = ds.local(file_options(rg=1, fb=1, ar=1))

    cases = {
        "append-missing": lambda: run.append(drop(r.choice(c.names))),
        "append-type": lambda: run.append(wrong(r.choice(c.names))),
        "append-none": lambda: run.append(None),
        "append-source-fails": lambda: run.append_from(gen),
        "append-second-source-fails": lambda: run.append_from([lambda: iter([t]), gen]),
        "append-some-source-fails": lambda: run.append_from(src),
        "append-bad-batch": lambda: run.append_from([lambda: iter([t, 1])]),
        "upsert-missing": lambda: run.upsert(drop(r.choice(c.names))),
        "upsert-type": lambda: run.upsert(wrong(other)),
        "insert-nokey": lambda: run.insert(drop(pkn)),
        "insert-keytype": lambda: run.insert(wrong(pkn)),
        "delete-unknown": lambda: run.delete(pc.field("nope") == 1),
        "delete-none": lambda: run.delete(None),
        "load-nothing": lambda: run.append_parquet(os.path.join(self.dir, "nothing", "*.parquet")),
        "load-ar-nothing": lambda: run.append_array_record(os.path.join(self.dir, "nothing", "*.ar"), lambda x: x),
        "load-garbage": lambda: run.append_parquet(self.garbage()),
        "bad-options": lambda: ds.local(FileOptions(parquet_options=None)).append(t),
    }
    k = only or r.choice(sorted(cases))
    if only is None and self.rt.random() < .2: k = "append-some-source-fails"
    out, _ = self.call(cases[k])
    return self.emit(ev="bad", h=h, what=k, out=out, obs=self.obs())

  def garbage(self):
    p = os.path.join(self.dir, "garbage.parquet")
    with open(p, "wb") as f: f.write(b"PAR1 this is no parquet file PAR1")
    return p

  # ---- references
  def ref(self, h, what, n, id_=-1):
    out = self.do_ref(h, what, n, id_)
    return self.emit(ev=what, h=h, n=n, id=id_, out=out, obs=self.obs())

  def do_ref(self, h, what, n, id_=-1):
    ds = self.h[h]
    fn = {"add_tag": lambda: ds.add_tag(n) if id_ == -1 else ds.add_tag(n, id_),
          "add_branch": lambda: ds.add_branch(n),
          "remove_tag": lambda: ds.remove_tag(n),
          "remove_branch": lambda: ds.remove_branch(n),
          "set_branch": lambda: ds.set_current_branch(n)}[what]
    try:
      fn()
      return "ok"
    except Exception as e:
      self.last_exc = e
      return exc(e)

  def set_branch(self, h, n):
    try:
      self.h[h].set_current_branch(n)
      out = "ok"
      self.branch[h] = n
    except Exception as e:
      self.last_exc = e
      out = exc(e)
    return self.emit(ev="set_branch", h=h, n=n, out=out, obs=self.obs())

  # ---- reads
  def read(self, h, ver=HEAD, fields=None, pred=TRUE, batch=None, how="read_all", what="read.rows",
           runner=None):
    run = runner or self.reader(h)
    kw = dict(version=pyver(ver))
    if fields is not None: kw["fields"] = list(fields)
    if pred is not TRUE: kw["filter_"] = P.expr(self.codec, pred)
    if batch is not None: kw["batch_size"] = batch
    names = list(fields) if fields is not None else self.codec.names
    rows, maxb, out = [], 0, "ok"
    try:
      if how == "read_all":
        rows = self.codec.rows(run.read_all(**kw), names)
      else:
        for t in run.read(**kw):
          maxb = max(maxb, t.num_rows)
          rows += self.codec.rows(t, names) if t.num_rows else []
        rows.sort()
    except Exception as e:
      self.last_exc = e
      out = exc(e)
    return self.emit(ev="read", h=h, ver=ver, cols=self.codec.cols_of(names), pred=pred, out=out,
                     rows=rows, maxb=maxb, b=(batch or 16), what=what)

  def read_refs(self, h, ver=HEAD, fields=None, what="read.ref", batch=None, pred=TRUE, how="read_all"):
    """A reference read, with the addresses resolved to record bytes."""
    names = list(fields) if fields is not None else self.codec.names
    rows, out, maxb = [], "ok", 0
    try:
      ds = self.h[h]
      kw = dict(version=pyver(ver), reference_read=True)
      if fields is not None: kw["fields"] = list(fields)
      if pred is not TRUE: kw["filter_"] = P.expr(self.codec, pred)
      if batch is not None: kw["batch_size"] = batch
      if how == "read_all":
        rows = self.codec.rows(self.resolve(ds, self.reader(h).read_all(**kw)), names)
      else:
        for t in self.reader(h).read(**kw):
          maxb = max(maxb, t.num_rows)
          rows += self.codec.rows(self.resolve(ds, t), names) if t.num_rows else []
        rows.sort()
    except Exception as e:
      self.last_exc = e
      out = exc(e)
    return self.emit(ev="read", h=h, ver=ver, cols=self.codec.cols_of(names), pred=pred, out=out,
                     rows=rows, maxb=maxb, b=(batch or 16), what=what)

  def resolve(self, ds, t):
    """Replaces address columns by the record bytes they refer to."""
    if t is None: return None
    for n in [c for c in t.column_names if c in self.profile["rec"]]:
      vals = []
      for a in t.column(n).to_pylist():
        if not isinstance(a, dict) or len(a) != 2:
          vals.append(b"bad")
          continue
        path, row = list(a.values())
        recs = self.record_file(ds.storage.full_path(path))
        vals.append(recs[row] if 0 <= row < len(recs) else b"bad")
      t = t.set_column(t.column_names.index(n), n, pa.array(vals, pa.binary()))
    return t

  def record_file(self, path):
    from array_record.python import array_record_module as ar
    r = ar.ArrayRecordReader(path)
    try:
      return r.read_all() if r.num_records() else []
    finally:
      r.close()

  def read_open(self, h, it, ver=HEAD, pred=TRUE, fields=None):
    kw = dict(version=pyver(ver))
    if pred is not TRUE: kw["filter_"] = P.expr(self.codec, pred)
    if fields is not None: kw["fields"] = list(fields)
    names = list(fields) if fields is not None else self.codec.names
    try:
      self.files[it] = (self.reader(h).read(**kw), names)
      out = "ok"
    except Exception as e:
      self.last_exc = e
      out = exc(e)
    return self.emit(ev="read_open", h=h, it=it, ver=ver, cols=self.codec.cols_of(names), pred=pred, out=out)

  def read_close(self, it):
    rows, out = [], "ok"
    g, names = self.files.pop(it)
    try:
      for t in g:
        rows += self.codec.rows(t, names) if t.num_rows else []
    except Exception as e:
      self.last_exc = e
      out = exc(e)
    return self.emit(ev="read_close", it=it, rows=sorted(rows), out=out)

  def diff_open(self, h, it, s, e, batch=None):
    """A change feed that is consumed later on."""
    out, run = "ok", self.reader(h)
    try:
      self.files[it] = run.diff(pyver(s), pyver(e)) if batch is None else run.diff(pyver(s), pyver(e), batch)
      if not isinstance(run, LocalRunner):
        # that of Ray starts when it is consumed
        self.files[it] = itertools.chain(list(itertools.islice(self.files[it], 1)), self.files[it])
    except Exception as x:
      self.last_exc = x
      out = exc(x)
    return self.emit(ev="diff_open", h=h, it=it, s=s, e=e, out=out)

  def diff_close(self, it):
    items, out = [], "ok"
    try:
      items = self.items_of(self.files.pop(it))
    except Exception as x:
      self.last_exc = x
      items, out = [], exc(x)
    return self.emit(ev="diff_close", it=it, out=out, items=items)

  def diff(self, h, s, e, batch=None):
    items, out = [], "ok"
    try:
      items = self.diff_items(self.h[h], pyver(s), pyver(e), batch, self.reader(h))
    except Exception as x:
      self.last_exc = x
      out = exc(x)
    return self.emit(ev="diff", h=h, s=s, e=e, out=out, items=items)

  def versions(self, h):
    rows = []
    try:
      t = self.h[h].versions()
      rows = [[i, r or ""] for i, r in zip(t.column("snapshot_id").to_pylist(),
                                           t.column("tag_or_branch").to_pylist())]
    except Exception as e:
      rows = [[-1, exc(e)]]
    return self.emit(ev="versions", h=h, rows=sorted(rows))

  # ---- physical layout
  def _pid(self, p):
    return self._seen.setdefault(p, len(self._seen) + 1)

  def layout(self, id_, upd=()):
    from space.core.schema import constants as K
    from space.core.schema.utils import stats_field_name
    ds = self.fresh()
    s = ds.storage
    snap = s.metadata.snapshots[id_]
    t = snap.storage_statistics
    fid = {f.name: int(f.metadata[b"PARQUET:field_id"]) for f in s.physical_schema}
    files, addrs = [], []
    recs, cache = [], {}

    def real(path):
      if path not in cache:
        try:
          cache[path] = self.record_file(s.full_path(path))
        except Exception:
          cache[path] = []
      return cache[path]

    for mt in s.record_manifest(snapshot_id=id_):
      for r in mt.to_pylist():
        p = r[K.FILE_PATH_FIELD]
        f = [n for n, i in fid.items() if i == r[K.FIELD_ID_FIELD]]
        recs.append({"p": self._pid(p), "c": self.codec.of_field[f[0]][0] if f else 0,
                     "n": r[K.NUM_ROWS_FIELD], "real": len(real(p)), "b": r[K.UNCOMPRESSED_BYTES_FIELD]})
    for mt in s.index_manifest(snapshot_id=id_):
      for r in mt.to_pylist():
        p = r[K.FILE_PATH_FIELD]
        data = pq.read_table(s.full_path(p))
        mins, maxs, unk = [], [], []
        for k, c in zip(self.profile["pk"], self.codec.pk):
          st = r[stats_field_name(fid[k])]
          kind = self.codec.coords[c - 1].kind
          lo, hi = (st[K.MIN_FIELD], st[K.MAX_FIELD]) if st else (None, None)
          mins.append(kind.enc(lo))
          maxs.append(kind.enc(hi))
          vals = data.column(k).to_pylist()
          # the Parquet library keeps no (exact) statistics of such files
          unk.append(any(isinstance(v, (str, bytes)) and len(v) > 4000 or
                         isinstance(v, float) and not math.isfinite(v) for v in vals))
        ext = os.path.isabs(p)
        if ext:  # external files may have no statistics
          md = pq.read_metadata(p)
          ci = {md.schema.column(i).path: i for i in range(md.num_columns)}
          for j, k in enumerate(self.profile["pk"]):
            for g in range(md.num_row_groups):
              stt = md.row_group(g).column(ci[k]).statistics
              unk[j] |= stt is None or (stt.num_values > 0 and not stt.has_min_max)
        seen = set()
        for n in self.profile["rec"]:
          for a in data.column(n).to_pylist():
            path, row = list(a.values())
            if (path, row) in seen: continue
            seen.add((path, row))
            addrs.append({"p": self._pid(path), "c": self.codec.of_field[n][0], "row": row,
                          "ext": os.path.isabs(path), "real": len(real(path))})
        files.append({"p": self._pid(p), "ext": ext, "n": r[K.NUM_ROWS_FIELD], "cb": r[K.INDEX_COMPRESSED_BYTES_FIELD],
                      "ib": r[K.INDEX_UNCOMPRESSED_BYTES_FIELD], "mins": mins, "maxs": maxs, "unk": unk,
                      "rows": self.codec.rows(self.resolve_cached(data, real))})
    idx = []
    for p in ds.index_files(version=id_):
      rel = os.path.relpath(p, self.loc)
      idx.append(self._seen.get(p) or self._seen.get(rel) or 0)
    return self.emit(ev="layout", id=id_, files=files, recs=recs, addrs=addrs, idx=idx,
                     tot=[t.num_rows, t.index_compressed_bytes, t.index_uncompressed_bytes,
                          t.record_uncompressed_bytes], upd=list(upd))

  def resolve_cached(self, t, real):
    for n in [c for c in t.column_names if c in self.profile["rec"]]:
      vals = []
      for a in t.column(n).to_pylist():
        path, row = list(a.values())
        recs = real(path)
        vals.append(recs[row] if 0 <= row < len(recs) else b"bad")
      t = t.set_column(t.column_names.index(n), n, pa.array(vals, pa.binary()))
    return t

  # ---- files are written once
  def referenced(self):
    """Files the current metadata refers to, by any version."""
    s = Storage.load(self.loc)
    from space.core.schema import constants as K
    if not hasattr(self, "_man"):
      self._man, self._metas = {}, set()
    refs = set()
    with open(os.path.join(self.loc, "metadata", "entrypoint.txtpb")) as f:
      self._metas |= set(re.findall(r'"(.*)"', f.read()))
    refs |= self._metas
    refs |= set(s.metadata.logical_plan.udfs.values())
    for sn in s.metadata.snapshots.values():
      if sn.change_log_file: refs.add(sn.change_log_file)
      mf = list(sn.manifest_files.index_manifest_files) + list(sn.manifest_files.record_manifest_files)
      for m in mf:
        refs.add(m)
        if m not in self._man:
          self._man[m] = pq.read_table(s.full_path(m), columns=[K.FILE_PATH_FIELD]).column(0).to_pylist()
        refs |= set(self._man[m])
    return {p for p in refs}

  def check_files(self, what="files.immutable"):
    """Files that versions refer to are there and are never changed."""
    def digest(p):
      p = p if os.path.isabs(p) else os.path.join(self.loc, p)
      if not os.path.exists(p): return "missing"
      with open(p, "rb") as f: return hashlib.md5(f.read()).hexdigest()

    old = getattr(self, "_hashes", {})
    now = {p: digest(p) for p in self.referenced() | set(old)}
    ok = "missing" not in now.values() and all(now[p] == h for p, h in old.items())
    self._hashes = now
    return self.emit(ev="fact", what=what, ok=ok)

  def close(self):
    shutil.rmtree(self.loc, ignore_errors=True)
