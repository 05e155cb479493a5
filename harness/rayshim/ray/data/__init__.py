"""ray.data: lazy datasets as a list of block producers plus row-order
preserving operators."""
import cloudpickle
import numpy as np
import pyarrow as pa

import ray
from ray.types import ObjectRef

_DEFAULT_BATCH = 1024


def _to_numpy_batch(table):
  out = {}
  for name in table.column_names:
    col = table.column(name).combine_chunks()
    if isinstance(col, pa.ChunkedArray):
      col = pa.concat_arrays(col.chunks)
    out[name] = col.to_numpy(zero_copy_only=False)
  return out


def _to_table(batch):
  if isinstance(batch, pa.Table):
    return batch
  if isinstance(batch, dict):
    cols, names = [], []
    for k, v in batch.items():
      names.append(k)
      if isinstance(v, np.ndarray) and v.dtype == object:
        v = list(v)
      cols.append(pa.array(v) if not isinstance(v, (pa.Array, pa.ChunkedArray)) else v)
    return pa.table(cols, names=names)
  raise TypeError(f"Unsupported batch {type(batch)}")


class Dataset:

  def __init__(self, tasks, ops=()):
    self._tasks = list(tasks)
    self._ops = tuple(ops)

  # -- transformations (lazy)
  def _with(self, op):
    return Dataset(self._tasks, self._ops + (op,))

  def map_batches(self, fn, batch_size="default", batch_format="numpy", **_):
    if batch_size == "default":
      batch_size = _DEFAULT_BATCH
    return self._with(("map", cloudpickle.dumps(fn), batch_size, batch_format))

  def filter(self, fn, **_):
    return self._with(("filter", cloudpickle.dumps(fn)))

  def select_columns(self, cols, **_):
    if not isinstance(cols, list):
      raise ValueError("select_columns requires a list")
    return self._with(("select", list(cols)))

  def repartition(self, num_blocks, **_):
    return self._with(("repartition", num_blocks))

  # -- execution
  def _blocks(self):
    blocks = []
    for t in self._tasks:
      for b in cloudpickle.loads(cloudpickle.dumps(t))():
        blocks.append(b)
    for op in self._ops:
      blocks = self._apply(op, blocks)
    return blocks

  @staticmethod
  def _apply(op, blocks):
    kind = op[0]
    if kind == "map":
      fn = cloudpickle.loads(op[1])
      bs, fmt = op[2], op[3]
      out = []
      for b in blocks:
        n = b.num_rows
        if n == 0:
          continue
        step = n if bs is None else bs
        for i in range(0, n, step):
          piece = b.slice(i, step)
          if fmt == "numpy":
            piece = _to_numpy_batch(piece)
          out.append(_to_table(fn(piece)))
      return out
    if kind == "filter":
      fn = cloudpickle.loads(op[1])
      out = []
      for b in blocks:
        keep = []
        for i in range(b.num_rows):
          row = {k: v[0] for k, v in b.slice(i, 1).to_pydict().items()}
          keep.append(bool(fn(row)))
        out.append(b.filter(pa.array(keep, pa.bool_())))
      return out
    if kind == "select":
      return [b.select(op[1]) for b in blocks if b.num_rows > 0]
    if kind == "repartition":
      blocks = [b for b in blocks if b.num_rows > 0]
      if not blocks:
        return []
      t = pa.concat_tables(blocks)
      k = max(1, op[1])
      bounds = [round(i * t.num_rows / k) for i in range(k + 1)]
      return [t.slice(bounds[i], bounds[i + 1] - bounds[i]) for i in range(k)]
    raise AssertionError(kind)

  def iter_batches(self, *, batch_size=256, batch_format="default",
                   drop_last=False, **_):
    for b in self._blocks():
      if batch_size is None:
        yield b if batch_format == "pyarrow" else _to_numpy_batch(b)
      else:
        for i in range(0, b.num_rows, batch_size):
          piece = b.slice(i, batch_size)
          yield piece if batch_format == "pyarrow" else _to_numpy_batch(piece)

  def count(self):
    if not self._ops:
      metas = [t.get_metadata().num_rows for t in self._tasks
               if hasattr(t, "get_metadata")]
      if len(metas) == len(self._tasks) and all(m is not None for m in metas):
        return sum(metas)
    return sum(b.num_rows for b in self._blocks())

  def take_all(self):
    return [r for b in self._blocks() for r in b.to_pylist()]

  def num_blocks(self):
    return len(self._blocks())


class _Const:

  def __init__(self, table):
    self._table = table

  def __call__(self):
    yield self._table


def read_datasource(datasource, *, parallelism=-1, ray_remote_args=None,
                    **read_args):
  reader = datasource.create_reader(**read_args)
  return Dataset(reader.get_read_tasks(parallelism))


def from_arrow_refs(refs):
  if isinstance(refs, ObjectRef):
    refs = [refs]
  tables = ray.get(list(refs))
  for t in tables:
    if not isinstance(t, pa.Table):
      raise TypeError(f"Not a block type: {t} ({type(t)})")
  return Dataset([_Const(t) for t in tables])


def from_arrow(tables):
  return Dataset([_Const(t) for t in (tables if isinstance(tables, list) else [tables])])
