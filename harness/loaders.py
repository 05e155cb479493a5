"""External files to be loaded into datasets."""
import os
import pyarrow.parquet as pq
from array_record.python import array_record_module as ar


def write_parquet(codec, d, tables, row_group=None, nested=False, prefix="f", order=None, **opts):
  """Writes one file per list of rows; returns the paths."""
  os.makedirs(d, exist_ok=True)
  out = []
  for i, rows in enumerate(tables):
    sub = os.path.join(d, "s%d" % (i % 2)) if nested else d
    os.makedirs(sub, exist_ok=True)
    p = os.path.join(sub, "%s%d.parquet" % (prefix, i))
    t = codec.table(rows)
    if order: t = t.select(order)
    pq.write_table(t, p, **({"row_group_size": row_group} if row_group else {}), **opts)
    out.append(p)
  return out


def write_array_record(codec, rec, d, tables, nested=False, prefix="f", group=1):
  """Writes the records of the rows; returns the paths."""
  os.makedirs(d, exist_ok=True)
  out = []
  for i, rows in enumerate(tables):
    sub = os.path.join(d, "s%d" % (i % 2)) if nested else d
    os.makedirs(sub, exist_ok=True)
    p = os.path.join(sub, "%s%d.array_record" % (prefix, i))
    w = ar.ArrayRecordWriter(p, options="group_size:%d" % group)
    for b in codec.table(rows).column(rec).to_pylist(): w.write(b)
    w.close()
    out.append(p)
  return out
