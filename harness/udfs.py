"""User functions of views, and what they stand for in View.tla.

The functions work on the codes of the values, by the same description of the
stage that the specification gets.  They are closures, so that cloudpickle
stores them by value."""
import pyarrow as pa

from codec import NULL

HOOK = None  # called when a user function is about to run


def hook():
  if HOOK: HOOK()


def _typed(x, type_):
  """The values of a column of a batch, as Ray hands them out, as an array."""
  out = []
  for v in list(x):
    if hasattr(v, "item") and not isinstance(v, (bytes, str)): v = v.item()
    if v is None or v != v: v = None  # a null of a numeric column
    elif pa.types.is_integer(type_): v = min(int(v), 2**63 - 1)  # floats if there are nulls
    out.append(v)
  return pa.array(out, type_)


def keep(names, types):
  """A map that returns its input with columns in another order."""
  typed = _typed
  return lambda batch: pa.table({n: typed(batch[n], t) for n, t in zip(names, types)})


_CMP = {"gt": lambda a, b: a > b, "gte": lambda a, b: a >= b, "lt": lambda a, b: a < b,
        "lte": lambda a, b: a <= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b}


def ev(e, row):
  """True, False or None (unknown), as Ev of Rows.tla."""
  k = e["k"]
  if k in ("true", "false"): return k == "true"
  if k == "cmp":
    a, b = [row[o["x"] - 1] if o["t"] == "c" else o["x"] for o in (e["l"], e["r"])]
    return None if NULL in (a, b) else _CMP[e["op"]](a, b)
  if k == "add":
    a = row[e["c"] - 1]
    return None if a == NULL else _CMP[e["op"]](a + e["d"], e["v"])
  if k == "null": return row[e["c"] - 1] == NULL
  if k == "in": return row[e["c"] - 1] in e["vs"]
  a = ev(e["l"], row)
  if k == "not": return None if a is None else not a
  b = ev(e["r"], row)
  if k == "and": return False if False in (a, b) else None if None in (a, b) else True
  return True if True in (a, b) else None if None in (a, b) else False


def value(e, row):
  k = e["k"]
  if k == "c": return row[e["x"] - 1]
  if k == "v": return e["x"]
  if k == "if": return value(e["a"] if ev(e["p"], row) is True else e["b"], row)
  return dict(map(tuple, e["tab"])).get(row[e["x"] - 1], e["d"])


def map_fn(stage, kin, cout, tag, batch_size=None):
  """kin: names and kinds of the input fields; cout: codec of the output.

  batch_size: the greatest number of rows that the function accepts"""
  call = hook

  def fn(batch):
    call()
    if batch_size and any(len(v) > batch_size for v in batch.values()): raise ValueError("more rows than asked for")
    if sorted(batch) != sorted(n for n, _ in kin): raise KeyError("fields %s" % sorted(batch))
    cols = [[k.enc(v) for v in _typed(batch[n], k.type).to_pylist()] for n, k in kin]
    rows = []
    for row in zip(*cols):
      for t in stage["rows"]:
        if ev(t["p"], row) is True: rows.append([value(e, row) for e in t["e"]])
    return cout.table(rows)

  fn.tag = tag
  return fn


def filter_fn(stage, cin, names, tag):
  call = hook

  def fn(r):
    call()
    if sorted(r) != sorted(names): raise KeyError("fields %s" % sorted(r))
    row = []
    for n in names:
      for c in cin.of_field[n]:
        co = cin.coords[c - 1]
        if co.top == "struct":
          v = r[n]
          row.append(NULL if v is None else 1 if co.sub == "?" else co.kind.enc(v[co.sub]))
        else:
          row.append(co.kind.enc(r[n]))
    return ev(stage["p"], row) is True

  fn.tag = tag
  return fn
