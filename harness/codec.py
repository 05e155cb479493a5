"""Order preserving codes between Arrow values and the integers of Rows.tla."""
import math
import pyarrow as pa

NULL = -999
BAD = 999999  # a value that was never written

# Parquet writers drop statistics of such long values.  They are not mixed with
# short ones: Arrow 16 itself loses rows in filtered reads of files where only
# one of minimum and maximum was dropped.
LONGS = [c * 5000 for c in "DLabcdefghijklmnoz"]
STRS = sorted(["", "A", "B", "a", "a b", "a\x00", "aa", "ab", "b", "ba", "c", "ca", "d",
               "e", "f", "g", "h", "k", "m", "n", "p", "q", "r", "s", "t", "u", "z", "~",
               "\u00e9", "\u65e5\u672c", "\U0001F600"], key=lambda s: s.encode())
BINS = sorted([b"", b"\x00", b"\x01", b"0", b"A", b"B", b"a", b"a\x00", b"aa", b"b", b"ba", b"c",
               b"d", b"e", b"f", b"g", b"h", b"k", b"m", b"n", b"p", b"q", b"r", b"s", b"t",
               b"z", b"\x7f", b"\x80", b"\xfe\xff", b"\xff"])
LISTS = [[], [0], [1], [1, 2], [2, 1], [None], [1, None], [3, 3, 3], [5] * 9, [7, 8]]
SLISTS = [[], [{"p": 1, "q": "x"}], [{"p": None, "q": "y"}, {"p": 2, "q": None}], [{"p": 3, "q": ""}] * 3]
INT_EXT = {"i64": (-2**63, 2**63 - 1), "i32": (-2**31, 2**31 - 1)}
XMIN, XMAX, NANC = -500000, 500000, 500001


def rec_bytes(n):
  """The record content with number n; lengths vary, content is unique."""
  return b"r%d|" % n + b"x" * ((n * 37) % 90)


class Kind:
  """A leaf (or opaque) type with its codes."""

  def __init__(self, name, type_, enc, dec, domain, ordered=True):
    self.name, self.type, self.enc, self.dec = name, type_, enc, dec
    self.domain = domain  # codes for random choice, in order
    self.ordered = ordered
    self.schema_type = type_  # the type in the schema of a dataset


def _int_kind(name, type_):
  lo, hi = INT_EXT[name]

  def enc(v):
    if v is None: return NULL
    if v == lo: return XMIN
    if v == hi: return XMAX
    if isinstance(v, int) and -100000 <= v <= 400000 and v != NULL: return v
    return BAD

  def dec(c):
    return None if c == NULL else lo if c == XMIN else hi if c == XMAX else c

  return Kind(name, type_, enc, dec, list(range(-3, 25)) + [XMIN, XMAX])


def _float_kind(name, type_):

  def enc(v):
    if v is None: return NULL
    if math.isnan(v): return NANC
    if v == math.inf: return XMAX
    if v == -math.inf: return XMIN
    c = v * 2
    return BAD if not math.isfinite(c) else int(c) if c == int(c) and abs(c) < 400000 and c != NULL else BAD

  def dec(c):
    return (None if c == NULL else math.nan if c == NANC else math.inf if c == XMAX else
            -math.inf if c == XMIN else c / 2)

  return Kind(name, type_, enc, dec, list(range(-4, 22)) + [XMIN, XMAX])


def _table_kind(name, type_, values, ordered=True):
  ix = {repr(v): i for i, v in enumerate(values)}

  def enc(v):
    return NULL if v is None else ix.get(repr(v), BAD)

  def dec(c):
    return None if c == NULL else values[c]

  return Kind(name, type_, enc, dec, list(range(len(values))), ordered)


def _rec_kind():

  def enc(v):
    if v is None: return NULL
    try:
      n = int(v[1:v.index(b"|")])
      return n if rec_bytes(n) == v else BAD
    except (ValueError, TypeError):
      return BAD

  return Kind("rec", pa.binary(), enc, lambda c: rec_bytes(c), list(range(50)), False)


KINDS = {
    "i64": _int_kind("i64", pa.int64()),
    "i32": _int_kind("i32", pa.int32()),
    "f64": _float_kind("f64", pa.float64()),
    "f32": _float_kind("f32", pa.float32()),
    "bool": _table_kind("bool", pa.bool_(), [False, True]),
    "str": _table_kind("str", pa.string(), STRS),
    "lstr": _table_kind("lstr", pa.string(), LONGS),
    "bin": _table_kind("bin", pa.binary(), BINS),
    "list": _table_kind("list", pa.list_(pa.int64()), LISTS, False),
    "slist": _table_kind("slist", pa.list_(pa.struct([("p", pa.int64()), ("q", pa.string())])), SLISTS, False),
    "rec": _rec_kind(),
}


class _Feature(Kind):
  """Record fields with a TensorFlow feature specification."""

  def __init__(self):
    super().__init__("feat", pa.binary(), self._enc, self._dec, list(range(50)), False)
    self.cache, self.ser = {}, None

  def serializer(self):
    if self.ser is None:
      import numpy as np
      from space import TfFeatures
      from tensorflow_datasets import features as f
      self.ser = TfFeatures(f.FeaturesDict({"n": np.int64, "s": f.Sequence({"x": np.int64}), "t": f.Text()}))
    return self.ser

  @property
  def schema_type(self):
    return self.serializer()

  @schema_type.setter
  def schema_type(self, t):
    pass

  def _dec(self, c):
    if c == NULL: return None
    if c not in self.cache:
      self.cache[c] = self.serializer().serialize({"n": c, "s": [{"x": j} for j in range(c % 4)], "t": "t%d" % c})
    return self.cache[c]

  def _enc(self, v):
    if v is None: return NULL
    if not isinstance(v, bytes): return BAD
    try:
      return self.of_value(self.serializer().deserialize(v))
    except Exception:
      return BAD

  def of_value(self, d):
    """The code of a deserialized value."""
    try:
      c = int(d["n"])
      ok = sorted(d) == ["n", "s", "t"] and d["t"] == b"t%d" % c and list(d["s"]["x"]) == list(range(c % 4))
      return c if ok else BAD
    except Exception:
      return BAD


KINDS["feat"] = _Feature()
STRUCT = [("a", "i64"), ("b", "str")]  # the sub-fields of kind "struct"


class Coord:
  """One column of a row in Rows.tla: a field, a struct sub-field or the
  validity of a struct."""

  def __init__(self, field, sub, kind, top):
    self.field, self.sub, self.kind, self.top = field, sub, kind, top
    self.path = (field,) if sub in (None, "?") else (field, sub)


class Codec:
  """Codes for the rows of one schema profile.

  profile: dict(fields=[(name, kind)], pk=[...], rec=[...])
  """

  def __init__(self, profile):
    self.profile = profile
    self.coords, self.of_field = [], {}
    arrow = []
    for name, kind in profile["fields"]:
      start = len(self.coords)
      if kind == "struct":
        self.coords.append(Coord(name, "?", KINDS["bool"], kind))
        for sub, k in STRUCT:
          self.coords.append(Coord(name, sub, KINDS[k], kind))
        arrow.append(pa.field(name, pa.struct([(s, KINDS[k].type) for s, k in STRUCT])))
      else:
        self.coords.append(Coord(name, None, KINDS[kind], kind))
        arrow.append(pa.field(name, KINDS[kind].type))
      self.of_field[name] = list(range(start + 1, len(self.coords) + 1))  # 1-based
    self.schema = pa.schema(arrow)
    self.create_schema = pa.schema([pa.field(n, KINDS[k].schema_type) if k in KINDS else self.schema.field(n)
                                    for n, k in profile["fields"]])
    self.pk = [self.of_field[k][0] for k in profile["pk"]]
    self.names = [n for n, _ in profile["fields"]]

  def cols_of(self, names):
    return [c for n in names for c in self.of_field[n]]

  # rows of codes -> Arrow
  def table(self, rows, names=None):
    names = names or self.names
    arrays = []
    for n in names:
      ix = self.of_field[n]
      if dict(self.profile["fields"])[n] == "struct":
        vals = [None if r[ix[0] - 1] == NULL else {
            s: KINDS[k].dec(r[ix[1 + j] - 1]) for j, (s, k) in enumerate(STRUCT)
        } for r in rows]
      else:
        k = self.coords[ix[0] - 1].kind
        vals = [k.dec(r[ix[0] - 1]) for r in rows]
      arrays.append(pa.array(vals, self.schema.field(n).type))
    return pa.Table.from_arrays(arrays, schema=pa.schema([self.schema.field(n) for n in names]))

  # Arrow -> rows of codes; the fields given by names, in that order
  def rows(self, table, names=None):
    names = self.names if names is None else names
    if table is None:
      return []
    if sorted(table.column_names) != sorted(names):
      return [[BAD] * len(self.cols_of(names))] * max(1, table.num_rows)
    cols = []
    for n in names:
      vals = table.column(n).to_pylist()
      if dict(self.profile["fields"])[n] == "struct":
        cols.append([NULL if v is None else 1 for v in vals])
        for s, k in STRUCT:
          cols.append([NULL if v is None else KINDS[k].enc(v[s]) for v in vals])
      else:
        k = self.coords[self.of_field[n][0] - 1].kind
        t = table.column(n).type
        if t != k.type and not pa.types.is_struct(t):
          cols.append([BAD] * len(vals))
        else:
          cols.append([k.enc(v) for v in vals])
    return sorted(list(r) for r in zip(*cols))
