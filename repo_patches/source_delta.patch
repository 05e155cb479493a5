From 6a1de046e8f23c387d2b42630ffdf2f8283ab343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 01/31] fix: reload storage before adding or removing a tag or
 branch

A handle with stale metadata overwrote, and so lost, the commits made by
other handles since it was loaded.
---
 python/src/space/core/storage.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 7eb32fa..924d450 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -257,6 +257,9 @@ class Storage(paths.StoragePathsMixin):
                      ref_type: meta.SnapshotReference.ReferenceType.ValueType,
                      snapshot_id: Optional[int] = None) -> None:
     """Add reference to a snapshot"""
+    # Never overwrite the changes committed by other writers.
+    self.reload()
+
     if snapshot_id is None:
       snapshot_id = self._metadata.current_snapshot_id
 
@@ -298,6 +301,9 @@ class Storage(paths.StoragePathsMixin):
   def _remove_reference(
       self, ref_name: str,
       ref_type: meta.SnapshotReference.ReferenceType.ValueType) -> None:
+    # Never overwrite the changes committed by other writers.
+    self.reload()
+
     if (ref_name not in self._metadata.refs or
         self._metadata.refs[ref_name].type != ref_type):
       raise errors.VersionNotFoundError(
-- 
2.43.0


From 10118516c147a22b47a5f3d5cbb13a172401099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 02/31] fix: never reuse the ID of an existing snapshot

The snapshots only reachable from a removed branch or tag were not counted,
so a new commit overwrote them.
---
 python/src/space/core/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 924d450..e0299c9 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -86,7 +86,7 @@ class Storage(paths.StoragePathsMixin):
     self._primary_keys = set(self._metadata.schema.primary_keys)
     self._current_branch = current_branch or _MAIN_BRANCH
     self._max_snapshot_id = max(
-        [ref.snapshot_id for ref in self._metadata.refs.values()] +
+        list(self._metadata.snapshots) +
         [self._metadata.current_snapshot_id])
 
   @property
-- 
2.43.0


From c6f1440a8929ad176e25d225645e7148589a1f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 03/31] fix: keep unmodified files of a manifest when delete
 reinserts no rows

The carried over manifest was dropped from the patch when all rows of the
modified files are deleted, losing the other files in the same manifest.
---
 python/src/space/core/ops/append.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 6672323..1a35254 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -152,7 +152,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
       self._patch.addition.record_manifest_files.append(
           self.short_path(record_manifest_path))
 
-    if self._patch.storage_statistics_update.num_rows == 0:
+    # Index manifests may only contain external data (carried over files).
+    if (self._patch.storage_statistics_update.num_rows == 0 and
+        not self._patch.addition.index_manifest_files):
       return None
 
     return self._patch
-- 
2.43.0


From 416ae461641218f2f862d5af2fbba94dbf6fb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 04/31] fix: do not delete rows when the filter evaluates to
 null

---
 python/src/space/core/ops/delete.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 18a2be1..2d92de4 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -74,7 +74,8 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
 
     self._file_set = file_set
     # Rows not matching not filter will be reinserted.
-    self._reinsert_filter = ~filter_
+    # A row is not matched when the filter evaluates to null.
+    self._reinsert_filter = ~pc.coalesce(filter_, pc.scalar(False))
 
     self._append_op = LocalAppendOp(location,
                                     metadata,
-- 
2.43.0


From 5bbce26601e19d43980cf693d28614dd32ed60c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 05/31] fix: skip manifest pruning for filters that it does not
 support

Reading with e.g. isin, starts_with, a float literal on an integer primary key
or a null literal raised an error instead of reading without pruning.
---
 .../core/manifests/falsifiable_filters.py     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index ffb8e14..b1e566e 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -27,6 +27,7 @@ from absl import logging  # type: ignore[import-untyped]
 import pyarrow as pa
 import pyarrow.compute as pc
 import pyarrow.substrait as ps
+from google.protobuf.message import DecodeError
 from substrait.algebra_pb2 import Expression
 from substrait.extensions.extensions_pb2 import SimpleExtensionDeclaration
 from substrait.extended_expression_pb2 import ExtendedExpression
@@ -59,9 +60,8 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   Returns:
     Falsifiable filter, or None if not supported.
   """
-  expr = _substrait_expr(schema, filter_)
-
   try:
+    expr = _substrait_expr(schema, filter_)
     ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
@@ -82,11 +82,15 @@ def _substrait_expr(schema: pa.Schema,
   PyArrow does not expose enough methods for processing expressions, thus we
   convert it to Substrait format for processing.
   """
-  buf = ps.serialize_expressions(  # type: ignore[attr-defined]
-      [arrow_expr], ["expr"], schema)
-
   expr = ExtendedExpression()
-  expr.ParseFromString(buf.to_pybytes())
+  try:
+    buf = ps.serialize_expressions(  # type: ignore[attr-defined]
+        [arrow_expr], ["expr"], schema)
+    expr.ParseFromString(buf.to_pybytes())
+  except (pa.ArrowException, DecodeError) as e:
+    raise _ExpressionException(
+        f"Fail to convert expression to Substrait: {e}") from None
+
   return expr
 
 
@@ -123,6 +127,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
       raise _ExpressionException(
           f"Single arg expression is not supported: {expr}")
 
+    raise _ExpressionException(f"Expression is not supported: {expr}")
+
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
                                   base_schema, primary_keys, field_name_ids)
   min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
@@ -290,6 +296,9 @@ def _falsifiable_condition_field_literal(
 
 
 def _value(v: Expression):
+  if v.literal.HasField("null"):
+    raise _ExpressionException("Null literal is not supported")
+
   return pc.scalar(
       getattr(v.literal,
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
-- 
2.43.0


From ca35a26a2b4df4305a7c90eb5ebb295180c64512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 06/31] fix: resolve filter fields by top level index in
 manifest pruning

Substrait names include nested field names, so filters on a field after a
struct field were pruned by the statistics of a wrong field, or failed.
---
 .../core/manifests/falsifiable_filters.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index b1e566e..6b8e311 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -31,7 +31,6 @@ from google.protobuf.message import DecodeError
 from substrait.algebra_pb2 import Expression
 from substrait.extensions.extensions_pb2 import SimpleExtensionDeclaration
 from substrait.extended_expression_pb2 import ExtendedExpression
-from substrait.type_pb2 import NamedStruct
 
 from space.core.schema import utils as schema_utils
 from space.core.schema import constants
@@ -62,7 +61,7 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   """
   try:
     expr = _substrait_expr(schema, filter_)
-    ff = _falsifiable_filter(expr, primary_keys, field_name_ids)
+    ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
@@ -99,7 +98,7 @@ class _ExpressionException(Exception):
 
 
 def _falsifiable_filter(
-    filter_: ExtendedExpression, primary_keys: Set[str],
+    filter_: ExtendedExpression, field_names: List[str], primary_keys: Set[str],
     field_name_ids: Dict[str, int]) -> Optional[pc.Expression]:
   if len(filter_.referred_expr) != 1:
     raise _ExpressionException(
@@ -107,7 +106,7 @@ def _falsifiable_filter(
 
   return _falsifiable_filter_internal(
       filter_.extensions,  # type: ignore[arg-type]
-      filter_.base_schema,
+      field_names,
       primary_keys,
       field_name_ids,
       filter_.referred_expr[0].expression)
@@ -115,7 +114,7 @@ def _falsifiable_filter(
 
 # pylint: disable=too-many-locals,too-many-return-statements,too-many-branches,too-many-statements
 def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
-                                 base_schema: NamedStruct,
+                                 field_names: List[str],
                                  primary_keys: Set[str],
                                  field_name_ids: Dict[str, int],
                                  expr: Expression) -> Optional[pc.Expression]:
@@ -130,8 +129,8 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
     raise _ExpressionException(f"Expression is not supported: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
-                                  base_schema, primary_keys, field_name_ids)
-  min_max_fn = partial(_min_max, base_schema, primary_keys, field_name_ids)
+                                  field_names, primary_keys, field_name_ids)
+  min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
@@ -304,10 +303,11 @@ def _value(v: Expression):
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
 
 
-def _min_max(base_schema, primary_keys, field_name_ids,
+def _min_max(field_names, primary_keys, field_name_ids,
              v: Expression) -> Tuple[pc.Expression, pc.Expression, bool]:
+  # The field index counts top level fields only.
   field_index = v.selection.direct_reference.struct_field.field
-  field_name = base_schema.names[field_index]
+  field_name = field_names[field_index]
   field_id = field_name_ids[field_name]
 
   # Only primary key supports falsifiable filter because of column stats.
-- 
2.43.0


From 82f7636f1b9bb36815de9486cac195ea02b15a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 07/31] fix: collect column statistics of the right Parquet
 column

A primary key after a nested field got the statistics of another column, so
filters pruned files that have matching rows.
---
 python/src/space/core/manifests/index.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 12fdb98..288fa71 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -129,6 +129,7 @@ class IndexManifestWriter:
     # Key is column ID.
     self._field_stats_dict: Dict[int, _FieldStats] = {}
 
+    self._field_names: List[str] = schema.names
     column_id_dict = field_id_to_column_id_dict(schema)
     for field_id_, type_ in self._stats_fields:
       column_id = column_id_dict[field_id_]
@@ -159,10 +160,18 @@ class IndexManifestWriter:
     index_compressed_bytes = 0
     index_uncompressed_bytes = 0
 
+    # Parquet columns are leaves of nested fields, so a column must be located
+    # by its path instead of the field position in the schema.
+    parquet_column_ids = {
+        parquet_metadata.schema.column(i).path: i
+        for i in range(parquet_metadata.num_columns)
+    }
+
     for rg in range(parquet_metadata.num_row_groups):
       rg_metadata = parquet_metadata.row_group(rg)
       for column_id, field_stats in self._field_stats_dict.items():
-        column_stats = rg_metadata.column(column_id)
+        column_stats = rg_metadata.column(
+            parquet_column_ids[self._field_names[column_id]])
         field_stats.merge(column_stats.statistics)
         index_compressed_bytes += column_stats.total_compressed_size
         index_uncompressed_bytes += column_stats.total_uncompressed_size
-- 
2.43.0


From ce43e42b4e3b56f9a8c85187b48f17993341e6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 08/31] fix: write column statistics in the field type and
 allow null statistics

Appending to a dataset with an int32 or float32 primary key, or appending a row
group without non-null primary keys, failed.
---
 python/src/space/core/manifests/index.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 288fa71..72b553f 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -79,8 +79,12 @@ class _FieldStats:
     self._min_list: List[Any] = []
     self._max_list: List[Any] = []
 
-  def merge(self, stats: pq.Statistics) -> None:
+  def merge(self, stats: Optional[pq.Statistics]) -> None:
     """Merge the cached stats with a new stats."""
+    # A row group without non-null values.
+    if stats is None or not stats.has_min_max:
+      return
+
     if self._min is None or stats.min < self._min:
       self._min = stats.min
 
@@ -98,7 +102,10 @@ class _FieldStats:
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
     return pa.StructArray.from_arrays(
-        [self._min_list, self._max_list],  # type: ignore[arg-type]
+        [
+            pa.array(values, field.type) for values, field in zip(
+                [self._min_list, self._max_list], self._fields)
+        ],
         fields=self._fields)
 
 
-- 
2.43.0


From 92f46f114a49a643252d0eaabc9212b1ae9741ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 09/31] fix: only prune files with equal constants in a field
 != field filter

---
 python/src/space/core/manifests/falsifiable_filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 6b8e311..f55bc14 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -234,7 +234,7 @@ def _falsifiable_condition_fields(
   elif fn == "equal":
     return (l_max < r_min) | (r_max < l_min)
   elif fn == "not_equal":
-    return (l_max >= r_min) & (r_max >= l_min)
+    return (l_min == l_max) & (r_min == r_max) & (l_min == r_min)
 
   raise _ExpressionException(f"Unsupported fn: {fn}")
 
-- 
2.43.0


From 6bdfeaecd2e93f6b223538014bfd4f8446a50487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 10/31] fix: only count modified files in the storage
 statistics of a delete

Unmodified files were counted as added when they share a manifest with modified
files, or as removed when they are matched by the manifest filter only.
---
 python/src/space/core/ops/delete.py | 30 ++++++-----------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 2d92de4..675becf 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -92,9 +92,6 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     deleted_rows = 0
     stats_before_delete = meta.StorageStatistics()
     for file in self._file_set.index_files:
-      utils.update_index_storage_stats(stats_before_delete,
-                                       file.storage_statistics)
-
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
       index_data = index_data.append_column(
@@ -108,6 +105,8 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
         continue
 
       # Collect statistics.
+      utils.update_index_storage_stats(stats_before_delete,
+                                       file.storage_statistics)
       deleted_rows += (file.storage_statistics.num_rows - index_data.num_rows)
       all_deleted = index_data.num_rows == 0
 
@@ -161,17 +160,13 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
       patch.deletion.index_manifest_files.append(f)
 
     # Compute storage statistics update.
-    survivor_stats = _read_index_statistics(survivor_index_manifests)
     reinsert_stats = (reinsert_patch.storage_statistics_update if reinsert_patch
                       is not None else meta.StorageStatistics())
 
-    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes +
-                                survivor_stats.index_compressed_bytes
-                               ) - stats_before_delete.index_compressed_bytes
-    deleted_uncompressed_bytes = (
-        reinsert_stats.index_uncompressed_bytes +
-        survivor_stats.index_uncompressed_bytes
-    ) - stats_before_delete.index_uncompressed_bytes
+    deleted_compressed_bytes = (reinsert_stats.index_compressed_bytes -
+                                stats_before_delete.index_compressed_bytes)
+    deleted_uncompressed_bytes = (reinsert_stats.index_uncompressed_bytes -
+                                  stats_before_delete.index_uncompressed_bytes)
 
     patch.storage_statistics_update.CopyFrom(
         meta.StorageStatistics(
@@ -188,19 +183,6 @@ def _build_file_path_filter(field_name: str, file_paths: List[str]):
   return filter_
 
 
-def _read_index_statistics(manifest_data: pa.Table) -> meta.StorageStatistics:
-  """Read storage statistics of unmodified index files from manifests."""
-
-  def sum_bytes(field_name: str) -> int:
-    return sum(manifest_data.column(
-        field_name).combine_chunks().to_pylist())  # type: ignore[arg-type]
-
-  return meta.StorageStatistics(index_compressed_bytes=sum_bytes(
-      constants.INDEX_COMPRESSED_BYTES_FIELD),
-                                index_uncompressed_bytes=sum_bytes(
-                                    constants.INDEX_UNCOMPRESSED_BYTES_FIELD))
-
-
 def _validate_files(file_set: rt.FileSet) -> bool:
   """Return false if the file set does not contain sufficient information for
   deletion.
-- 
2.43.0


From 37f2326b3b0bf7a887de5b82b32c0f8a07678871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 11/31] fix: skip a delete that matches no files instead of
 failing it

Refreshing a materialized view failed forever when rows deleted in the source
are not in the view.
---
 python/src/space/core/runners.py | 7 +++++--
 python/src/space/ray/runners.py  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/src/space/core/runners.py b/python/src/space/core/runners.py
index 32e0744..0429bc1 100644
--- a/python/src/space/core/runners.py
+++ b/python/src/space/core/runners.py
@@ -280,7 +280,10 @@ class LocalRunner(BaseReadWriteRunner):
 
   @StorageMixin.transactional
   def delete(self, filter_: pc.Expression) -> Optional[rt.Patch]:
+    data_files = self._storage.data_files(filter_)
+    if not data_files.index_files:
+      return None
+
     op = FileSetDeleteOp(self._storage.location, self._storage.metadata,
-                         self._storage.data_files(filter_), filter_,
-                         self._file_options)
+                         data_files, filter_, self._file_options)
     return op.delete()
diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 0cfa206..331ec1a 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -245,9 +245,12 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     if filter_ is None:
       return None
 
+    data_files = self._storage.data_files(filter_)
+    if not data_files.index_files:
+      return None
+
     op = FileSetDeleteOp(self._storage.location, self._storage.metadata,
-                         self._storage.data_files(filter_), filter_,
-                         self._file_options)
+                         data_files, filter_, self._file_options)
     return op.delete()
 
   def _process_append(self, data: List[ray.data.Dataset]) -> Optional[rt.Patch]:
-- 
2.43.0


From 48e7ecd997f5907ec3252e55da53785201e106b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 12/31] fix: write the change log of loaded Parquet files

Reading changes of a snapshot created by append_parquet raised an error. Also
skip the commit when there is nothing to load.
---
 python/src/space/core/loaders/parquet.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 71e5101..799d8e7 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -45,7 +45,10 @@ class LocalParquetLoadOp(StoragePathsMixin):
     self._physical_schema = arrow.arrow_schema(self._metadata.schema.fields,
                                                set(),
                                                physical=True)
-    self._input_files = glob.glob(pattern)
+    # Empty files have nothing to load.
+    self._input_files = [
+        f for f in glob.glob(pattern) if pq.read_metadata(f).num_rows > 0
+    ]
 
   def write(self) -> Optional[rt.Patch]:
     """Write metadata files to load Parquet files to Space dataset."""
@@ -56,6 +59,8 @@ class LocalParquetLoadOp(StoragePathsMixin):
 
     for f in self._input_files:
       stats = _write_index_manifest(index_manifest_writer, f)
+      patch.change_log.added_rows.append(
+          meta.RowBitmap(file=f, all_rows=True, num_rows=stats.num_rows))
       utils.update_index_storage_stats(base=patch.storage_statistics_update,
                                        update=stats)
 
@@ -64,6 +69,9 @@ class LocalParquetLoadOp(StoragePathsMixin):
       patch.addition.index_manifest_files.append(
           self.short_path(index_manifest_full_path))
 
+    if patch.storage_statistics_update.num_rows == 0:
+      return None
+
     return patch
 
 
-- 
2.43.0


From 53664a7158fbf280fb9d754504cd6a61533e422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 13/31] fix: store the absolute path of loaded external files

A relative path is resolved from the dataset location at read time, so files
loaded by a relative pattern were not readable.
---
 python/src/space/core/loaders/array_record.py | 3 ++-
 python/src/space/core/loaders/parquet.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/space/core/loaders/array_record.py b/python/src/space/core/loaders/array_record.py
index be02221..43d900f 100644
--- a/python/src/space/core/loaders/array_record.py
+++ b/python/src/space/core/loaders/array_record.py
@@ -16,6 +16,7 @@
 
 from typing import Any, Callable, Dict, List, Optional, Tuple
 import glob
+from os import path
 
 import pyarrow as pa
 from typing_extensions import TypeAlias
@@ -66,7 +67,7 @@ class LocalArrayRecordLoadOp(StoragePathsMixin):
     self._record_field = self._record_fields[0]
 
     self._serializer = DictSerializer.create(logical_schema)
-    self._input_files = glob.glob(pattern)
+    self._input_files = glob.glob(path.abspath(pattern))
 
   def write(self) -> Optional[rt.Patch]:
     """Write index files to load ArrayRecord files to Space dataset."""
diff --git a/python/src/space/core/loaders/parquet.py b/python/src/space/core/loaders/parquet.py
index 799d8e7..6da6af1 100644
--- a/python/src/space/core/loaders/parquet.py
+++ b/python/src/space/core/loaders/parquet.py
@@ -16,6 +16,7 @@
 
 from typing import Optional
 import glob
+from os import path
 
 import pyarrow.parquet as pq
 
@@ -47,7 +48,7 @@ class LocalParquetLoadOp(StoragePathsMixin):
                                                physical=True)
     # Empty files have nothing to load.
     self._input_files = [
-        f for f in glob.glob(pattern) if pq.read_metadata(f).num_rows > 0
+        f for f in glob.glob(path.abspath(pattern)) if pq.read_metadata(f).num_rows > 0
     ]
 
   def write(self) -> Optional[rt.Patch]:
-- 
2.43.0


From 12902bdf8c744beee5249c8819b8c1e2ebe76416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 14/31] fix: delete files of the same manifest in one Ray task

Each task carried over the files modified by other tasks, so deleted rows came
back and other rows were duplicated.
---
 python/src/space/ray/ops/delete.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/src/space/ray/ops/delete.py b/python/src/space/ray/ops/delete.py
index ee85a33..a81215d 100644
--- a/python/src/space/ray/ops/delete.py
+++ b/python/src/space/ray/ops/delete.py
@@ -15,7 +15,7 @@
 """Distributed delete operation using Ray."""
 
 from __future__ import annotations
-from typing import Optional
+from typing import Dict, List, Optional
 
 import pyarrow.compute as pc
 import ray
@@ -46,10 +46,10 @@ class RayDeleteOp(BaseDeleteOp, StoragePathsMixin):
     matched_file_set = self._storage.data_files(self._filter)
 
     remote_delete_patches = []
-    for index_file in matched_file_set.index_files:
+    for index_files in _group_by_manifest(matched_file_set):
       # Deletion only needs index file information (no record file information).
       file_set = rt.FileSet(
-          index_files=[index_file],
+          index_files=index_files,
           # TODO: attach all manifest files here, to select related manifests.
           index_manifest_files=matched_file_set.index_manifest_files)
 
@@ -62,6 +62,17 @@ class RayDeleteOp(BaseDeleteOp, StoragePathsMixin):
     return utils.merge_patches(patches)
 
 
+def _group_by_manifest(file_set: rt.FileSet) -> List[List[rt.DataFile]]:
+  """Group index files by manifest file, because a manifest file can only be
+  rewritten once.
+  """
+  groups: Dict[int, List[rt.DataFile]] = {}
+  for index_file in file_set.index_files:
+    groups.setdefault(index_file.manifest_file_id, []).append(index_file)
+
+  return list(groups.values())
+
+
 @ray.remote
 def _delete(location: str, metadata: meta.StorageMetadata, file_set: rt.FileSet,
             filter_: pc.Expression,
-- 
2.43.0


From 509c0e87f08a07e5480d1b02bbc7aa5aa865632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 15/31] fix: build primary key filter as a balanced tree

The time of insert and upsert was exponential to the number of rows.
---
 python/src/space/core/ops/utils.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 82244be..5eda40c 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -14,6 +14,8 @@
 #
 """Utilities for operation classes."""
 
+from functools import reduce
+import operator
 from typing import List, Optional, Set
 
 import numpy as np
@@ -63,7 +65,7 @@ def primary_key_filter(primary_keys: List[str],
   for key in primary_keys:
     columns.append(data.column(key).combine_chunks())
 
-  filter_ = None
+  row_filters: List[pc.Expression] = []
   filter_strs: Set[str] = set()
   for i_row in range(data.num_rows):
     row_filter = None
@@ -83,12 +85,16 @@ def primary_key_filter(primary_keys: List[str],
 
     filter_strs.add(filter_str)
 
-    if filter_ is None:
-      filter_ = row_filter
-    else:
-      filter_ |= row_filter
+    row_filters.append(row_filter)
 
-  return filter_
+  # Build a balanced tree, because processing deep expressions is slow.
+  while len(row_filters) > 1:
+    row_filters = [
+        reduce(operator.or_, row_filters[i:i + 2])
+        for i in range(0, len(row_filters), 2)
+    ]
+
+  return row_filters[0] if row_filters else None
 
 
 def merge_patches(patches: List[Optional[rt.Patch]]) -> Optional[rt.Patch]:
-- 
2.43.0


From 0d3574e1fd5262a68b23ab79f3a8da10f5249909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 16/31] fix: keep the field order of schema when writing record
 fields

Appending failed when a record field is not the last field.
---
 python/src/space/core/ops/append.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/core/ops/append.py b/python/src/space/core/ops/append.py
index 1a35254..e345282 100644
--- a/python/src/space/core/ops/append.py
+++ b/python/src/space/core/ops/append.py
@@ -196,6 +196,9 @@ class LocalAppendOp(BaseAppendOp, StoragePathsMixin):
         # TODO: the field/column added must have field ID.
         index_data = index_data.append_column(field_name, address_column)
 
+    # Record fields may not be the last fields.
+    index_data = index_data.select(self._physical_schema.names)
+
     # Write index fields into files.
     self._cached_index_file_bytes += index_data.nbytes
 
-- 
2.43.0


From 796ad6bdc5835b4e1246d2f247496abde9daa5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 17/31] fix: do not prune files by negated filters

The min and max statistics of a file only tell that all its rows do not match,
so negating that tells nothing about the rows. Reads and deletes with a negated
filter missed matching rows.
---
 .../core/manifests/falsifiable_filters.py     | 20 +++++++++++++++----
 python/src/space/core/storage.py              |  4 +++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index f55bc14..6f02f7b 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -38,7 +38,8 @@ from space.core.schema import constants
 
 def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
                           field_name_ids: Dict[str, int],
-                          filter_: pc.Expression) -> Optional[pc.Expression]:
+                          filter_: pc.Expression,
+                          prune_negation: bool = True) -> Optional[pc.Expression]:
   """Build a falsifiable filter on index manifest files column statistics.
 
   Return None when it fails to build a manifest filter, then manifest pruning
@@ -55,13 +56,17 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
     primary_keys: the primary keys.
     filter_: a filter on data fields.
     field_name_ids: a dict of field names to IDs mapping.
+    prune_negation: build filters for negated expressions. It must be false for
+      reading data, because a negated falsifiable filter also falsifies files
+      having both matched and not matched rows.
 
   Returns:
     Falsifiable filter, or None if not supported.
   """
   try:
     expr = _substrait_expr(schema, filter_)
-    ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids)
+    ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids,
+                             prune_negation)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
       return None
@@ -99,7 +104,8 @@ class _ExpressionException(Exception):
 
 def _falsifiable_filter(
     filter_: ExtendedExpression, field_names: List[str], primary_keys: Set[str],
-    field_name_ids: Dict[str, int]) -> Optional[pc.Expression]:
+    field_name_ids: Dict[str, int],
+    prune_negation: bool) -> Optional[pc.Expression]:
   if len(filter_.referred_expr) != 1:
     raise _ExpressionException(
         f"Expect 1 referred expr, found: {len(filter_.referred_expr)}")
@@ -109,6 +115,7 @@ def _falsifiable_filter(
       field_names,
       primary_keys,
       field_name_ids,
+      prune_negation,
       filter_.referred_expr[0].expression)
 
 
@@ -117,6 +124,7 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
                                  field_names: List[str],
                                  primary_keys: Set[str],
                                  field_name_ids: Dict[str, int],
+                                 prune_negation: bool,
                                  expr: Expression) -> Optional[pc.Expression]:
   if not _has_scalar_function(expr):
     if _has_literal(expr):
@@ -129,13 +137,17 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
     raise _ExpressionException(f"Expression is not supported: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
-                                  field_names, primary_keys, field_name_ids)
+                                  field_names, primary_keys, field_name_ids,
+                                  prune_negation)
   min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
 
   if len(scalar_fn.arguments) == 1 and fn == "not":
+    if not prune_negation:
+      return None
+
     ff = falsifiable_filter_fn(
         scalar_fn.arguments[0].value)  # type: ignore[operator]
     if ff is None:
diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index e0299c9..359119a 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -393,7 +393,9 @@ class Storage(paths.StoragePathsMixin):
     if filter_ is not None:
       manifest_filter = build_manifest_filter(self._physical_schema,
                                               self._primary_keys,
-                                              self._field_name_ids, filter_)
+                                              self._field_name_ids,
+                                              filter_,
+                                              prune_negation=False)
 
     for manifest_file in manifest_files.index_manifest_files:
       result_per_manifest = read_index_manifests(self.full_path(manifest_file),
-- 
2.43.0


From 6d9f66946543ce6985448fc04692075a8adf9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 18/31] fix: do not prune files without column statistics

E.g., external Parquet files written without statistics, and files with NaN
primary keys only.
---
 python/src/space/core/manifests/index.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/src/space/core/manifests/index.py b/python/src/space/core/manifests/index.py
index 72b553f..6df1f33 100644
--- a/python/src/space/core/manifests/index.py
+++ b/python/src/space/core/manifests/index.py
@@ -73,6 +73,8 @@ class _FieldStats:
 
     self._min: Any = None
     self._max: Any = None
+    # True if the stats of any row group in the file is not available.
+    self._unknown = False
 
     # _min and _max cache the stats of one file; after finalizing they are
     # moved to _min_list and _max_list that cache stats of all files.
@@ -81,8 +83,12 @@ class _FieldStats:
 
   def merge(self, stats: Optional[pq.Statistics]) -> None:
     """Merge the cached stats with a new stats."""
-    # A row group without non-null values.
+    # A null value does not match any range, ignore row groups with null only.
+    if stats is not None and stats.num_values == 0:
+      return
+
     if stats is None or not stats.has_min_max:
+      self._unknown = True
       return
 
     if self._min is None or stats.min < self._min:
@@ -93,11 +99,12 @@ class _FieldStats:
 
   def finish(self) -> None:
     """Finialize the stats for the current file."""
-    self._min_list.append(self._min)
-    self._max_list.append(self._max)
+    self._min_list.append(None if self._unknown else self._min)
+    self._max_list.append(None if self._unknown else self._max)
 
     self._min = None
     self._max = None
+    self._unknown = False
 
   def to_arrow(self) -> pa.Array:
     """Return the Arrow format of the stats."""
@@ -249,6 +256,10 @@ def read_index_manifests(manifest_path: str,
   Returns:
     A file set of data files in the manifest file.
   """
+  if filter_ is not None:
+    # Keep the files whose column statistics are not available.
+    filter_ = pc.coalesce(filter_, pc.scalar(True))
+
   table = pq.read_table(manifest_path,
                         filters=filter_)  # type: ignore[arg-type]
 
-- 
2.43.0


From 32e54b2ff70a5f845a3e004f0e0d7f00fb9a41ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 19/31] fix: do not prune files by != filters on float fields

Files with NaN and only one other value were pruned.
---
 .../core/manifests/falsifiable_filters.py     | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/python/src/space/core/manifests/falsifiable_filters.py b/python/src/space/core/manifests/falsifiable_filters.py
index 6f02f7b..e20de4a 100644
--- a/python/src/space/core/manifests/falsifiable_filters.py
+++ b/python/src/space/core/manifests/falsifiable_filters.py
@@ -65,7 +65,7 @@ def build_manifest_filter(schema: pa.Schema, primary_keys: Set[str],
   """
   try:
     expr = _substrait_expr(schema, filter_)
-    ff = _falsifiable_filter(expr, schema.names, primary_keys, field_name_ids,
+    ff = _falsifiable_filter(expr, schema, primary_keys, field_name_ids,
                              prune_negation)
     if ff is None:
       logging.info("Index manifest filter is empty, query may be slower")
@@ -103,7 +103,7 @@ class _ExpressionException(Exception):
 
 
 def _falsifiable_filter(
-    filter_: ExtendedExpression, field_names: List[str], primary_keys: Set[str],
+    filter_: ExtendedExpression, schema: pa.Schema, primary_keys: Set[str],
     field_name_ids: Dict[str, int],
     prune_negation: bool) -> Optional[pc.Expression]:
   if len(filter_.referred_expr) != 1:
@@ -112,7 +112,7 @@ def _falsifiable_filter(
 
   return _falsifiable_filter_internal(
       filter_.extensions,  # type: ignore[arg-type]
-      field_names,
+      schema,
       primary_keys,
       field_name_ids,
       prune_negation,
@@ -121,7 +121,7 @@ def _falsifiable_filter(
 
 # pylint: disable=too-many-locals,too-many-return-statements,too-many-branches,too-many-statements
 def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
-                                 field_names: List[str],
+                                 schema: pa.Schema,
                                  primary_keys: Set[str],
                                  field_name_ids: Dict[str, int],
                                  prune_negation: bool,
@@ -137,9 +137,9 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
     raise _ExpressionException(f"Expression is not supported: {expr}")
 
   falsifiable_filter_fn = partial(_falsifiable_filter_internal, extensions,
-                                  field_names, primary_keys, field_name_ids,
+                                  schema, primary_keys, field_name_ids,
                                   prune_negation)
-  min_max_fn = partial(_min_max, field_names, primary_keys, field_name_ids)
+  min_max_fn = partial(_min_max, schema, primary_keys, field_name_ids)
 
   scalar_fn = expr.scalar_function
   fn = extensions[scalar_fn.function_reference].extension_function.name
@@ -181,6 +181,12 @@ def _falsifiable_filter_internal(extensions: List[SimpleExtensionDeclaration],
     else:
       raise _ExpressionException(f"Unsupported fn: {fn}")
 
+  # Statistics do not count NaN, which is not equal to any value.
+  if fn == "not_equal" and any(
+      _has_selection(arg) and pa.types.is_floating(_field(schema, arg).type)
+      for arg in [lhs, rhs]):
+    return None
+
   # Supported case: field [op] field
   if _has_selection(lhs) and _has_selection(rhs):
     return _falsifiable_condition_fields(fn, lhs, rhs, min_max_fn)
@@ -315,11 +321,14 @@ def _value(v: Expression):
               v.literal.WhichOneof("literal_type")))  # type: ignore[arg-type]
 
 
-def _min_max(field_names, primary_keys, field_name_ids,
-             v: Expression) -> Tuple[pc.Expression, pc.Expression, bool]:
+def _field(schema: pa.Schema, v: Expression) -> pa.Field:
   # The field index counts top level fields only.
-  field_index = v.selection.direct_reference.struct_field.field
-  field_name = field_names[field_index]
+  return schema.field(v.selection.direct_reference.struct_field.field)
+
+
+def _min_max(schema, primary_keys, field_name_ids,
+             v: Expression) -> Tuple[pc.Expression, pc.Expression, bool]:
+  field_name = _field(schema, v).name
   field_id = field_name_ids[field_name]
 
   # Only primary key supports falsifiable filter because of column stats.
-- 
2.43.0


From 468155da82ce173fa8ddd9c3521e59c70e87477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 20/31] fix: return an empty table when one side of a join is
 empty

---
 python/src/space/ray/ops/join.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index 867fe64..afbf6f1 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -96,7 +96,7 @@ class RayJoinOp:
                                  self._left_record_fields),
               _JoinInputInternal(right_ds, self._right.reference_read,
                                  self._right_record_fields), self._join_key,
-              self._schema.names))
+              self._schema))
 
     return ray.data.from_arrow_refs(results)
 
@@ -110,10 +110,11 @@ class _JoinInputInternal:
 
 @ray.remote
 def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
-          output_fields: List[str]) -> Optional[pa.Table]:
+          output_schema: pa.Schema) -> pa.Table:
   left_data, right_data = _read_all(left.ds), _read_all(right.ds)
   if left_data is None or right_data is None:
-    return None
+    # A Ray dataset can't be created from None.
+    return output_schema.empty_table()
 
   # PyArrow does not support joining struct, so tables are flattened.
   # TODO: we only flatten/fold record addresses field. If any other fields are
@@ -133,8 +134,8 @@ def _join(left: _JoinInputInternal, right: _JoinInputInternal, join_key: str,
   if right.reference_read:
     result = _fold_addresses(result, right.record_fields)
 
-  # output_fields is used for re-ordering fields.
-  return result.select(output_fields)
+  # output_schema is used for re-ordering fields.
+  return result.select(output_schema.names)
 
 
 def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
-- 
2.43.0


From bb1b60077aac0488badac1c5140d3c619c35b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 21/31] fix: reload source and target before refreshing a
 materialized view

A stale target handle applied the changes that had been refreshed by another
handle again, and a stale source handle missed the latest changes.
---
 python/src/space/ray/runners.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 331ec1a..21e2459 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -179,6 +179,9 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
     TODO: refreshing from a large source is slow, to save refresh state and
     resume from saved state, if any failure happens.
     """
+    self._source_storage.reload()
+    self._storage.reload()
+
     source_snapshot_id = self._source_storage.metadata.current_snapshot_id
     if target_version is None:
       end_snapshot_id = source_snapshot_id
-- 
2.43.0


From eac830273e6b6959ae8c3b8648c1fe73565fe21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 22/31] fix: align snapshot IDs of a materialized view with its
 source

Refresh uses the snapshot ID of the view as the source snapshot to start from.
The IDs went out of sync when source changes did not modify the view, or when
the source has branch snapshots; then changes were applied twice, or refresh
failed.
---
 python/src/space/core/storage.py | 35 +++++++++++++++++++++++++-------
 python/src/space/ray/runners.py  | 18 ++++++++++++++--
 2 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/python/src/space/core/storage.py b/python/src/space/core/storage.py
index 359119a..5a75243 100644
--- a/python/src/space/core/storage.py
+++ b/python/src/space/core/storage.py
@@ -318,7 +318,10 @@ class Storage(paths.StoragePathsMixin):
     self._metadata = new_metadata
     self._metadata_file = new_metadata_path
 
-  def commit(self, patch: rt.Patch, branch: str) -> None:
+  def commit(self,
+             patch: rt.Patch,
+             branch: str,
+             snapshot_id: Optional[int] = None) -> None:
     """Commit changes to the storage.
 
     TODO: only support a single writer; to ensure atomicity in commit by
@@ -327,10 +330,12 @@ class Storage(paths.StoragePathsMixin):
     Args:
       patch: a patch describing changes made to the storage.
       branch: the branch this commit is writing to.
+      snapshot_id: the new snapshot ID, must be higher than all existing
+        snapshot IDs; assigned automatically if not specified.
     """
     new_metadata = meta.StorageMetadata()
     new_metadata.CopyFrom(self._metadata)
-    new_snapshot_id = self._next_snapshot_id()
+    new_snapshot_id = self._next_snapshot_id(snapshot_id)
     if branch != _MAIN_BRANCH:
       branch_snapshot = self.lookup_reference(branch)
       # To block the case delete branch and add a tag during commit
@@ -500,8 +505,17 @@ class Storage(paths.StoragePathsMixin):
     except errors.FileExistError as e:
       raise errors.StorageExistError(str(e)) from None
 
-  def _next_snapshot_id(self) -> int:
-    self._max_snapshot_id = self._max_snapshot_id + 1
+  def _next_snapshot_id(self, snapshot_id: Optional[int] = None) -> int:
+    next_snapshot_id = self._max_snapshot_id + 1
+    if snapshot_id is not None:
+      if snapshot_id < next_snapshot_id:
+        raise errors.SpaceRuntimeError(
+            f"New snapshot ID {snapshot_id} is not higher than existing "
+            f"snapshot ID {self._max_snapshot_id}")
+
+      next_snapshot_id = snapshot_id
+
+    self._max_snapshot_id = next_snapshot_id
     return self._max_snapshot_id
 
   def _write_metadata(
@@ -561,8 +575,15 @@ class Transaction:
     self._branch = storage.current_branch
     self._result: Optional[JobResult] = None
 
-  def commit(self, patch: Optional[rt.Patch]) -> None:
-    """Commit the transaction."""
+  def commit(self,
+             patch: Optional[rt.Patch],
+             snapshot_id: Optional[int] = None) -> None:
+    """Commit the transaction.
+
+    Args:
+      patch: a patch describing changes made to the storage.
+      snapshot_id: the new snapshot ID, assigned automatically if not specified.
+    """
     assert self._result is None
 
     # Check that no other commit has taken place.
@@ -580,7 +601,7 @@ class Transaction:
       self._result = JobResult(JobResult.State.SKIPPED)
       return
 
-    self._storage.commit(patch, self._branch)
+    self._storage.commit(patch, self._branch, snapshot_id)
     self._result = JobResult(JobResult.State.SUCCEEDED,
                              patch.storage_statistics_update)
 
diff --git a/python/src/space/ray/runners.py b/python/src/space/ray/runners.py
index 21e2459..432916b 100644
--- a/python/src/space/ray/runners.py
+++ b/python/src/space/ray/runners.py
@@ -34,6 +34,7 @@ from space.core.ops.change_data import ChangeData, ChangeType
 from space.core.ops.delete import FileSetDeleteOp
 from space.core.ops.insert import InsertOptions
 from space.core.options import FileOptions, JoinOptions, ReadOptions
+import space.core.proto.metadata_pb2 as meta
 import space.core.proto.runtime_pb2 as rt
 from space.core.utils import errors
 from space.ray.ops.append import RayAppendOp
@@ -206,7 +207,7 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       # Commit when changes from the same snapshot end.
       if (previous_snapshot_id is not None and
           change.snapshot_id != previous_snapshot_id):
-        txn.commit(utils.merge_patches(patches))
+        self._commit_changes(txn, patches, previous_snapshot_id)
         patches.clear()
 
         # Stop early when something is wrong.
@@ -233,11 +234,24 @@ class RayMaterializedViewRunner(RayReadOnlyRunner, StorageMixin):
       previous_snapshot_id = change.snapshot_id
 
     if patches:
-      txn.commit(utils.merge_patches(patches))
+      assert previous_snapshot_id is not None
+      self._commit_changes(txn, patches, previous_snapshot_id)
       job_results.append(txn.result())
 
     return job_results
 
+  def _commit_changes(self, txn: Transaction,
+                      patches: List[Optional[rt.Patch]],
+                      source_snapshot_id: int) -> None:
+    # The next refresh starts from the current snapshot ID of the view, so it
+    # must always be the same as the source snapshot that has been processed,
+    # even when the source changes do not modify the view.
+    patch = utils.merge_patches(patches)
+    if patch is None:
+      patch = rt.Patch(change_log=meta.ChangeLog())
+
+    txn.commit(patch, source_snapshot_id)
+
   def _process_delete(self, data: List[ray.data.Dataset]) -> Optional[rt.Patch]:
     # Deletion does not use parallel read streams.
     assert len(data) == 1
-- 
2.43.0


From 126ebabc372a4fc0f41d2e2d5384d8a10adfa6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 23/31] fix: apply the batch size to reference reads

---
 python/src/space/core/ops/read.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/read.py b/python/src/space/core/ops/read.py
index 9094b91..9b9ed1d 100644
--- a/python/src/space/core/ops/read.py
+++ b/python/src/space/core/ops/read.py
@@ -110,7 +110,13 @@ class FileSetReadOp(BaseReadOp, StoragePathsMixin):
         index_data = index_data.slice(file.row_slice.start, length)
 
       if self._options.reference_read:
-        yield index_data
+        if row_range_read:
+          yield index_data
+        else:
+          for batch in index_data.to_batches(
+              max_chunksize=self._options.batch_size):
+            yield pa.table(batch)
+
         continue
 
       index_column_ids: List[int] = []
-- 
2.43.0


From e1fb8039360f4c385711c8480d32e1003556edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 24/31] fix: load ArrayRecord files without records

---
 python/src/space/core/ops/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/ops/utils.py b/python/src/space/core/ops/utils.py
index 5eda40c..94249b9 100644
--- a/python/src/space/core/ops/utils.py
+++ b/python/src/space/core/ops/utils.py
@@ -49,7 +49,7 @@ def address_column(file_path: str, start_row: int,
   """Construct an record address column by a file path and row ID range."""
   return pa.StructArray.from_arrays(
       [
-          [file_path] * num_rows,  # type: ignore[arg-type]
+          pa.array([file_path] * num_rows, pa.string()),
           np.arange(start_row, start_row + num_rows, dtype=np.int32)
       ],
       fields=arrow.record_address_types())  # type: ignore[arg-type]
-- 
2.43.0


From 3f6659cb838fd231e47652a19905d39638296c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 25/31] fix: keep records addressed more than once in random
 access

The runs of row ids given to ArrayRecordDataSource dropped repeated ids, which
address tables such as the result of a join contain.
---
 python/src/space/core/random_access.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/core/random_access.py b/python/src/space/core/random_access.py
index 243412f..b646a26 100644
--- a/python/src/space/core/random_access.py
+++ b/python/src/space/core/random_access.py
@@ -271,7 +271,7 @@ def build_file_instructions(
       if i == len(indexes) - 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
-      elif indexes[i + 1] > idx + 1:
+      elif indexes[i + 1] != idx + 1:
         file_instructions.append(
             _file_instruction(full_file_path, start, idx, num_records))
         start = indexes[i + 1]
-- 
2.43.0


From 4d390bb34a185cf15c8eda1b7eb9d5cdb49e32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 26/31] fix: report a file with the name of a missing dataset
 as not found

Opening a catalog entry whose name is that of a plain file raised
NotADirectoryError instead of StorageNotFoundError.
---
 python/src/space/catalogs/directory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/space/catalogs/directory.py b/python/src/space/catalogs/directory.py
index 57634b4..4d182e2 100644
--- a/python/src/space/catalogs/directory.py
+++ b/python/src/space/catalogs/directory.py
@@ -53,7 +53,7 @@ class DirCatalog(BaseCatalog):
   def dataset(self, name: str) -> Union[Dataset, MaterializedView]:
     try:
       storage = Storage.load(self._dataset_location(name))
-    except FileNotFoundError as e:
+    except (FileNotFoundError, NotADirectoryError) as e:
       raise errors.StorageNotFoundError(str(e)) from None
 
     if storage.metadata.type == meta.StorageMetadata.DATASET:
-- 
2.43.0


From 32d51fb9cb9aad10a7c8c651ad5ea8908e8877e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 27/31] fix: join inputs with files of null keys or without key
 statistics

---
 python/src/space/ray/ops/join.py | 51 +++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index afbf6f1..e9d6f8b 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -16,13 +16,15 @@
 
 from __future__ import annotations
 from dataclasses import dataclass
-from typing import List, Optional, TYPE_CHECKING
+from typing import Any, Dict, List, Optional, TYPE_CHECKING
 
 import pyarrow as pa
 import pyarrow.compute as pc
 import ray
 
+from space.core.ops.read import FileSetReadOp
 from space.core.options import JoinOptions, Range, ReadOptions
+import space.core.proto.runtime_pb2 as rt
 from space.core.schema import arrow
 from space.core.schema import constants
 from space.core.schema.utils import (file_path_field_name, stats_field_name,
@@ -33,6 +35,7 @@ from space.ray.ops.utils import iter_batches, singleton_storage
 from space.ray.options import RayOptions
 
 if TYPE_CHECKING:
+  from space.core.storage import Storage
   from space.core.views import View
 
 
@@ -155,26 +158,38 @@ def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
 
   field_id = field_name_ids[field_name]
 
+  storage = singleton_storage(input_.view)
   stats_field = stats_field_name(field_id)
-  min_, max_ = None, None
-  for manifest in singleton_storage(input_.view).index_manifest():
-    stats = manifest.column(stats_field).combine_chunks()
-
-    batch_min = pc.min(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MIN_FIELD)).as_py()  # type: ignore[arg-type]
-    min_ = batch_min if min_ is None else min(  # type: ignore[call-overload]
-        min_, batch_min)
-
-    batch_max = pc.max(  # type: ignore[attr-defined] # pylint: disable=no-member
-        stats.field(constants.MAX_FIELD)).as_py()  # type: ignore[arg-type]
-    max_ = batch_max if max_ is None else max(  # type: ignore[call-overload]
-        max_, batch_max)
-
-  if min_ is None and max_ is None:
+  bounds: List[Any] = []
+  for manifest in storage.index_manifest():
+    for file_path, stats in zip(
+        manifest.column(constants.FILE_PATH_FIELD).to_pylist(),
+        manifest.column(stats_field).to_pylist()):
+      if stats is None or None in stats.values():
+        # The key is null in all rows, or the statistics are unknown.
+        stats = _read_key_range(storage, file_path, field_name)
+
+      bounds.extend(v for v in stats.values() if v is not None)
+
+  if not bounds:
     return None
 
-  assert min_ is not None and max_ is not None
-  return Range(min_=min_, max_=max_, include_max=True)
+  return Range(min_=min(bounds), max_=max(bounds), include_max=True)
+
+
+def _read_key_range(storage: Storage, file_path: str,
+                    field_name: str) -> Dict[str, Any]:
+  """Read the range of a key from an index file."""
+  batches = FileSetReadOp(
+      storage.location, storage.metadata,
+      rt.FileSet(index_files=[rt.DataFile(path=file_path)]),
+      ReadOptions(fields=[field_name]))
+  ranges = [
+      pc.min_max(b.column(field_name)).as_py()  # type: ignore[attr-defined] # pylint: disable=no-member
+      for b in batches
+  ]
+  bounds = [v for r in ranges for v in r.values() if v is not None]
+  return {"min": min(bounds), "max": max(bounds)} if bounds else {}
 
 
 def _range_to_filter(field_name: str, range_: Range) -> pc.Expression:
-- 
2.43.0


From 938df7e333f862e510b08a581a8bce4cc33217ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 28/31] fix: find join key statistics by the field ID of the
 source

The statistics of the source of a view were looked up by the field ID in the
schema of the view, which is another one if a map transform reorders fields.
A join with such a view failed, or would use the range of another field.
---
 python/src/space/ray/ops/join.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/space/ray/ops/join.py b/python/src/space/ray/ops/join.py
index e9d6f8b..2a949c7 100644
--- a/python/src/space/ray/ops/join.py
+++ b/python/src/space/ray/ops/join.py
@@ -150,15 +150,16 @@ def _read_all(ds: ray.data.Dataset) -> Optional[pa.Table]:
 
 
 def _join_key_range(input_: JoinInput, field_name: str) -> Optional[Range]:
-  schema = input_.view.schema
+  # The statistics are of the source, where the field ID may not be the same as
+  # in the view.
+  storage = singleton_storage(input_.view)
+  schema = storage.logical_schema
   field_name_ids = arrow.field_name_to_id_dict(schema)
   if field_name not in field_name_ids:
     raise errors.UserInputError(
         f"Join key {field_name} not found in schema: {schema}")
 
   field_id = field_name_ids[field_name]
-
-  storage = singleton_storage(input_.view)
   stats_field = stats_field_name(field_id)
   bounds: List[Any] = []
   for manifest in storage.index_manifest():
-- 
2.43.0


From fda5af760ffa0ebc2e8824fb134a74d3b6cf4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:57 +0000
Subject: [PATCH 29/31] fix: record fields whose names contain a path separator

---
 python/src/space/core/utils/paths.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/space/core/utils/paths.py b/python/src/space/core/utils/paths.py
index 9bba268..2b3b83e 100644
--- a/python/src/space/core/utils/paths.py
+++ b/python/src/space/core/utils/paths.py
@@ -34,7 +34,9 @@ def new_index_file_path(data_dir_: str):
 
 def new_record_file_path(data_dir_: str, field_name: str):
   """Return a random record file path in a given data directory.."""
-  return path.join(data_dir_, f"{field_name}_{uuid_()}.array_record")
+  # A field name may contain path separators.
+  prefix = field_name.replace(path.sep, "_")
+  return path.join(data_dir_, f"{prefix}_{uuid_()}.array_record")
 
 
 def new_index_manifest_path(metadata_dir_: str):
-- 
2.43.0


From 0dd424610f8e8b85902ea7d3c668a99a05bb457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:57 +0000
Subject: [PATCH 30/31] fix: read record fields whose names start with a
 special character

---
 python/src/space/core/ops/read.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/python/src/space/core/ops/read.py b/python/src/space/core/ops/read.py
index 9b9ed1d..556cb17 100644
--- a/python/src/space/core/ops/read.py
+++ b/python/src/space/core/ops/read.py
@@ -170,18 +170,21 @@ def read_record_column(paths: StoragePathsMixin,
     field: the field name to read, if `addresses` has field name prefix.
   """
   num_rows = addresses.num_rows
+  addresses = addresses.flatten()
+  file_path_field, row_id_field = FILE_PATH_FIELD, ROW_ID_FIELD
+  if field is not None:
+    # Drop the field name prefix, because a column name starting with special
+    # characters (e.g., ".") is not read as a name in group by.
+    addresses = addresses.select([  # type: ignore[list-item]
+        schema_utils.file_path_field_name(field),
+        schema_utils.row_id_field_name(field)
+    ]).rename_columns([file_path_field, row_id_field])
+
   # _RECORD_KEY_FIELD is the row index of addresses used for retrieving rows
   # after group by. It is not in the read result.
-  addresses = addresses.flatten().append_column(
+  addresses = addresses.append_column(
       _RECORD_KEY_FIELD, [np.arange(num_rows)])  # type: ignore[arg-type]
 
-  if field is None:
-    file_path_field = f"{FILE_PATH_FIELD}"
-    row_id_field = f"{ROW_ID_FIELD}"
-  else:
-    file_path_field = f"{field}.{FILE_PATH_FIELD}"
-    row_id_field = f"{field}.{ROW_ID_FIELD}"
-
   # Record row IDs and records key co-grouped by file path, for processing
   # one file at a time to minimize file reads.
   grouped_records = addresses.group_by(
-- 
2.43.0


From 03431fed9f913e18f7c45fb5b00d9d262bc0d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:57 +0000
Subject: [PATCH 31/31] fix: delete from storages that have a field called
 __ROW_ID

---
 python/src/space/core/ops/delete.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/python/src/space/core/ops/delete.py b/python/src/space/core/ops/delete.py
index 675becf..c5c8f19 100644
--- a/python/src/space/core/ops/delete.py
+++ b/python/src/space/core/ops/delete.py
@@ -94,8 +94,9 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
     for file in self._file_set.index_files:
       # TODO: this can be down at row group level.
       index_data = pq.read_table(self.full_path(file.path))
+      row_id_field = _row_id_field(index_data.column_names)
       index_data = index_data.append_column(
-          _ROW_ID_FIELD,
+          row_id_field,
           pa.array(np.arange(0, index_data.num_rows,
                              dtype=np.int32)))  # type: ignore[arg-type]
       index_data = index_data.filter(mask=self._reinsert_filter)
@@ -112,8 +113,8 @@ class FileSetDeleteOp(BaseDeleteOp, StoragePathsMixin):
 
       # Compute deleted row bitmap for change log.
       patch.change_log.deleted_rows.append(
-          _build_bitmap(file, index_data, all_deleted))
-      index_data = index_data.drop(_ROW_ID_FIELD)  # type: ignore[attr-defined]
+          _build_bitmap(file, index_data, row_id_field, all_deleted))
+      index_data = index_data.drop(row_id_field)  # type: ignore[attr-defined]
 
       # Record deleted files and manifests information.
       deleted_files.append(file.path)
@@ -195,7 +196,16 @@ def _validate_files(file_set: rt.FileSet) -> bool:
   return len(file_set.index_manifest_files) > 0
 
 
-def _build_bitmap(file: rt.DataFile, index_data: pa.Table,
+def _row_id_field(field_names: List[str]) -> str:
+  """Return a row ID field name that is not a field of the storage."""
+  name = _ROW_ID_FIELD
+  while name in field_names:
+    name = f"_{name}"
+
+  return name
+
+
+def _build_bitmap(file: rt.DataFile, index_data: pa.Table, row_id_field: str,
                   all_deleted: bool) -> meta.RowBitmap:
   row_bitmap = meta.RowBitmap(file=file.path,
                               num_rows=file.storage_statistics.num_rows)
@@ -204,7 +214,7 @@ def _build_bitmap(file: rt.DataFile, index_data: pa.Table,
   else:
     deleted_bitmaps = BitMap()
     deleted_bitmaps.add_range(0, file.storage_statistics.num_rows)
-    survivor_bitmaps = BitMap(index_data.column(_ROW_ID_FIELD).to_numpy())
+    survivor_bitmaps = BitMap(index_data.column(row_id_field).to_numpy())
     deleted_bitmaps.difference_update(survivor_bitmaps)
     row_bitmap.roaring_bitmap = deleted_bitmaps.serialize()
 
-- 
2.43.0

