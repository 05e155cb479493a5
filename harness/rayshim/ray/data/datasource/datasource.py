"""ray.data.datasource.datasource."""


class WriteResult:
  pass


class Datasource:

  def create_reader(self, **read_args):
    raise NotImplementedError


class Reader:

  def get_read_tasks(self, parallelism):
    raise NotImplementedError


class ReadTask:

  def __init__(self, read_fn, metadata):
    self._read_fn = read_fn
    self._metadata = metadata

  def get_metadata(self):
    return self._metadata

  def __call__(self):
    yield from self._read_fn()
