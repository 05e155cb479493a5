"""ray.types."""
from typing import Generic, TypeVar

T = TypeVar("T")


class ObjectRef(Generic[T]):

  def __init__(self):
    self.value = None
    self.error = None
    self.done = False
    self.run = None
