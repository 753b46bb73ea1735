"""Jython has no mmap module; bitstring only needs it to open files, which nothing here does."""
ACCESS_READ = 1
def mmap(*args, **kwargs):
  raise NotImplementedError("mmap is not available")
