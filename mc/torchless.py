"""Stand-ins for packages that are not installed (torch, torchvision, tfds).

The learning code only needs them to fetch data sets; nothing of what is checked
runs in them.
"""
import contextlib
import io
import sys
import types


def _mod(name, **kw):
  if name in sys.modules:
    return sys.modules[name]
  m = types.ModuleType(name)
  m.__dict__.update(kw)
  sys.modules[name] = m
  parent, _, leaf = name.rpartition('.')
  if parent:
    setattr(sys.modules[parent], leaf, m)
  return m


def install(tfds_load=None):
  try:
    import torch  # pylint: disable=unused-import
  except ImportError:
    for n in ('torch', 'torch.utils', 'torch.utils.data', 'torchvision',
              'torchvision.transforms', 'torchvision.datasets'):
      _mod(n)
  if tfds_load is not None:
    sys.modules.pop('tensorflow_datasets', None)
    _mod('tensorflow_datasets', load=tfds_load)
  else:
    try:
      import tensorflow_datasets  # pylint: disable=unused-import
    except ImportError:
      _mod('tensorflow_datasets', load=None)


@contextlib.contextmanager
def quiet():
  with contextlib.redirect_stdout(io.StringIO()):
    yield
