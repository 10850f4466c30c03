"""A recording stand-in for the xmanager package (not installed here)."""
import asyncio
import inspect
import sys
import types


class Job:

  def __init__(self, executable, executor=None, args=None, **kw):
    self.executable, self.executor, self.args = executable, executor, args


class WorkUnit:

  def __init__(self, wid):
    self.work_unit_id = wid
    self.jobs = []

  def add(self, job, **kw):
    self.jobs.append(job)
    return self


class Experiment:
  last = None

  def __init__(self, title):
    self.title = title
    self.experiment_id = 4711
    self.units = []
    self.packaged = []
    Experiment.last = self

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def package(self, items):
    self.packaged += list(items)
    return list(items)

  def add(self, job, args=None, **kw):
    unit = WorkUnit(len(self.units) + 1)
    self.units.append(unit)
    if isinstance(job, Job):
      if args and 'args' in args:
        merged = dict(job.args or {})
        merged.update(args['args'])
        job = Job(job.executable, job.executor, merged)
      unit.jobs.append(job)
      return unit
    out = job(unit, **(args or {}))
    if inspect.iscoroutine(out):
      asyncio.run(out)
    return unit


class Anything:
  """Accepts every construction; remembers it."""

  def __init__(self, *a, **kw):
    self.a, self.kw = a, kw
    self.accelerator = 'gpu'

  def Spec(self):
    return self


def install():
  root = types.ModuleType('xmanager')
  xm = types.ModuleType('xmanager.xm')
  xm.Job = Job
  xm.JobRequirements = Anything
  xm.GiB = 1 << 30
  xm.ServiceTier = types.SimpleNamespace(BATCH='batch', PROD='prod')
  xm.python_container = lambda **kw: types.SimpleNamespace(**kw)
  xm.ModuleName = lambda m: m
  xm.Executor = Anything
  abc = types.ModuleType('xmanager.xm_abc')
  local = types.ModuleType('xmanager.xm_local')
  for m in (abc, local):
    m.create_experiment = lambda experiment_title=None, **kw: Experiment(
        experiment_title)
    m.Gcp = m.Local = m.Vertex = Anything
  contrib = types.ModuleType('xmanager.contrib')
  fd = types.ModuleType('xmanager.contrib.framework_defaults')
  fd.base_image = lambda *a: 'image'
  root.xm, root.xm_abc, root.xm_local, root.contrib = xm, abc, local, contrib
  contrib.framework_defaults = fd
  for m in (root, xm, abc, local, contrib, fd):
    sys.modules[m.__name__] = m
