"""Runs whole experiments through the real main script, sizes reduced.

usage: python -m mc.combo_worker JOBS.pkl OUT.pkl
JOB: dict(args={flag: value}, dir=working directory, reduce={dotted: value})
OUT: list of ('ok', dict(merged, files, steps)) | ('error', text, traceback)
"""
import contextlib
import csv
import importlib
import io
import os
import pickle
import sys
import traceback

os.environ.setdefault('HF_HUB_OFFLINE', '1')
os.environ.setdefault('TRANSFORMERS_VERBOSITY', 'error')
from absl import flags
import jax
import jax.numpy as jnp
import numpy as np


class Watch:
  """Monitors every sample a sampler returns."""

  def __init__(self):
    self.calls = 0
    self.lo, self.hi, self.moved = 10 ** 9, -10 ** 9, 0
    self.shapes, self.integer, self.finite = set(), True, True

  def __call__(self, lo, hi, moved, acc):
    self.calls += 1
    self.lo = min(self.lo, float(lo))
    self.hi = max(self.hi, float(hi))
    self.moved += float(moved)
    self.finite &= bool(np.isfinite(acc).all())

  def attach(self, sampler):
    inner = sampler.step

    def step(*a, **kw):
      x = kw['x'] if 'x' in kw else a[2]
      out = inner(*a, **kw)
      new = out[0]
      self.shapes.add((tuple(x.shape), tuple(new.shape)))
      self.integer &= bool(jnp.issubdtype(new.dtype, jnp.integer))
      jax.debug.callback(self, new.min(), new.max(),
                         (new != x.astype(new.dtype)).sum(), out[2])
      return out

    sampler.step = step
    return sampler


def put(cfg, dotted, v):
  node = cfg
  parts = dotted.split('.')
  for p in parts[:-1]:
    node = node[p]
  with cfg.unlocked():
    node[parts[-1]] = v


def collect(d):
  out = {}
  for top, _, fs in os.walk(d):
    for f in fs:
      p = os.path.join(top, f)
      rel = os.path.relpath(p, d)
      if f.endswith('.pkl'):
        out[rel] = pickle.load(open(p, 'rb'))
      elif f.endswith('.csv'):
        with open(p) as h:
          out[rel] = list(csv.DictReader(h))
      else:
        out[rel] = os.path.getsize(p)
  return out


def main(src, dst):
  sys.argv = ['main_sampling']
  from discs.experiment import main_sampling as ms
  F = flags.FLAGS
  base = set(F)
  real = ms.get_main_config
  out = []
  for job in pickle.load(open(src, 'rb')):
    argv = ['main_sampling'] + ['--%s=%s' % kv for kv in job['args'].items()]
    here = os.getcwd()
    watch, seen = Watch(), {}
    mod = None
    try:
      os.chdir(job['dir'])
      if F.is_parsed():
        F.unparse_flags()
      for name in [x for x in F if x not in base and '.' in x]:
        delattr(F, name)
      sys.argv = list(argv)
      F(argv)

      def get_main_config():
        cfg = real()
        seen['merged'] = cfg.to_dict()
        for k, v in job['reduce'].items():
          put(cfg, k, v)
        seen['cfg'] = cfg
        return cfg

      ms.get_main_config = get_main_config
      mod = importlib.import_module('discs.samplers.%s' % job['sampler'])
      build = mod.build_sampler
      mod.build_sampler = lambda cfg: watch.attach(build(cfg))
      sink = io.StringIO()
      with contextlib.redirect_stdout(sink):
        ms.main([])
      jax.effects_barrier()
      out.append(('ok', dict(
          merged=seen['merged'], files=collect(job['dir']), calls=watch.calls,
          lo=watch.lo, hi=watch.hi, moved=watch.moved, shapes=watch.shapes,
          integer=watch.integer, finite=watch.finite,
          shape=tuple(seen['cfg'].model.shape),
          categories=int(seen['cfg'].model.num_categories),
          num_models=int(seen['cfg'].experiment.num_models),
          name=seen['cfg'].experiment.name,
          batch=int(seen['cfg'].experiment.batch_size),
          chain=int(seen['cfg'].experiment.chain_length))))
    except BaseException as e:  # pylint: disable=broad-except
      out.append(('error', '%s: %s' % (type(e).__name__, e),
                  traceback.format_exc()))
    finally:
      os.chdir(here)
      ms.get_main_config = real
      if mod is not None:
        mod.build_sampler = build
      jax.clear_caches()
  pickle.dump(out, open(dst, 'wb'))


if __name__ == '__main__':
  main(sys.argv[1], sys.argv[2])
