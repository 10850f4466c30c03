"""C18: ESS results are computed from exactly the post-burn-in chain."""
from mc import devices
DEVS = (1, 2, 4)
DEV = devices.setup(DEVS)
import csv
import os
import pickle
import re
import tempfile
import jax
import jax.numpy as jnp
import numpy as np
from mc import graphs, report, stubs
from mc.report import guarded, HarnessError

VALS = (0, 1, 2, 4)
X0A = 1          # the reference sample's value at the scripted coordinate


class Model:
  """Samples (g, t, a, b): a is scripted, b cancels the trend of t."""

  def __init__(self, script, shape):
    self.script = jnp.asarray(script, jnp.int32)   # [chains, L + 1]
    self.shape = shape
    self.calls = []

  def make_init_params(self, rng):
    return dict(params=jnp.arange(4.0).reshape(self.shape) + 0.5,
                id=jnp.int32(3))

  def get_init_samples(self, rng, n):
    self.calls.append(n)
    if n == 1 and len(self.calls) > 1:    # the reference sample
      x = jnp.asarray([[-7, -7, X0A, -60]])
    else:
      z = jnp.arange(n)
      x = jnp.stack([z, 0 * z, self.script[:n, 0], 0 * z], 1)
    return x.reshape((n,) + self.shape).astype(jnp.int32)

  def move(self, p, x):
    y = x.reshape(x.shape[0], -1)
    g, t = y[:, 0], y[:, 1] + 1
    return jnp.stack([g, t, self.script[g, t], -t], 1).reshape(
        x.shape).astype(jnp.int32)

  def forward(self, p, x):
    return jnp.zeros(x.shape[0])


def ess(v, tie=0.0):
  """Effective sample size of one series (autocorrelation up to the first
  negative lag; `tie` decides autocorrelations that vanish up to rounding)."""
  n = len(v)
  v = np.asarray(v, float) - np.mean(v)
  cov = np.array([np.dot(v[:n - k], v[k:]) / (n - k) for k in range(n)])
  if cov[0] <= 1e-9:
    return 1.0
  r = cov / cov[0]
  neg = np.cumsum(r < tie) > 0
  r = np.where(neg, 0, r)
  return n / (-1 + 2 * np.sum((n - np.arange(n)) / n * r))


def floats(s):
  return [float(v) for v in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:e[-+]?\d+)?'
                                       r'|inf|nan', s)]


SAMPLERS = [
    (dict(name='gibbs'), 'gibbs'),
    (dict(name='gwg', adaptive=True, balancing_fn_type='SQRT'),
     'a_gwg(sqrt)'),
    (dict(name='randomwalk', adaptive=False), 'randomwalk'),
    (dict(name='dlmc', adaptive=True, solver='euler_forward',
          balancing_fn_type='RATIO'), 'a_dlmcf(ratio)'),
    (dict(name='dlmc', adaptive=False, solver='interpolate',
          balancing_fn_type='MAX'), 'dlmc(max)'),
    (dict(name='path_auxiliary', adaptive=False, balancing_fn_type='MIN'),
     'path_auxiliary(min)'),
]


def run(chk, script, L, ratio, shape, parallel, mode, every, smp, extra=None):
  from discs.common import configs, experiment_saver
  from discs.evaluators import ess_eval
  from discs.experiment import sampling
  B = len(script)
  lab = 'devices=%d parallel=%s chains=%d steps=%d burn-in=%g shape=%s %s/%d %s' % (
      DEV, parallel, B, L, ratio, shape, mode, every, smp[1])

  def bad(what, key, **kw):
    chk.violation('%s: %s' % (lab, what), key='%s:%s' % (key, lab),
                  replay=dict(case=lab, script=np.asarray(script)[:4].tolist(),
                              **kw))

  with tempfile.TemporaryDirectory(prefix='mc_c18_') as root:
    cfg = configs.get_config()
    with cfg.unlocked():
      cfg.model.name = {'rbm': 'rbm', 'resnet': 'resnet'}.get(
          mode, 'bernoulli')
      cfg.model.shape, cfg.model.num_categories = shape, 5
      e = cfg.experiment
      e.batch_size, e.chain_length, e.ess_ratio = B, L, ratio
      e.run_parallel, e.save_root = parallel, os.path.join(root, 'o')
      e.save_every_steps = every
      e.save_samples = mode in ('rbm', 'resnet')
      e.get_estimation_error = mode == 'error'
      for k, v in (extra or {}).items():
        e[k] = v
      for k, v in smp[0].items():
        cfg.sampler[k] = v
    trace = stubs.Trace()
    with graphs.quiet():
      getattr(sampling, e.name)(cfg).get_results(
          Model(script, shape), stubs.Sampler(trace),
          ess_eval.build_evaluator(cfg), experiment_saver.build_saver(cfg))
      jax.effects_barrier()
    with open(os.path.join(e.save_root, 'results.csv')) as f:
      tab = list(csv.DictReader(f))
    pk = {}
    for n in ('samples', 'params'):
      p = os.path.join(e.save_root, n + '.pkl')
      if os.path.exists(p):
        with open(p, 'rb') as f:
          pk[n] = pickle.load(f)
  rows = trace.rows
  chk.count(states=B * L, transitions=B * L, traces=B)
  # the chains really run
  keys = [r['key'] for r in rows]
  if len(set(keys)) != len(keys):
    return bad('two steps used the same random key', 'key')
  at = {}
  for r in rows:
    y = r['x'].reshape(r['x'].shape[0], -1)
    for g, t, a, _ in y.tolist():
      at.setdefault(t, []).append(g)
    if r['steps'] != y[0, 1]:
      return bad('sampler state at step %d is used for step %d' % (
          r['steps'], y[0, 1]), 'state')
  if sorted(at) != list(range(L)) or any(
      sorted(v) != list(range(B)) for v in at.values()):
    return bad('steps run: %s' % {t: len(v) for t, v in at.items()}, 'run')
  # the table
  if len(tab) != 1:
    return bad('%d result rows' % len(tab), 'rows')
  tab = tab[0]
  first = int(L * ratio) + 1
  S = np.abs(np.asarray(script)[:, first:] - X0A)
  pair = [np.mean([ess(s, tie) for s in S]) for tie in (-1e-5, 1e-5)]
  got = floats(tab['ESS'])
  if not got or not (min(pair) * (1 - 2e-3) <= got[0] <= max(pair) * (
      1 + 2e-3)):
    return bad('reported ESS %s, from the post-burn-in chains %g' % (
        tab['ESS'], pair[0]), 'ess', want=pair)
  E = np.array(got[0])
  exp = dict(model=cfg.model.name, num_categories='5', shape=str(shape),
             batch_size=str(B), chain_length=str(L), ess_ratio=str(ratio),
             sampler=smp[1])
  for k, v in exp.items():
    if tab.get(k) != v:
      return bad('results table has %s=%s, run used %s' % (k, tab.get(k), v),
                 'tab:' + k)
  if ratio == 0.5:
    time = float(tab['Time'])
    for k, v in (('ESS_M-H', E.mean() / (L / 2)),
                 ('ESS_EE', E.mean() / (3 * L / 2)),
                 ('ESS_T', E.mean() / time)):
      g = floats(tab[k])
      if not g or abs(g[0] - v) > 3e-3 * abs(v):
        return bad('%s is %s, expected %g' % (k, tab[k], v), k)
  # trajectories
  if mode in ('rbm', 'resnet', 'error'):
    if 'samples' not in pk:
      return bad('no sample trajectory was saved', 'nosmp')
    tr = np.asarray(pk['samples']['trajectory'])
    ts = [t for t in range(1, L + 1) if t % every == 0]
    k = min(4, B)
    if tr.shape[:2] != (len(ts), k) or tr.size != len(ts) * k * 4:
      return bad('trajectory of shape %s for %d saved steps of %d chains' % (
          tr.shape, len(ts), k), 'tshape')
    tr = tr.reshape(len(ts), k, 4)
    ids = tr[0, :, 0].tolist()
    if len(set(ids)) != k:
      return bad('the saved chains %s are not distinct' % ids, 'tid')
    for j, t in enumerate(ts):
      for c in range(k):
        want = [ids[c], t, int(script[ids[c]][t]), -t]
        if tr[j, c].astype(int).tolist() != want:
          return bad('saved entry %d of chain %d is %s, the run had %s' % (
              j, c, tr[j, c].tolist(), want), 'traj')
  if mode == 'error':
    p = np.asarray(pk.get('params', {}).get('params', np.zeros(0)))
    if p.shape != shape or not np.allclose(p.ravel(), np.arange(4) + 0.5):
      return bad('saved parameters %s' % p, 'par')
  chk.cover('D=%d' % DEV, 1)
  chk.sample(dict(case=lab))


def decode(c, n, vals):
  out = []
  for _ in range(n):
    out.append(vals[c % len(vals)])
    c //= len(vals)
  return out


def all_hist(W, L, vals, pad, mult):
  """Every post-burn-in history, with misleading burn-in values."""
  n = len(vals) ** W
  m = -(-n // mult) * mult
  out = []
  for c in range(m):
    head = decode((c * 7919 + 13) % 4 ** 9, L + 1 - W, VALS)
    out.append(head + decode(c % n, W, vals))
  return np.array(out)


def body(chk):
  q = chk.quick
  chk.bounds.append('all histories over 4 distances (4 post-burn-in steps), 3 '
                    'distances (5 steps), 2 (7 steps); burn-in 0, 1/4, 1/2, 3/4; '
                    'devices 1, 2, 4; 1..9 chains; saving every 1..5 steps; '
                    'distances up to 80000')
  chk.assumptions.append('the distance used is the sum of absolute differences')
  pars = (True, False) if DEV > 1 else (True,)
  jobs = []
  for par in pars:
    D = DEV if par else 1
    for shape in ((4,), (2, 2)):
      jobs.append((all_hist(4, 8, VALS, 0, 4), 8, 0.5, shape, par, 'ess', 1,
                   SAMPLERS[0]))
    jobs.append((all_hist(5, 10, (0, 1, 4), 0, 4), 10, 0.5, (4,), par, 'rbm', 2,
                 SAMPLERS[1]))
    jobs.append((all_hist(7, 9, (1, 4), 0, 4), 9, 0.25, (2, 2), par, 'error', 3,
                 SAMPLERS[2]))
    jobs.append((all_hist(6, 6, (1, 2), 0, 4), 6, 0.0, (4,), par, 'resnet', 1,
                 SAMPLERS[3]))
    jobs.append((all_hist(3, 12, VALS, 0, 4), 12, 0.75, (4,), par, 'rbm', 5,
                 SAMPLERS[4]))
    for k, scale in enumerate((90, 20000)):     # distances of large samples
      jobs.append((all_hist(4, 8, VALS, 0, 4) * scale, 8, 0.5, (4,), par, 'ess',
                   1, SAMPLERS[k]))
    for k, B in enumerate((1, 2, 3, 4, 5, 6, 8, 9)):
      if B % D:
        continue
      for j in range(1 if q else 4):
        L = 9 + (k + j) % 4
        sc = np.array([decode(48271 * (c + 3 + 11 * j + k) % 4 ** 14, L + 1,
                              VALS) for c in range(B)])
        for mode, every in (('rbm', 1 + k % 3), ('error', 2), ('ess', 1)):
          jobs.append((sc, L, (0.5, 0.25, 0.5, 0.6)[(k + j) % 4],
                       ((4,), (2, 2))[k % 2], par, mode, every,
                       SAMPLERS[(k + j) % 6]))
    for s in SAMPLERS:
      sc = np.array([decode(69621 * (c + 3) % 4 ** 14, 11, VALS)
                     for c in range(4)])
      jobs.append((sc, 10, 0.5, (4,), par, 'ess', 1, s,
                   dict(get_additional_metrics=True) if s == SAMPLERS[0] else
                   None))
  for j in jobs:
    if devices.mine(chk, DEVS) and not chk.full():
      guarded(chk, 'run D=%d %s' % (DEV, j[1:]), run, chk, *j)


if __name__ == '__main__':
  report.run_main('C18', body, shards=(6, 6))
