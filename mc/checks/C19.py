"""C19: annealed importance sampling estimates the partition function."""
from mc import devices
DEVS = (1, 2, 4)
DEV = devices.setup(DEVS)
import os
import pickle
import tempfile
import jax
import jax.numpy as jnp
import numpy as np
from mc import graphs, report, stubs
from mc.report import guarded, HarnessError


def density(T, s, coef, lib=np):
  """An arbitrary smooth path of log-densities over states s."""
  c = lib.asarray(coef)
  return (1 - T) * c[0][s] + T * c[1][s] + T * T * c[2][s] + (
      T ** 3) * c[3][s]


class Model:
  """Samples (g, t, s): state s of chain g after t steps."""

  def __init__(self, init, coef, shape, path=None, draws=None, L=1):
    self.init, self.shape, self.L = jnp.asarray(init, jnp.int32), shape, L
    self.coef = np.asarray(coef, np.float32)
    self.path = None if path is None else jnp.asarray(path, jnp.int32)
    self.draws = None if draws is None else jnp.asarray(draws, jnp.float32)

  def make_init_params(self, rng):
    return dict(id=jnp.int32(3), coef=jnp.asarray(self.coef))

  def get_init_samples(self, rng, n):
    if n != len(self.init):
      raise HarnessError('initial samples %d' % n)
    z = jnp.arange(n)
    return jnp.stack([z, 0 * z, self.init], 1).reshape(
        (n,) + self.shape).astype(jnp.int32)

  def forward(self, p, x):
    y = x.reshape(x.shape[0], -1).astype(jnp.int32)
    return density(p['temperature'], y[:, 2], p['coef'], jnp)

  def move(self, p, x):
    y = x.reshape(x.shape[0], -1)
    g, t, s = y[:, 0], y[:, 1], y[:, 2]
    if self.path is not None:
      new = self.path[g, t + 1]
    else:                     # Metropolis step with the scripted uniform
      T = p['temperature']
      r = jnp.exp(density(T, 1 - s, p['coef'], jnp) - density(
          T, s, p['coef'], jnp))
      new = jnp.where(self.draws[g, t] < r, 1 - s, s)
    return jnp.stack([g, t + 1, new], 1).reshape(x.shape).astype(jnp.int32)


def run(chk, what, L, shape, parallel, init, coef, path=None, draws=None,
        exact=None):
  from discs.common import configs, experiment_saver
  from discs.experiment import sampling
  B = len(init)
  lab = '%s devices=%d parallel=%s chains=%d steps=%d shape=%s' % (
      what, DEV, parallel, B, L, shape)

  def bad(w, key, **kw):
    chk.violation('%s: %s' % (lab, w), key='%s:%s' % (key, lab),
                  replay=dict(case=lab, **kw))

  model = Model(init, coef, shape, path, draws, L)
  with tempfile.TemporaryDirectory(prefix='mc_c19_') as root:
    cfg = configs.get_config()
    with cfg.unlocked():
      cfg.model.name, cfg.model.shape = 'resnet', shape
      e = cfg.experiment
      e.name = 'EBM_Experiment'
      e.batch_size, e.chain_length = B, L
      e.run_parallel, e.save_root = parallel, os.path.join(root, 'o')
      cfg.sampler.name = 'stub'
    trace = stubs.Trace()
    with graphs.quiet():
      getattr(sampling, e.name)(cfg).get_results(
          model, stubs.Sampler(trace), None,
          experiment_saver.build_saver(cfg))
      jax.effects_barrier()
    with open(os.path.join(e.save_root, 'logz.pkl'), 'rb') as f:
      got = np.asarray(pickle.load(f)['logz'], np.float64)
  rows = trace.rows
  chk.count(states=B * L, transitions=B * L, traces=B)
  keys = [r['key'] for r in rows]
  if len(set(keys)) != len(keys):
    return bad('two steps used the same random key', 'key')
  S = np.full((B, L), -1)
  for r in rows:
    y = r['x'].reshape(r['x'].shape[0], -1)
    t = int(y[0, 1])
    if (y[:, 1] != t).any() or r['steps'] != t or t >= L or (
        S[y[:, 0], t] >= 0).any():
      return bad('step %d was run on chains at steps %s' % (
          r['steps'], sorted(set(y[:, 1].tolist()))), 'steps')
    S[y[:, 0], t] = y[:, 2]
    if abs(r['temp'] - (t + 1) / L) > 1e-5:
      return bad('move %d was made at temperature %g, expected %g' % (
          t + 1, r['temp'], (t + 1) / L), 'temp')
  if (S < 0).any():
    return bad('%d moves are missing' % (S < 0).sum(), 'moves')
  w = np.zeros(B)
  want = []
  for t in range(L):
    w = w + density((t + 1) / L, S[:, t], coef) - density(t / L, S[:, t], coef)
    want.append(np.log(np.mean(np.exp(w - w.max()))) + w.max())
  want = np.array(want)
  if got.shape != want.shape or not np.allclose(got, want, rtol=2e-4,
                                                atol=2e-4):
    return bad('log-partition trajectory %s, from the visited samples %s' % (
        got.tolist(), want.tolist()), 'logz')
  if exact is not None and abs(got[-1] - exact) > 5e-4 * (1 + abs(exact)):
    return bad('expected weight gives %g, the true log ratio of partition '
               'functions is %g' % (got[-1], exact), 'exp')
  chk.cover('%s D=%d' % (what, DEV), 1)
  chk.sample(dict(case=lab, logz=got.tolist()))


def histories(K, L, mult):
  n = K ** L
  m = -(-n // mult) * mult
  out = []
  for c in range(m):
    c %= n
    h = []
    for _ in range(L):
      h.append(c % K)
      c //= K
    out.append(h + [0])
  return np.array(out)


def expectation(L, base):
  """All uniform draws of a two-state chain with pi_t(1)/pi_t(0) = base^t."""
  # initial distribution uniform over {0, 1}; accept probabilities base^-t
  den = [base ** t for t in range(1, L)]
  init, draws = [], []
  import itertools
  for c in itertools.product(range(2), *[range(d) for d in den]):
    init.append(c[0])
    draws.append([(u + 0.5) / d for u, d in zip(c[1:], den)] + [0.5])
  e = L * np.log(base)
  coef = np.array([[0.0, 0.0], [0.0, e], [0.0, 0.0], [0.0, 0.0]])
  return np.array(init), np.array(draws), coef, np.log(
      (1 + np.exp(e)) / 2.0)


def body(chk):
  q = chk.quick
  chk.bounds.append('all state histories of 3 states x 4 steps, 2 states x 6 '
                    'steps; exact expectation over every outcome of every move '
                    'for runs of 1..4 steps; devices 1, 2, 4')
  jobs = []
  rs = np.random.RandomState(7)
  pars = (True, False) if DEV > 1 else (True,)
  for par in pars:
    for K, L in ((3, 4), (2, 6), (4, 3), (5, 2), (6, 1)) + (
        () if q else ((3, 6), (2, 9))):
      h = histories(K, L, 4)
      coef = rs.normal(size=(4, K)) * 1.3
      for shape in ((3,), (3, 1), (1, 3, 1)):
        if q and shape != ((3,), (3, 1), (1, 3, 1))[L % 3]:
          continue
        jobs.append(('all histories', L, shape, par, h[:, 0], coef, h, None,
                     None))
    for K, L in ((3, 4), (2, 6), (4, 1)):     # steep: weights span e^100
      h = histories(K, L, 4)
      jobs.append(('steep densities', L, (3,), par, h[:, 0],
                   rs.normal(size=(4, K)) * 30, h, None, None))
    for B in (4, 8, 12):
      h = histories(3, 5, 4)[11::(243 // B)][:B]
      jobs.append(('few chains', 5, (3,), par, h[:, 0],
                   rs.normal(size=(4, 3)) * 2, h, None, None))
    for base in (2, 3):
      for L in (1, 2, 3, 4):
        if q and base ** (L * (L - 1) // 2) > 1000:
          continue
        init, draws, coef, exact = expectation(L, base)
        r = 4 // np.gcd(4, len(init))
        jobs.append(('expectation', L, (3, 1), par, np.tile(init, r), coef, None,
                     np.tile(draws, (r, 1)), exact))
  for j in jobs:
    if devices.mine(chk, DEVS) and not chk.full():
      guarded(chk, '%s D=%d %s' % (j[0], DEV, j[1:4]), run, chk, *j)


if __name__ == '__main__':
  report.run_main('C19', body, shards=(6, 6))
