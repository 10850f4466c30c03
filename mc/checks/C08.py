"""C08: adaptation stays in range and follows the acceptance rate.

Breadth-first exploration of all histories over an alphabet of environment
answers (how sharply moves are punished x how steep the reported gradient is)
on the real step function; every reached tuning state is checked.
"""
from mc import engine
engine.install()
import itertools
import math
import jax
import jax.numpy as jnp
import numpy as np
from mc import cfgs, kernels, report, zoo
from mc.report import guarded


class Env:
  """Energy -sharp*(distance from 0); reported slope g per flipped site.

  params = [sharp, g]; the slope seen by the sampler is g whatever the state.
  """

  def __init__(self, shape, n):
    self.shape, self.n = tuple(shape), n

  def forward(self, params, x):
    x = x.astype(jnp.float32)
    off = 1.0 - x[..., 0] if x.ndim == len(self.shape) + 2 else (
        x != 0).astype(jnp.float32)
    return -params[0] * jnp.sum(off.reshape(off.shape[0], -1), -1)

  def get_value_and_grad(self, params, x):
    xf = x.astype(jnp.float32)
    if self.n == 2:
      g = params[1] * (1 - 2 * xf)
    else:
      g = params[1] * (1 - xf)
    return self.forward(params, x), g


def explore(chk, nm, shape, n, over, co, alphabet, depth, batch, words=None):
  """All histories to `depth`, or the periodic repetition of each of `words`."""
  lab = zoo.label(nm, n, shape, over, co)
  s = cfgs.build(nm, shape, n, co, **over)
  env = Env(shape, n)
  d = math.prod(shape)
  x0 = jnp.zeros((batch,) + tuple(shape), jnp.int32)
  init = s.make_init_state(jax.random.PRNGKey(0))
  cfg = cfgs.make(nm, shape, n, co, **over).sampler
  adaptive = bool(cfg.get('adaptive', False)) and not (
      nm == 'gwg' and n != 2)
  target = cfg.get('target_acceptance_rate', None)

  def one(state, par, rng):
    y, st, acc = s.step(model=env, rng=rng, x=x0, model_param=par, state=state)
    return st, acc

  step = jax.jit(jax.vmap(one, in_axes=(0, 0, None)))
  A = jnp.asarray(alphabet, jnp.float32)
  front = jax.tree_util.tree_map(lambda a: jnp.asarray(a)[None], dict(init))
  hist = np.zeros((1, 0), int)
  if words:
    front = jax.tree_util.tree_map(lambda a: jnp.repeat(a, len(words), 0), front)
    hist = np.zeros((len(words), 0), int)
    const = np.array([len(set(w)) == 1 for w in words])
  for t in range(depth):
    if words:
      now = np.array([w[t % len(w)] for w in words])
      old, par = front, A[now]
      h = np.concatenate([hist, now[:, None]], 1)
    else:
      rep = len(A)
      old = jax.tree_util.tree_map(lambda a: jnp.repeat(a, rep, 0), front)
      par = jnp.tile(A, (len(hist), 1))
      h = np.concatenate([np.repeat(hist, rep, 0),
                          np.tile(np.arange(rep), len(hist))[:, None]], 1)
    new, acc = step(old, par, jax.random.PRNGKey(100 + t))
    o = {k: np.asarray(v, np.float64) for k, v in old.items()}
    w = {k: np.asarray(v, np.float64) for k, v in new.items()}
    acc = np.asarray(acc, np.float64).reshape(-1)
    chk.count(states=len(h), transitions=len(h), traces=len(h))

    def bad(mask, what, extra=''):
      if mask.any():
        i = int(np.argmax(mask))
        chk.violation('%s: %s after history %s (acceptance %.3f): %s' % (
            lab, what, [alphabet[k] for k in h[i]], acc[i],
            {k: (o[k][i].tolist(), w[k][i].tolist()) for k in w}),
            key='%s:%s' % (what, lab), replay=dict(
                case=lab, history=[alphabet[k] for k in h[i]]))
        return True
      return False

    if bad(~np.isfinite(acc), 'acceptance not finite'):
      return
    for k in w:
      if bad(~np.isfinite(w[k]).reshape(len(h), -1).all(1),
             'tuning state %s not finite' % k):
        return
    tune = [k for k in ('radius', 'log_tau', 'log_z') if k in w]
    if not adaptive or co:
      for k in tune:
        if nm in ('dlmc', 'dmala') and t == 0:
          continue   # a fixed step size may be set by the first step
        if bad(np.abs(w[k] - o[k]) > 1e-6,
               'fixed tuning value %s changed' % k):
          return
    else:
      up, down = acc > target + 1e-4, acc < target - 1e-4
      if 'radius' in w:
        r0, r1 = o['radius'], w['radius']
        if bad((r1 < 1 - 1e-6) | (r1 > d + 1e-6), 'radius out of range'):
          return
        if bad(up & ~((r1 > r0) | (r1 >= d - 1e-6)),
               'radius not increased above the target rate'):
          return
        if bad(down & ~((r1 < r0) | (r1 <= 1 + 1e-6)),
               'radius not decreased below the target rate'):
          return
      if 'log_tau' in w:
        z = w['log_z']
        if words:    # in a constant environment the total rate is constant
          zf = z if t == 0 else zf
          z = np.where(const, zf, z)
        nn = np.exp(np.clip(w['log_tau'] + z, None, 80))
        if bad(nn < 1 - 1e-3 - 1e-6 * np.abs(w['log_z']),
               'less than one expected flip'):
          return
        if True:
          t0, t1 = o['log_tau'], w['log_tau']
          if t == 0:   # the first step is made with the initial step size
            t0 = math.log(cfg.get('n', 3.0)) - w['log_z']
          fine = (nn < 1e4) & (np.abs(w['log_z']) < 1e3)
          slack = 1e-4 + 1e-6 * np.abs(w['log_z'])   # float32 rounding
          if bad(up & ~np.where(fine, t1 > t0, t1 >= t0 - slack),
                 'step size not increased above the target rate'):
            return
          if bad(down & ~np.where(fine, (t1 < t0) | (nn < 1 + 1e-3),
                                  t1 <= t0 + slack),
                 'step size not decreased below the target rate'):
            return
    front, hist = new, h
    if not words or t + 1 == depth:
      chk.cover('%s depth %d' % (nm, t + 1), len(h))
    for k, m in (('above', acc > (target or 0.5)),
                 ('below', acc < (target or 0.5))):
      chk.cover('%s acceptance %s target' % (nm, k), int(m.sum()))
  chk.sample(dict(case=lab, histories=len(hist),
                  radius=sorted({round(float(v), 3) for v in np.asarray(
                      front.get('radius', [0]))})[:8]))


def body(chk):
  q = chk.quick
  alpha = [(0.0, 0.0), (60.0, 0.0), (0.35, 0.0), (0.0, 4.0), (60.0, -6.0)]
  deep = [(0.0, 0.0), (60.0, 2.0)]
  chk.bounds.append('all histories over %d environments to depth %d, and over 2 '
                    'extreme environments to depth %d' % (
                        len(alpha), 5 if q else 7, 10 if q else 14))
  steep = [(0.0, 0.0), (60.0, 300.0), (1e4, -300.0), (0.0, 1e6), (1e5, 40.0)]
  chk.assumptions.append('the first Langevin step starts from the configured '
                         'number of expected flips')
  words = [w for k in (1, 2, 3) for w in itertools.product(range(
      3 if k == 3 and q else len(alpha)), repeat=k)]
  chk.bounds.append('every periodic history with period up to 3, for %d steps '
                    '(past the end of the step-size schedules)' % (
                        230 if q else 420))
  jobs = []
  for shape, n in (((3,), 2), ((2,), 3), ((2, 2), 2), ((3, 2), 3)) + (
      () if q else (((2, 1, 2), 2), ((3,), 4))):
    for nm, ov, co in zoo.settings(n, full=not q):
      if zoo.FAMILY[nm] != 'mh' or ov.get('approx_with_grad') is False:
        continue
      if q and len(shape) > 1:
        jobs.append((nm, shape, n, ov, co, alpha, 60, 2, words))
        continue
      jobs.append((nm, shape, n, ov, co, alpha, 5 if q else 7, 2))
      jobs.append((nm, shape, n, ov, co, deep, 10 if q else 14, 1))
      jobs.append((nm, shape, n, ov, co, steep, 4 if q else 6, 1))
      jobs.append((nm, shape, n, ov, co, alpha, 230 if q else 420, 1, words))
      if nm in ('dlmc', 'dmala') and not co:
        jobs.append((nm, shape, n, dict(ov, schedule_step=3, reset_z_est=4),
                     co, alpha, 5 if q else 7, 1))
      if nm == 'dlmc' and not co:
        jobs.append((nm, shape, n, dict(ov, schedule_step=0, reset_z_est=-1),
                     co, alpha, 5, 1))
      if 'target_acceptance_rate' in cfgs.make(nm, shape, n, co).sampler:
        jobs.append((nm, shape, n, dict(ov, target_acceptance_rate=0.9), co,
                     alpha, 4 if q else 6, 2))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, 'explore %s' % (j,), explore, chk, *j)


if __name__ == '__main__':
  report.run_main('C08', body, shards=(7, 8))
