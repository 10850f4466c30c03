"""C11: factorial HMM energy == generative joint log-probability."""
from mc import engine
engine.install()
import importlib
import itertools
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
from mc import report
from mc.report import guarded, HarnessError


def build(shape, n, **kw):
  mod = importlib.import_module('discs.models.fhmm')
  cfg = importlib.import_module(
      'discs.models.configs.fhmm_config').get_config().to_dict()
  cfg.update(shape=shape, num_categories=n, **kw)
  return mod.build_model(ml_collections.ConfigDict(dict(model=cfg)))


def prior(xs, n, alpha, beta, init=None):
  """log P(x) of every hidden configuration [S, L, K]."""
  if n == 2:
    p0 = np.array([1 - alpha, alpha])
    T = np.array([[beta, 1 - beta], [1 - beta, beta]])
  else:
    p0 = np.asarray(init, np.float64)
    T = np.full((n, n), (1 - beta) / (n - 1))
    np.fill_diagonal(T, beta)
  out = np.log(p0)[xs[:, 0]].sum(-1)
  for t in range(1, xs.shape[1]):
    out = out + np.log(T)[xs[:, t - 1], xs[:, t]].sum(-1)
  return out


def mean(xs, w, n):
  """Observation mean without offset [S, L]."""
  w = np.asarray(w, np.float64)
  if n == 2:
    return (xs * w.reshape(-1)).sum(-1)
  k = xs.shape[2]
  return sum(w[j, xs[:, :, j]] for j in range(k))


def energy(chk, shape, n, alpha, beta, sigma, key):
  lab = 'fhmm L=%d K=%d n=%d alpha=%g beta=%g sigma=%g key=%d' % (
      *shape, n, alpha, beta, sigma, key)
  m = build(shape, n, alpha=alpha, beta=beta, sigma=sigma)
  params = m.make_init_params(jax.random.PRNGKey(key))
  xs = engine.all_states(shape, n)
  init = None
  if n > 2:
    init = np.exp(np.asarray(params['alpha'], np.float64))
    if abs(init.sum() - 1) > 1e-4 or abs(init[0] - (1 - alpha)) > 1e-4 or (
        init < 0).any():
      chk.violation('%s: initial distribution %s is not a distribution with '
                    'first entry 1-alpha' % (lab, init.tolist()),
                    key='alpha:' + lab, replay=dict(case=lab))
      return
  y = np.asarray(params['y'], np.float64).reshape(-1)
  b = float(np.asarray(params['b']).reshape(-1)[0])
  want = prior(xs, n, alpha, beta, init) - (
      (y - mean(xs, params['w'], n) - b) ** 2).sum(-1) / (2 * sigma ** 2)
  forms = [('int', jnp.asarray(xs, jnp.int32))]
  if n == 2:
    forms.append(('float', jnp.asarray(xs, jnp.float32)))
  else:
    forms.append(('one-hot', jnp.asarray(np.eye(n)[xs], jnp.float32)))
  shift = None
  for form, x in forms:
    runs = [('eager', np.asarray(m.forward(params, x))),
            ('jit', np.asarray(jax.jit(m.forward)(params, x)))]
    if form != 'one-hot int' and not (n > 2 and form == 'int'):
      runs.append(('with gradient', np.asarray(
          m.get_value_and_grad(params, x)[0])))
    rows = list(range(0, len(xs), max(1, len(xs) // 12)))
    alone = np.array([float(np.asarray(m.forward(params, x[i:i + 1]))[0])
                      for i in rows])
    for mode, got in runs + [('alone', alone)]:
      w = want if mode != 'alone' else want[rows]
      chk.count(states=len(w), transitions=len(w), traces=len(w))
      got = np.asarray(got, np.float64)
      if got.shape != w.shape:
        chk.violation('%s %s %s: shape %s' % (lab, form, mode, got.shape),
                      key='shape:' + lab, replay=dict(case=lab))
        return
      d = got - w
      if shift is None:
        shift = d[0]
      e = np.abs(d - shift) / (1 + np.abs(w))
      if not e.max() < 3e-4:
        i = int(np.argmax(np.nan_to_num(e, nan=9)))
        chk.violation(
            '%s %s %s: log-density of %s differs from the joint '
            'log-probability by %.5f, that of the first configuration by %.5f'
            % (lab, form, mode, xs[i].tolist(), d[i], shift),
            key='energy:%s:%s' % (lab, form), replay=dict(
                case=lab, x=xs[i].tolist(), form=form))
        return
  if n == 2:
    # quadratic in every coordinate: central differences are exact
    x = jnp.asarray(xs, jnp.float32)
    g = np.asarray(m.get_value_and_grad(params, x)[1])
    for i in range(shape[0]):
      for j in range(shape[1]):
        up = np.asarray(m.forward(params, x.at[:, i, j].add(.5)))
        dn = np.asarray(m.forward(params, x.at[:, i, j].add(-.5)))
        if not np.allclose(g[:, i, j], up - dn, atol=2e-3, rtol=2e-3):
          chk.violation('%s: gradient at site %s wrong' % (lab, (i, j)),
                        key='grad:' + lab, replay=dict(case=lab))
          return
  chk.cover('n=%d' % n)
  chk.sample(dict(case=lab, states=len(xs)))


def generated(chk, shape, n, alpha, beta):
  """Exact law of the generated observations over all hidden draws."""
  lab = 'fhmm generation L=%d K=%d n=%d alpha=%g beta=%g' % (
      *shape, n, alpha, beta)
  xs = engine.all_states(shape, n)
  key = jnp.asarray(engine.KEY)
  res = []
  rs = np.random.RandomState(5)
  pool = {}
  for sigma in (1.0, 2.0):
    m = build(shape, n, alpha=alpha, beta=beta, sigma=sigma)
    def vals(conts):
      rs = np.random.RandomState(5)
      v = [rs.uniform(0.05, 0.95, c[2]) for c in conts]
      pool['v'] = np.concatenate(v)
      return v
    specs, out, p = engine.outcomes(lambda: m.make_init_params(key), vals)
    res.append((out, p))
  (o1, p1), (o2, p2) = res
  W = len(p1)
  y1, y2 = (np.asarray(o['y'], np.float64).reshape(W, -1) for o in (o1, o2))
  eps = y2 - y1
  mu = y1 - eps
  w = np.asarray(o1['w'], np.float64)
  b = np.asarray(o1['b'], np.float64).reshape(W)
  ok = np.asarray(jax.scipy.special.ndtri(pool['v']))
  chk.count(states=W, transitions=2 * W, traces=2 * W)
  if abs(p1.sum() - 1) > 1e-3:
    chk.violation('%s: hidden draws have total probability %g' % (
        lab, p1.sum()), key='mass:' + lab, replay=dict(case=lab))
    return
  if np.abs(eps[:, :, None] - ok[None, None]).min(-1).max() > 1e-3 or (
      y1.shape[1] != shape[0]):
    chk.violation('%s: observation noise is not sigma times a standard normal '
                  'per time step' % lab, key='noise:' + lab,
                  replay=dict(case=lab))
    return
  init = np.exp(np.asarray(o1['alpha'][0], np.float64)) if n > 2 else None
  truth = np.exp(prior(xs, n, alpha, beta, init))
  law = np.zeros(len(xs))
  for k in range(W):
    if p1[k] == 0:
      continue
    e = np.abs(mean(xs, w[k], n) + b[k] - mu[k]).max(-1)
    i = int(np.argmin(e))
    if e[i] > 2e-3:
      chk.violation('%s: observation mean %s comes from no hidden '
                    'configuration' % (lab, mu[k].tolist()),
                    key='mean:' + lab, replay=dict(case=lab))
      return
    law[i] += p1[k]
  e = np.abs(law - truth)
  if e.max() > 1e-4:
    i = int(np.argmax(e))
    chk.violation('%s: hidden configuration %s is generated with probability '
                  '%.5f, the process gives %.5f' % (
                      lab, xs[i].tolist(), law[i], truth[i]),
                  key='law:' + lab, replay=dict(case=lab, x=xs[i].tolist()))
    return
  chk.cover('generation n=%d' % n)


def body(chk):
  q = chk.quick
  chk.bounds.append('all hidden configurations with L*K <= 6 (binary) and '
                    '<= 729 configurations (multi-state), incl. K == n')
  jobs = []
  sh2 = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 2), (2, 3)] + (
      [] if q else [(4, 2), (2, 4), (3, 3)])
  sh3 = [(1, 1), (1, 3), (2, 1), (3, 1), (2, 2), (2, 3), (1, 4)] + (
      [] if q else [(3, 2), (4, 1)])
  for s in sh2:
    for a, b, sg in ((0.1, 0.8, 2), (0.4, 0.95, 0.7)):
      jobs.append((energy, s, 2, a, b, sg, 3))
  for n in (3, 4):
    for s in sh3:
      if n ** (s[0] * s[1]) <= 729 + (0 if q else 4000):
        for a, b, sg in ((0.1, 0.8, 2), (0.6, 0.7, 0.9)):
          jobs.append((energy, s, n, a, b, sg, 4))
  for a, b in ((0.1, 0.8), (0.35, 0.6)):
    for s in ((1, 2), (3, 1), (2, 2), (3, 2)):
      jobs.append((generated, s, 2, a, b))
    for s in ((1, 2), (3, 1), (2, 2)):
      jobs.append((generated, s, 3, a, b))
    jobs.append((generated, (2, 1), 4, a, b))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C11', body, shards=(4, 8))
