"""C10: classical model energies equal their definition, in every form."""
from mc import engine
engine.install()
import itertools
import importlib
import math
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
from mc import oracles, report
from mc.report import Broken, guarded, HarnessError

TOL = 2e-4


def build(name, **kw):
  mod = importlib.import_module('discs.models.' + name)
  cfg = importlib.import_module(
      'discs.models.configs.%s_config' % name).get_config().to_dict()
  cfg.update(kw)
  return mod.build_model(ml_collections.ConfigDict(dict(model=cfg)))


def grids(name, shape, n, k):
  """k-th parameter array (numpy float32)."""
  rs = np.random.RandomState(97 * k + 13 * n + sum(shape) + len(name))
  if name == 'bernoulli':
    return rs.uniform(-2, 2, shape).astype(np.float32)
  if name == 'categorical':
    return rs.uniform(-2, 2, shape + (n,)).astype(np.float32)
  if name == 'ising':
    return rs.uniform(-1.5, 1.5, (3,) + shape).astype(np.float32)
  return rs.uniform(-1.5, 1.5, (3,) + shape + (n,)).astype(np.float32)


def gradient(name, p, xs, n, onehot):
  """Oracle gradient (definition extended linearly in each entry)."""
  p = np.asarray(p, np.float64)
  out = []
  for x in xs:
    if name == 'bernoulli':
      out.append(p)
      continue
    if name == 'categorical':
      out.append(p)
      continue
    if name == 'ising':
      s = 2.0 * x - 1
      g = p[2].copy()
      g[:, :-1] += p[0][:, :-1] * s[:, 1:]
      g[:, 1:] += p[0][:, :-1] * s[:, :-1]
      g[:-1] += p[1][:-1] * s[1:]
      g[1:] += p[1][:-1] * s[:-1]
      out.append(-2 * g)
      continue
    z = np.eye(n)[x]
    g = p[2].copy()
    g[:, :-1] += p[0][:, :-1] * z[:, 1:]
    g[:, 1:] += p[0][:, :-1] * z[:, :-1]
    g[:-1] += p[1][:-1] * z[1:]
    g[1:] += p[1][:-1] * z[:-1]
    out.append(-g)
  return np.array(out)


def energies(chk, name, shape, n, k):
  lab = '%s shape=%s n=%d params#%d' % (name, shape, n, k)
  kw = dict(shape=shape)
  if name in ('categorical', 'potts'):
    kw['num_categories'] = n
  m = build(name, **kw)
  p = grids(name, shape, n, k)
  params = {'params': jnp.asarray(p)}
  xs = engine.all_states(shape, n)
  want = getattr(oracles, name)(p, xs)
  forms = [('int32', jnp.asarray(xs, jnp.int32)),
           ('float32', jnp.asarray(xs, jnp.float32))]
  if n > 2:
    oh = np.eye(n)[xs]
    forms = [('int32', forms[0][1]), ('one-hot float', jnp.asarray(
        oh, jnp.float32)), ('one-hot int', jnp.asarray(oh, jnp.int32))]
  for form, x in forms:
    for mode, f in (('eager', m.forward), ('jit', jax.jit(m.forward))):
      got = np.asarray(f(params, x), np.float64)
      chk.count(states=len(xs), transitions=len(xs), traces=len(xs))
      if got.shape != (len(xs),) or not np.allclose(got, want, atol=TOL,
                                                    rtol=TOL):
        i = int(np.argmax(np.abs(got - want))) if got.shape == want.shape else 0
        chk.violation('%s %s %s: log-density of %s is %s, definition %.5f' % (
            lab, form, mode, xs[i].tolist(),
            got[i] if got.shape == want.shape else got.shape, want[i]),
            key='energy:%s:%s' % (lab, form), replay=dict(
                case=lab, form=form, x=xs[i].tolist()))
        return
    if form == 'one-hot int':
      continue
    # each row independent of the batch it is in
    for i in range(0, len(xs), max(1, len(xs) // 16)):
      one = float(m.forward(params, x[i:i + 1])[0])
      pair = np.asarray(m.forward(params, jnp.stack([x[-1 - i], x[i]])))
      if abs(one - want[i]) > TOL * (1 + abs(want[i])) or abs(
          pair[1] - want[i]) > TOL * (1 + abs(want[i])):
        chk.violation('%s %s: row %s valued %s alone / %s in a pair, '
                      'definition %.5f' % (lab, form, xs[i].tolist(), one,
                                           pair[1], want[i]),
                      key='row:' + lab, replay=dict(case=lab))
        return
    if n > 2 and form == 'int32':
      continue
    ll, g = m.get_value_and_grad(params, x)
    gw = gradient(name, p, xs, n, n > 2)
    g = np.asarray(g, np.float64)
    if not np.allclose(np.asarray(ll), want, atol=TOL, rtol=TOL):
      chk.violation('%s %s: value returned with the gradient is not the '
                    'log-density' % (lab, form), key='vg:' + lab,
                    replay=dict(case=lab))
      return
    if g.shape != gw.shape or not np.allclose(g, gw, atol=1e-3, rtol=1e-3):
      i = int(np.argmax(np.abs(g - gw).reshape(len(xs), -1).max(1))) if (
          g.shape == gw.shape) else 0
      chk.violation('%s %s: gradient at %s is %s, should be %s' % (
          lab, form, xs[i].tolist(), g[i].tolist() if g.shape == gw.shape else
          g.shape, gw[i].tolist()), key='grad:' + lab, replay=dict(case=lab))
      return
  chk.cover(name)
  chk.sample(dict(case=lab, states=len(xs)))


def params_law(chk, name, shape, n, cfg):
  """Generated parameters under a lattice of the underlying draws."""
  lab = '%s parameters shape=%s %s' % (name, shape, cfg)
  kw = dict(cfg, shape=shape)
  if name in ('categorical', 'potts'):
    kw['num_categories'] = n
  m = build(name, **kw)
  key = jnp.asarray(engine.KEY)
  sig = cfg['init_sigma']
  full = shape + ((n,) if name in ('categorical', 'potts') else ())
  for u0 in (0.001, 0.1, 0.5, 0.9, 0.999):
    def pick(conts):
      if len(conts) != 1:
        raise HarnessError('parameter draws %s' % conts)
      m_ = conts[0][2]
      if m_ < math.prod(full):
        raise Broken('%d random numbers for %d parameters: some entries are '
                     'not drawn independently' % (m_, math.prod(full)))
      if m_ > math.prod(full):
        raise HarnessError('parameter draws %s' % conts)
      v = np.linspace(0.02, 0.98, m_)
      v[m_ // 2] = u0
      pick.v = v
      return [v]
    specs, out, _ = engine.outcomes(lambda: m.make_init_params(key), pick)
    got = np.asarray(out['params'][0], np.float64)
    v = pick.v
    chk.count(states=1, transitions=1, traces=1)
    if name in ('bernoulli', 'categorical'):
      from jax.scipy.special import ndtri
      want = sig * np.asarray(ndtri(np.clip(v, 1e-7, 1 - 1e-7))).reshape(full)
    else:
      I = np.indices(full)
      inside = ((I[0] / shape[0] - .5) ** 2 + (I[1] / shape[1] - .5) ** 2
                < .5 / np.pi)
      b = (2 * v.reshape(full) - 1) * sig + cfg['mu'] * np.where(inside, 1, -1)
      lam = np.full(full, -float(cfg['lambdaa']))
      want = np.array([lam, lam, b])
    if got.shape != want.shape or not np.allclose(got, want, atol=2e-3):
      chk.violation('%s: generated %s, configured law gives %s' % (
          lab, got.reshape(-1)[:12].tolist(), want.reshape(-1)[:12].tolist()),
          key='params:' + lab, replay=dict(case=lab, u=u0))
      return
  chk.cover('params ' + name)


def body(chk):
  q = chk.quick
  chk.bounds.append('all samples of shapes up to 6 binary or 4 three-category '
                    'sites, %d parameter arrays each' % (2 if q else 6))
  jobs = []
  ks = range(2 if q else 6)
  one = [(1,), (2,), (5,), (2, 3)]
  lat = [(1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2)] + (
      [] if q else [(3, 3), (2, 5), (5, 2)])
  for k in ks:
    for s in one:
      jobs.append((energies, 'bernoulli', s, 2, k))
    for s in lat:
      jobs.append((energies, 'ising', s, 2, k))
    for n in (3, 4):
      for s in [(1,), (3,), (2, 2), (3, 1)]:
        jobs.append((energies, 'categorical', s, n, k))
      for s in [(1, 1), (1, 3), (3, 1), (2, 2)] + (
          [(2, 3), (3, 2)] if n == 3 and not q else []):
        jobs.append((energies, 'potts', s, n, k))
    jobs.append((energies, 'potts', (2, 3), 3, k))
    jobs.append((energies, 'potts', (3, 2), 3, k))
  for sig in (0.5, 1.5):
    jobs.append((params_law, 'bernoulli', (7,), 2, dict(init_sigma=sig)))
    jobs.append((params_law, 'categorical', (5,), 3, dict(init_sigma=sig)))
    for lam, mu in ((0.5, 0.5), (1.0, 0.0), (0.25, 1.0)):
      c = dict(init_sigma=sig, lambdaa=lam, mu=mu)
      jobs.append((params_law, 'ising', (4, 5), 2, c))
      jobs.append((params_law, 'ising', (5, 3), 2, c))
      jobs.append((params_law, 'potts', (4, 5), 3,
                   dict(c, lambdaa=1 if lam == 1.0 else lam)))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C10', body, shards=(4, 8))
