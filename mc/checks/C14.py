"""C14: neighbourhood log-ratios equal true energy differences."""
from mc import engine
engine.install()
import importlib
import itertools
import jax
import jax.numpy as jnp
import numpy as np
from mc import cfgs, graphs, objectives, oracles, report
from mc.checks import C13
from mc.report import guarded

HUGE = 1e5


def close(a, b, scale=1.0):
  return np.abs(a - b) <= 5e-4 * scale * (1 + np.abs(b))


def neighbours(chk, lab, model, params, xs, form):
  """The neighbour constructor changes exactly the indexed site."""
  fn = model.logratio_in_neighborhood(params, xs[:1])[3]
  if fn is None:
    return True
  x = np.asarray(xs)
  flat = x.reshape(len(x), -1)
  N = flat.shape[1]
  rot = np.arange(len(x))
  for idx in [np.full(len(x), i) for i in range(N)] + [rot % N, (rot * 3 + 1) % N]:
    y = np.asarray(fn(params, jnp.asarray(x), jnp.asarray(idx)))
    want = flat.copy()
    want[rot, idx] = 1 - want[rot, idx]
    chk.count(transitions=len(x), traces=len(x))
    if y.shape != x.shape or not np.array_equal(y.reshape(len(x), -1), want):
      i = int(np.argmax((y.reshape(len(x), -1) != want).any(1))) if (
          y.size == want.size) else 0
      chk.violation('%s %s: neighbour %d of %s is %s' % (
          lab, form, idx[i], flat[i].tolist(), np.asarray(y[i]).tolist()),
          key='nb:' + lab, replay=dict(case=lab))
      return False
  return True


def binary(chk, lab, model, params, temps, x_int, oracle, real):
  """oracle(x)-> energies at T=1; real = mask of real sites."""
  N = x_int.shape[1]
  base = oracle(x_int)
  flips = np.stack([oracle(np.where(np.arange(N) == i, 1 - x_int, x_int))
                    for i in range(N)], 1)
  fn = jax.jit(lambda p, x: model.logratio_in_neighborhood(p, x)[:2])
  for t in temps:
    p = params if t is None else dict(params, temperature=jnp.float32(t))
    T = 1.0 if t is None else t
    for form, dt in (('int', jnp.int32), ('float', jnp.float32)):
      x = jnp.asarray(x_int, dt)
      ll, ratio = (np.asarray(v, np.float64) for v in fn(p, x))
      chk.count(states=len(x_int), transitions=ratio.size, traces=ratio.size)
      if ll.shape != base.shape or not close(ll, base / T).all():
        i = int(np.argmax(~close(ll, base / T))) if ll.shape == base.shape else 0
        chk.violation('%s %s T=%s: returned log-density %s of %s, energy is %g' %
                      (lab, form, t, ll.ravel()[i], x_int[i].tolist(),
                       base[i] / T), key='ll:' + lab, replay=dict(
                           case=lab, x=x_int[i].tolist()))
        return False
      want = (flips - base[:, None]) / T
      if ratio.shape != want.shape:
        chk.violation('%s: ratio shape %s' % (lab, ratio.shape),
                      key='shape:' + lab, replay=dict(case=lab))
        return False
      ok = close(ratio, want) | (~real[None] & (ratio <= -1e8))
      if not ok.all():
        i, j = np.argwhere(~ok)[0]
        chk.violation('%s %s T=%s: site %d of %s has log-ratio %g, true '
                      'difference %g' % (lab, form, t, j, x_int[i].tolist(),
                                         ratio[i, j], want[i, j]),
                      key='ratio:' + lab,
                      replay=dict(case=lab, x=x_int[i].tolist(), site=int(j)))
        return False
      if not neighbours(chk, lab, model, p, x, form):
        return False
  return True


def graph_case(chk, problem, gtype, cfg_str, gs, sizes, temps, kw):
  lab = '%s/%s sizes=%s %s' % (problem, gtype, sizes, kw)
  if gtype == 'satlib':
    items = [(c, 1.0) for c in gs]
    gs = [graphs.make(n, sorted(E), 0) for n, E in map(objectives.sat_graph,
                                                       gs)]
  else:
    items = [(g, 1) for g in gs]
  model, cfg, got = C13.load(problem, gtype, cfg_str, items, sizes, **kw)
  N, k = int(cfg.model.max_num_nodes), int(cfg.model.num_categories)
  xs = objectives.states(N, k)
  fn = getattr(objectives, problem)
  pen = cfg.model.get('penalty', 2.0)
  for idx, params, _ in got:
    g = gs[idx]
    l2 = '%s graph %s' % (lab, sorted(map(sorted, g.edges())))
    if problem != 'normcut':
      if not binary(chk, lab + ' ' + str(list(g.edges())), model, params, temps,
                    xs, lambda x: fn(g, x, penalty=pen),
                    np.arange(N) < len(g)):
        return
      continue
    okw = dict(penalty=pen, k=k, tolerance=cfg.model.get('tolerance', 0),
               stype=cfg.model.get('stype', 'span'))
    base = fn(g, xs, **okw)
    table = {tuple(x): e for x, e in zip(xs.tolist(), base)}
    want = np.empty((len(xs), N, k))
    for i, x in enumerate(xs.tolist()):
      for s in range(N):
        for c in range(k):
          y = x[:s] + [c] + x[s + 1:]
          want[i, s, c] = table[tuple(y)]
    f = jax.jit(lambda p, x: model.logratio_in_neighborhood(p, x)[:2])
    for t in temps:
      p = dict(params, temperature=jnp.float32(t))
      for form, x in (('int', jnp.asarray(xs)),
                      ('one-hot', jnp.asarray(np.eye(k)[xs], jnp.float32))):
        ll, ratio = (np.asarray(v, np.float64) for v in f(p, x))
        chk.count(states=len(xs), transitions=ratio.size, traces=ratio.size)
        fin = np.isfinite(base)
        ok = np.where(fin, close(ll, np.where(fin, base, 0) / t), ll < -HUGE)
        if ll.shape != base.shape or not ok.all():
          i = int(np.argmax(~ok))
          chk.violation('%s %s T=%g: returned log-density %g of %s, energy %g' %
                        (l2, form, t, ll[i], xs[i].tolist(), base[i] / t),
                        key='ll:' + lab, replay=dict(case=l2,
                                                     x=xs[i].tolist()))
          return
        both = fin[:, None, None] & np.isfinite(want)
        lose = fin[:, None, None] & ~np.isfinite(want)
        w = (np.where(both, want, 0) - np.where(both, base[:, None, None], 0)) / t
        ok = np.where(both, close(ratio, w), np.where(lose, ratio < -HUGE, True))
        if ratio.shape != want.shape or not ok.all():
          i, s, c = np.argwhere(~ok)[0]
          chk.violation(
              '%s %s T=%g: setting node %d of %s to %d has log-ratio %g, true '
              'difference %g' % (l2, form, t, s, xs[i].tolist(), c,
                                 ratio[i, s, c], w[i, s, c]),
              key='ratio:' + lab, replay=dict(case=l2, x=xs[i].tolist(),
                                              node=int(s), value=int(c)))
          return
  chk.cover('%s/%s' % (problem, gtype), len(got))
  chk.sample(dict(case=lab, graphs=len(gs), assignments=len(xs)))


def bern(chk, shape, k):
  cfg = cfgs.make('gibbs', shape, 2)
  from discs.models import bernoulli
  import ml_collections
  with cfg.unlocked():
    cfg.model.shape = shape
    cfg.model.init_sigma = 1.0
  model = bernoulli.build_model(cfg)
  rs = np.random.RandomState(50 + k)
  w = rs.normal(size=shape) * 1.5
  params = dict(params=jnp.asarray(w, jnp.float32))
  N = int(np.prod(shape))
  xs = objectives.states(N, 2)
  binary(chk, 'bernoulli %s #%d' % (shape, k), model, params, (None,), xs,
         lambda x: x @ w.ravel(), np.ones(N, bool))
  chk.cover('bernoulli', 1)


def body(chk):
  q = chk.quick
  chk.bounds.append('all labelled graphs of 2..%d nodes mixed with a larger one, '
                    'padded, all assignments incl. padding, all single-site '
                    'changes' % (4 if q else 5))
  jobs = []
  temps = (1.0, 0.25)
  for problem, gtype, cs in graphs.TYPES:
    if problem == 'maxclique':
      continue
    if problem == 'normcut':
      opts = [dict(penalty=0.0), dict(penalty=0.3, stype='span'),
              dict(penalty=0.3, stype='quad'),
              dict(penalty=1.0, tolerance=0.2, stype='span')]
      for kw in opts:
        for k in (2, 3):
          kk = dict(kw, num_categories=k)
          cat = C13.catalogue('normcut', 4 if k == 2 else 3, 5 if k == 2 else 4)
          if gtype == 'nets':
            for g in cat[::5]:
              jobs.append((problem, gtype, cs, [g], None, temps, kk))
            continue
          if q and k == 2:
            cat = cat[::2]
          me = max(len(g.edges()) for g in cat)
          mn = max(len(g) for g in cat)
          jobs.append((problem, gtype, cs, cat, (mn, me, len(cat)), temps, kk))
          jobs.append((problem, gtype, cs, cat[::4],
                       (mn + 1, me + 2, len(cat[::4])), temps[:1], kk))
      continue
    for pen in ([None] if problem == 'maxcut' else [1.001, 2.0]):
      kw = {} if pen is None else dict(penalty=pen)
      if gtype == 'satlib':
        gs = C13.sat_catalogue()
        jobs.append((problem, gtype, cs, gs[::4] if q else gs, None, temps, kw))
        continue
      gs = C13.catalogue(problem, 4, 5, 5 if gtype in ('er', 'er_density')
                         else 0)
      jobs.append((problem, gtype, cs, gs[::2] if q else gs, None, temps, kw))
      me = max(len(g.edges()) for g in gs)
      if gtype not in ('optsicom', 'er_density'):
        jobs.append((problem, gtype, cs, gs[1::3],
                     (7, me + 3, len(gs[1::3])), temps, kw))
      if not q:
        jobs.append((problem, gtype, cs, C13.catalogue(problem, 5, 6, 3), None,
                     temps, kw))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s/%s sizes=%s %s' % (j[0], j[1], j[4], j[6]), graph_case,
              chk, *j)
  for shape in ((1,), (3,), (4,)) if q else ((1,), (2,), (3,), (4,), (6,)):
    for k in range(2):
      if chk.mine():
        guarded(chk, 'bernoulli %s' % (shape,), bern, chk, shape, k)


if __name__ == '__main__':
  report.run_main('C14', body, shards=(7, 8))
