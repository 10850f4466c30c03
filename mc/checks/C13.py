"""C13: graph problem objectives equal the combinatorial objective."""
from mc import engine
engine.install()
import importlib
import itertools
import tempfile
import jax
import jax.numpy as jnp
import networkx as nx
import numpy as np
from mc import graphs, objectives, report
from mc.report import guarded, HarnessError


def catalogue(problem, top, big, k0=0):
  """All labelled graphs up to `top` nodes plus one larger graph."""
  out = []
  w = problem == 'maxcut'
  k = k0
  for n in range(2 if problem != 'normcut' else 3, top + 1):
    for n_, es in graphs.labelled(n):
      if problem == 'maxcut' and not es and n == 2:
        pass
      out.append(graphs.make(n, es, k, w))
      k += 1
  n = big
  out.insert(len(out) // 2, graphs.make(
      n, [(i, j) for i in range(n) for j in range(i + 1, n) if (i + j) % 3],
      7 + k0, w))
  if top > 2:     # and one with a node joined to every other one
    out.insert(1, graphs.make(n, [(1, j) for j in range(n) if j != 1] + [(
        0, 2)], 3 + k0, w))
  return out


def sat_catalogue():
  lits = (1, -1, 2, -2)
  cl = list(itertools.combinations_with_replacement(lits, 3))
  return [[c] for c in cl[::5]] + [[a, b] for a in cl[::4] for b in cl[::3]]


def load(problem, gtype, cfg_str, items, sizes, num_models=4, **kw):
  """[(index, params, reference)] through the model's data iterator."""
  with tempfile.TemporaryDirectory(prefix='mc_c13_') as root:
    graphs.write(root, problem, gtype, cfg_str, items)
    cfg = graphs.config(problem, gtype, cfg_str, root, num_models, sizes, **kw)
    mod = importlib.import_module('discs.models.' + problem)
    with graphs.quiet():
      model = mod.build_model(cfg)
      got = []
      while True:
        batch = model.make_init_params(jax.random.PRNGKey(0))
        if batch is None:
          break
        got += [b for b in batch if b[0] >= 0]
        if len(got) > len(items) + 10:
          break
  return model, cfg, got


def check(chk, problem, gtype, cfg_str, gs, sizes, temps, kw, opt=True):
  lab = '%s/%s sizes=%s %s' % (problem, gtype, sizes, kw)
  if gtype == 'satlib':
    items = [(c, 1.0) for c in gs]
    gs = []
    for c, _ in items:
      n, E = objectives.sat_graph(c)
      gs.append(graphs.make(n, sorted(E), 0))
  else:
    items = [(g, 1) for g in gs]
  model, cfg, got = load(problem, gtype, cfg_str, items, sizes, **kw)
  if gtype == 'nets':
    gs = gs[:1]
  if sorted(g[0] for g in got) != list(range(len(gs))):
    chk.violation('%s: instances %s loaded for %d graphs' % (
        lab, sorted(g[0] for g in got)[:8], len(gs)), key='load:' + lab,
        replay=dict(case=lab))
    return
  N = int(cfg.model.max_num_nodes)
  if tuple(cfg.model.shape) != (N,) or N < max(len(g) for g in gs):
    chk.violation('%s: node count %d / shape %s for graphs of up to %d nodes' %
                  (lab, N, cfg.model.shape, max(len(g) for g in gs)),
                  key='shape:' + lab, replay=dict(case=lab))
    return
  k = int(cfg.model.num_categories)
  xs = objectives.states(N, k)
  pen = cfg.model.get('penalty', 2.0)
  fn = getattr(objectives, problem)
  okw = dict(penalty=pen, k=k, tolerance=cfg.model.get('tolerance', 0),
             stype=cfg.model.get('stype', 'span'))

  def both(p, t, x):
    p = dict(p, temperature=t)
    return model.evaluate(p, x), model.forward(p, x)

  vv = jax.jit(both)
  forms = [('int', jnp.asarray(xs, jnp.int32))]
  if problem == 'normcut':
    forms.append(('one-hot', jnp.asarray(np.eye(k)[xs], jnp.float32)))
  else:
    forms.append(('float', jnp.asarray(xs, jnp.float32)))
  for idx, params, _ in got:
    g = gs[idx]
    want = fn(g, xs, **okw)
    finite = np.isfinite(want)
    for t in temps:
      for form, x in forms:
        ev, fw = vv(params, jnp.float32(t), x)
        ev, fw = np.asarray(ev, np.float64), np.asarray(fw, np.float64)
        chk.count(states=len(xs), transitions=len(xs), traces=len(xs))
        tol = 2e-4 * (1 + np.abs(np.where(finite, want, 0)))
        bad = np.where(finite, ~(np.abs(ev - want) <= tol), ~(ev < -1e6))
        if ev.shape != want.shape or bad.any():
          i = int(np.argmax(bad))
          chk.violation(
              '%s T=%g %s: graph with nodes %s edges %s, assignment %s has '
              'objective %.5f, definition %.5f' % (
                  lab, t, form, list(g.nodes), list(g.edges(data='weight')),
                  xs[i].tolist(), ev[i], want[i]),
              key='obj:%s:%s' % (lab, form), replay=dict(
                  case=lab, index=idx, edges=list(map(list, g.edges())),
                  x=xs[i].tolist(), T=t))
          return
        if not np.all(np.abs(fw * t - ev) <= 1e-4 * (1 + np.abs(ev))):
          chk.violation('%s T=%g: the log-density is not the objective over '
                        'temperature' % (lab, t), key='temp:' + lab,
                        replay=dict(case=lab))
          return
    if problem != 'normcut' and opt:
      best, true = ev.max(), objectives.optimum(problem, g)
      if abs(best - true) > 1e-3:
        chk.violation('%s: best assignment of graph %s has value %g, true '
                      'optimum %g' % (lab, list(g.edges()), best, true),
                      key='opt:' + lab, replay=dict(case=lab))
        return
  # the value returned together with the gradient
  p0 = dict(got[0][1], temperature=jnp.float32(temps[-1]))
  v = np.asarray(model.get_value_and_grad(p0, forms[-1][1])[0])
  f = np.asarray(model.forward(p0, forms[-1][1]))
  if not np.allclose(v, f, rtol=1e-4, atol=1e-4):
    chk.violation('%s: value with gradient differs from the log-density' % lab,
                  key='vg:' + lab, replay=dict(case=lab))
  chk.cover('%s/%s' % (problem, gtype), len(got))
  chk.sample(dict(case=lab, graphs=len(gs), assignments=len(xs)))


def body(chk):
  q = chk.quick
  top = 4
  chk.bounds.append('all labelled graphs of 2..%d nodes (mixed with a larger one '
                    'in the same dataset), all assignments including padding, '
                    '3 temperatures' % (4 if q else 5))
  temps = (1.0, 0.25, 3.0)
  jobs = []
  for problem, gtype, cs in graphs.TYPES:
    if problem == 'normcut':
      opts = [dict(penalty=0.0), dict(penalty=0.3, stype='span'),
              dict(penalty=0.3, stype='quad'),
              dict(penalty=1.0, tolerance=0.2, stype='span'), {}]
      for kw in opts:
        for k in (3, 2):
          kk = dict(kw, num_categories=k)
          if gtype == 'nets':
            for j, g in enumerate(catalogue('normcut', 3, 4)):
              if q and j % 3:
                continue
              jobs.append((problem, gtype, cs, [g], None, temps[:2], kk))
          else:
            gs = catalogue('normcut', 4, 5) if k == 2 or not q else (
                catalogue('normcut', 3, 5) + catalogue('normcut', 4, 5)[10::5])
            me = max(len(g.edges()) for g in gs)
            jobs.append((problem, gtype, cs, gs, (5, me, len(gs)), temps[:2],
                         kk))
            jobs.append((problem, gtype, cs, gs[::4], (6, me + 2,
                                                       len(gs[::4])),
                         temps[:1], kk))
      continue
    pens = [None] if problem == 'maxcut' else [1.001, 2.0]
    for pen in pens:
      kw = {} if pen is None else dict(penalty=pen)
      if gtype == 'satlib':
        gs = sat_catalogue()
        jobs.append((problem, gtype, cs, gs if not q else gs[::2], None,
                     temps, kw))
        continue
      gs = catalogue(problem, top, 5, 11 if gtype in ('er', 'twitter',
                                                      'er_density') else 0)
      jobs.append((problem, gtype, cs, gs, None, temps, kw))
      me = max(len(g.edges()) for g in gs)
      if gtype not in ('optsicom', 'er_density'):
        jobs.append((problem, gtype, cs, gs[::3], (7, me + 3, len(gs[::3])),
                     temps[:2], kw))
      if not q:
        jobs.append((problem, gtype, cs, catalogue(problem, 5, 6, 3), None,
                     temps, kw))
  jobs.append(('mis', 'ertest', 'r-mini', catalogue('mis', 4, 5, 2), None,
               temps, {}))
  jobs.append(('maxclique', 'rb', '_', catalogue('maxclique', 4, 5, 2), None,
               temps, {}))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s/%s sizes=%s %s' % (j[0], j[1], j[4], j[6]), check, chk,
              *j)


if __name__ == '__main__':
  report.run_main('C13', body, shards=(7, 8))
