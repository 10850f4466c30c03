"""C27: Bernoulli estimation errors equal their statistical definitions."""
import itertools
import math
import os
import tempfile
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from discs.evaluators import bernoulli_eval
from discs.models import bernoulli
from mc import report
from mc.report import guarded

NAMES = ('average mean error', 'maximum mean error', 'average variance error',
         'maximum variance error', 'average mean error of the last samples',
         'average variance error of the last samples')


def setup(shape, window=2, stride=1):
  cfg = ml_collections.ConfigDict(dict(
      model=dict(shape=shape, init_sigma=1.0, num_categories=2),
      experiment=dict(window_size=window, window_stride=stride)))
  return bernoulli_eval.build_evaluator(cfg), bernoulli.build_model(cfg)


def errors(s, logits):
  """s: [N, T, B, d] -> four errors, [N] each (float64)."""
  s = np.asarray(s, np.float64)
  p = 1 / (1 + np.exp(-np.asarray(logits, np.float64).reshape(-1)))
  T = s.shape[1]
  m = s.sum(1) / T
  em = (m - p) ** 2
  v = ((s - m[:, None]) ** 2).sum(1) / (T - 1)
  ev = (v - p * (1 - p)) ** 2
  ax = (1, 2)
  return em.mean(ax), em.max(ax), ev.mean(ax), ev.max(ax)


def histories(chk, T, B, shape, logits):
  d = math.prod(shape)
  lab = 'T=%d chains=%d shape=%s logits=%s' % (T, B, shape, logits)
  ev, model = setup(shape)
  n = T * B * d
  all_s = ((np.arange(2 ** n)[:, None] >> np.arange(n)) & 1).reshape(
      (-1, T, B) + shape).astype(np.int32)
  lg = np.asarray(logits, np.float32)[:d].reshape(shape)
  params = {'params': jnp.asarray(lg)}
  fn = jax.jit(jax.vmap(lambda s: ev.evaluate(s, model, params)))
  got = [np.asarray(g, np.float64) for g in fn(jnp.asarray(all_s))]
  flat = all_s.reshape(len(all_s), T, B, d)
  want = list(errors(flat, lg))
  if B > 1:
    last = flat[:, -1][:, :, None]              # B samples of one chain
    w = errors(last, lg)
    want += [w[0], w[2]]
  else:
    # a single chain: its last sample against the mean; no variance
    last = flat[:, -1]
    p = 1 / (1 + np.exp(-lg.astype(np.float64).reshape(-1)))
    want.append(((last - p) ** 2).mean((1, 2)))
  if len(got) != 6:
    chk.violation('%s: %d errors reported' % (lab, len(got)), key='num:' + lab,
                  replay=dict(case=lab))
    return
  for name, g, w in zip(NAMES, got, want):
    bad = ~(np.abs(g.reshape(-1) - w) < 2e-5)
    if bad.any():
      i = int(np.argmax(bad))
      chk.violation('%s: %s is %.6f, should be %.6f for samples %s' % (
          lab, name, g.reshape(-1)[i], w[i], flat[i].tolist()),
          key='%s:%s' % (name, lab), replay=dict(case=lab,
                                                 samples=all_s[i].tolist()))
      return
  # the same without vectorisation, for one sample set
  one = ev.evaluate(jnp.asarray(all_s[-2]), model, params)
  if not np.allclose([float(o) for o in one][:len(want)],
                     [w[-2] for w in want], atol=2e-5):
    chk.violation('%s: eager evaluation differs' % lab, key='eager:' + lab,
                  replay=dict(case=lab))
  chk.count(states=2 ** n, transitions=2 ** n, traces=2 ** n)
  chk.cover('histories')
  chk.sample(dict(case=lab, histories=2 ** n))


def windows(chk, T, window, stride, runs):
  """The mixing curve: error of every full window, in order, per run."""
  shape, B = (2,), 2
  lab = 'windows T=%d window=%d stride=%d runs=%d' % (T, window, stride, runs)
  ev, model = setup(shape, window, stride)
  rs = np.random.RandomState(T * 100 + window * 10 + stride)
  samples = [rs.randint(0, 2, (T + r, B) + shape) for r in range(runs)]
  params = [{'params': jnp.asarray(rs.randn(*shape), jnp.float32)}
            for _ in range(runs)]
  calls = []
  real = plt.plot
  plt.plot = lambda x, y, *a, **k: calls.append(
      (k.get('label'), np.asarray(x), np.asarray(y, np.float64)))
  try:
    with tempfile.TemporaryDirectory() as tmp:
      ev.plot_mixing_time_graph_over_chain(
          tmp, model, params, [jnp.asarray(s) for s in samples],
          ['run%d' % r for r in range(runs)])
      plt.close('all')
      if not os.listdir(tmp):
        chk.violation('%s: no figure saved' % lab, key='fig:' + lab,
                      replay=dict(case=lab))
        return
  finally:
    plt.plot = real
  if [c[0] for c in calls] != ['run%d' % r for r in range(runs)]:
    chk.violation('%s: curves %s' % (lab, [c[0] for c in calls]),
                  key='curves:' + lab, replay=dict(case=lab))
    return
  for r, (_, x, y) in enumerate(calls):
    want = [errors(samples[r][None, s:s + window], params[r]['params'])[0][0]
            for s in range(0, len(samples[r]) - window + 1, stride)]
    if len(y) != len(want) or not np.allclose(y, want, atol=2e-5) or (
        x.tolist() != list(range(1, len(want) + 1))):
      chk.violation('%s: run %d has window errors %s, should be %s' % (
          lab, r, y.tolist(), want), key='win:' + lab, replay=dict(case=lab))
      return
    chk.count(states=len(want), transitions=len(want), traces=len(want))
  chk.cover('windows')


def body(chk):
  q = chk.quick
  lim = 12 if q else 16
  chk.bounds.append('all 0/1 histories with steps x chains x sites <= %d '
                    '(2..5 steps, 1..4 chains, 1..4 sites), 4 parameter '
                    'sets' % lim)
  par = [(0.0, 0.0, 0.0, 0.0), (1.0, -2.0, 0.5, 3.0), (-4.0, 4.0, -0.1, 0.7),
         (9.0, -9.0, 0.0, 1.0)]
  jobs = []
  for T in range(2, 6):
    for B in range(1, 5):
      for shape in ((1,), (2,), (3,), (2, 2), (1, 2)):
        if T * B * math.prod(shape) <= lim:
          for p in par:
            jobs.append((histories, T, B, shape, p))
  for T, w, s, r in itertools.product((2, 3, 5), (2, 3), (1, 2, 3), (1, 2)):
    if T >= w:
      jobs.append((windows, T, w, s, r))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C27', body, shards=(4, 8))
