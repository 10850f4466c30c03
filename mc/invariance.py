"""Case enumeration and decision for the kernel-invariance properties."""
import importlib
import math

import jax.numpy as jnp
import ml_collections
import numpy as np

from mc import cfgs, engine, kernels, oracles, targets
from mc.report import guarded

TOL = 5e-5
TOL_GRID = 4e-3
LB = cfgs.LB


def case(name, shape, n, word='', tgt=('toy', 'generic', 0, 1.0), co=False,
         mask=None, grid=0, **over):
  return dict(name=name, shape=tuple(shape), n=n, word=word, tgt=tgt, co=co,
              mask=mask, grid=grid, over=over)


def label(c):
  return '%s shape=%s n=%d history=%r target=%s%s%s %s' % (
      c['name'], c['shape'], c['n'], c['word'], '/'.join(map(str, c['tgt'])),
      ' co' if c['co'] else '', ' mask=%s' % (c['mask'],) if c['mask'] else '',
      c['over'])


def target(c):
  """Returns (model, params, pi over all states)."""
  xs = engine.all_states(c['shape'], c['n'])
  kind = c['tgt'][0]
  if kind == 'toy':
    m = targets.ToyModel(c['shape'], c['n'], *c['tgt'][1:])
    return m, m.params, m.pi(xs), xs
  rs = np.random.RandomState(5)
  mod = importlib.import_module('discs.models.' + kind)
  mc = dict(shape=c['shape'], num_categories=c['n'], init_sigma=1.0,
            lambdaa=0.4, mu=0.3, name=kind)
  model = mod.build_model(ml_collections.ConfigDict(dict(model=mc)))
  if kind == 'bernoulli':
    par = rs.uniform(-1.5, 1.5, c['shape'])
    logp = oracles.bernoulli(par, xs)
  elif kind == 'categorical':
    par = rs.uniform(-1.5, 1.5, c['shape'] + (c['n'],))
    logp = oracles.categorical(par, xs)
  elif kind == 'ising':
    par = rs.uniform(-0.9, 0.9, (3,) + c['shape'])
    logp = oracles.ising(par, xs)
  elif kind == 'potts':
    par = rs.uniform(-0.9, 0.9, (3,) + c['shape'] + (c['n'],))
    logp = oracles.potts(par, xs)
  return model, {'params': jnp.asarray(par, jnp.float32)}, \
      oracles.softmax_logits(logp), xs


def run_case(chk, c):
  lab = label(c)
  s = cfgs.build(c['name'], c['shape'], c['n'], c['co'], **c['over'])
  state = kernels.warm(s, c['shape'], c['n'], c['word'])
  model, params, pi, xs = target(c)
  kw = {}
  if c['grid']:
    kw['grid_n'] = c['grid']
  ker = kernels.kernel(s, model, params, state, xs, c['shape'], c['n'],
                       mask=c['mask'], **kw)
  rows, err, k = kernels.invariance_error(ker, pi)
  chk.count(states=ker.S, transitions=ker.worlds, traces=ker.worlds)
  chk.cover(c['name'])
  tol = TOL_GRID if ker.grid else TOL
  moved = int((ker.P - np.diag(np.diag(ker.P)) > 1e-9).sum())
  if moved == 0:
    chk.cover('cases-without-moves')
  chk.sample(dict(case=lab, states=ker.S, worlds=ker.worlds,
                  draws=[list(map(str, d)) for d in ker.calls],
                  max_abs_piP_minus_pi=err, off_diagonal_transitions=moved))
  if ker.bad:
    chk.violation('%s: %s' % (lab, ker.bad[:3]), key='bad:' + lab,
                  replay=dict(case=c, bad=ker.bad[:5]))
  elif not rows < 1e-4:
    chk.violation('%s: transition probabilities sum to %r off 1' % (lab, rows),
                  key='rows:' + lab, replay=dict(case=c))
  elif not err < tol:
    chk.violation(
        '%s: pi P differs from pi by %.3g at state %s (pi=%.4f, piP=%.4f)' % (
            lab, err, xs[k].tolist(), pi[k], (pi @ ker.P)[k]),
        key='inv:' + lab, replay=dict(case=c, error=err,
                                      state=xs[k].tolist(), pi=pi.tolist(),
                                      P=ker.P.tolist() if ker.S <= 16 else None))
  elif ker.shared_keys:
    chk.violation('%s: two random draws of one step use the same key, so they '
                  'are not independent' % lab, key='keys:' + lab,
                  replay=dict(case=c, keys=ker.shared_keys))
  else:
    fk = kernels.foreign_keys(s, model, params, state, jnp.asarray(xs[:1]),
                              c['mask'])
    if fk:
      chk.violation('%s: a random draw does not depend on the key given to the '
                    'step' % lab, key='keys:' + lab, replay=dict(case=c))
  if c['mask'] is not None:
    m = np.asarray(c['mask']).reshape(-1)
    xf = xs.reshape(len(xs), -1)
    frozen = (xf[:, None, :] != xf[None, :, :])[:, :, m == 0].any(-1)
    leak = float((ker.P * frozen).max())
    if leak > 1e-6:
      i, j = np.unravel_index(np.argmax(ker.P * frozen), ker.P.shape)
      chk.violation('%s: masked coordinate changes with probability %.3g: %s -> %s'
                    % (lab, leak, xs[i].tolist(), xs[j].tolist()),
                    key='mask:' + lab, replay=dict(case=c))
    elif ker.grid:
      X, y, lp = engine.extremes(
          kernels.stepper(s, model, params, state, c['mask']), xs, c['shape'],
          c['n'], ker.calls)
      moved = (y.reshape(len(y), -1) != xf[X])[:, m == 0].any(-1) & (lp > -80)
      chk.count(transitions=len(X))
      if moved.any():
        i = int(np.argmax(moved))
        chk.violation('%s: masked coordinate changes for some draws: %s -> %s' % (
            lab, xs[X[i]].tolist(), y[i].tolist()), key='mask:' + lab,
                      replay=dict(case=c))
  return ker


def run_cases(chk, cs):
  for c in cs:
    if not chk.mine():
      continue
    if chk.full():
      return
    guarded(chk, label(c), run_case, chk, c, key='raise:' + label(c))
