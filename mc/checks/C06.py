"""C06: steps are pure, closed over valid samples, report true acceptance."""
import itertools
from mc import engine
engine.install()
import jax
import jax.numpy as jnp
import numpy as np
from mc import cfgs, joint, kernels, report, targets, zoo
from mc.report import guarded

ACC_TOL = 2e-4


def snap(tree):
  return jax.tree_util.tree_map(lambda a: np.array(a), tree)


def diff(a, b, tol=0.0):
  """Path of the first difference between two snapshots, or None."""
  fa, ta = jax.tree_util.tree_flatten(a)
  fb, tb = jax.tree_util.tree_flatten(b)
  if ta != tb:
    return 'structure %s vs %s' % (ta, tb)
  for u, v in zip(fa, fb):
    u, v = np.asarray(u), np.asarray(v)
    if u.shape != v.shape:
      return 'shape %s vs %s' % (u.shape, v.shape)
    if not np.allclose(u.astype(float), v.astype(float), atol=tol, rtol=tol,
                       equal_nan=True):
      return 'value %s vs %s' % (u.tolist(), v.tolist())
  return None


def closure(chk, nm, shape, n, over, co, word, grid):
  """Exact kernel: closed over valid samples; acceptance as reported."""
  lab = zoo.label(nm, n, shape, over, co) + ' history=%r' % word
  s = cfgs.build(nm, shape, n, co, **over)
  m = targets.ToyModel(shape, n, 'generic', 0, 1.5)
  xs = engine.all_states(shape, n)
  state = kernels.warm(s, shape, n, word)
  kw = dict(grid_n=grid) if nm == 'path_auxiliary' else {}
  ker = kernels.kernel(s, m, m.params, state, xs, shape, n, **kw)
  chk.count(states=ker.S, transitions=ker.worlds, traces=ker.worlds)
  chk.cover(nm)
  if ker.bad:
    chk.violation('%s: %s' % (lab, ker.bad[:3]), key='closed:' + lab,
                  replay=dict(case=lab, bad=ker.bad[:4]))
    return
  sweep = zoo.FAMILY[nm] == 'sweep'
  if sweep:
    a = np.asarray(ker.acc_vals, float)
    err = float(np.max(np.abs(a - 1)))
    worst = None
  elif any(c[0] == 'c' and c[2] == 1 for c in ker.calls):
    err, worst = kernels.acc_error(ker)
  else:
    # the acceptance is not drawn from a uniform: compare expectations
    err, worst = 0.0, None
    for k in range(ker.S):
      sel = ker.world_x == k
      rep = float((ker.world_w[sel] * ker.acc_vals[sel]).sum())
      if rep > 1 + 1e-5 or rep < -1e-6:
        err, worst = abs(rep), (k,)
  chk.sample(dict(case=lab, worlds=ker.worlds, acceptance_gap=err))
  if not err < ACC_TOL:
    chk.violation('%s: reported acceptance differs from the probability of '
                  'accepting by %.3g %s' % (lab, err, worst),
                  key='acc:' + lab, replay=dict(case=lab, worst=worst))


def batch_acc(chk, nm, n, over, co, word):
  """Two chains: the reported acceptance is the mean of the two."""
  shape = (2,)
  lab = zoo.label(nm, n, shape, over, co) + ' two chains history=%r' % word
  j = joint.Joint(nm, shape, n, over, co, word)
  if not j.has_acc:
    chk.notes.append('no acceptance draw: ' + lab)
    return
  alpha = np.stack([j.measure(0)[0], j.measure(1)[0]], 1)
  ok = ~np.isnan(alpha).any(1) & (j.lp > -14)
  chk.count(states=len(j.pairs), transitions=j.runs, traces=j.runs)
  gap = np.where(ok, np.abs(alpha.mean(1) - j.acc), 0)
  gap = np.nan_to_num(gap, nan=9.0)
  k = int(np.argmax(gap))
  chk.sample(dict(case=lab, worlds=int(ok.sum()), gap=float(gap[k])))
  if not gap[k] < 5e-4:
    chk.violation(
        '%s: from %s proposals are accepted with %s but the step reports %.5f'
        % (lab, j.pairs[j.P[k]].tolist(), alpha[k].tolist(), j.acc[k]),
        key='acc2:' + lab, replay=dict(case=lab, pair=j.pairs[j.P[k]].tolist()))


def letters(shape, n):
  """Three different calls (key, batch of samples, history of the state)."""
  xs = engine.all_states(shape, n)
  pick = [xs[[0, 1]], xs[[len(xs) - 1]], xs[[2 % len(xs), 1, 0]]]
  return list(zip((11, 12, 13), pick, ('', 'e', 'eeh')))


def purity(chk, nm, shape, n, over, co, depth):
  lab = zoo.label(nm, n, shape, over, co)
  tgts = [targets.ToyModel(shape, n, 'generic', k, 1.0) for k in (0, 1, 2)]
  L = letters(shape, n)
  states = []
  for _, x, w in L:
    states.append(kernels.warm(cfgs.build(nm, shape, n, co, **over), shape, n,
                               w))

  def call(s, k):
    seed, x, _ = L[k]
    st, xx = kernels.fresh(states[k]), jnp.asarray(x)
    par = dict(tgts[k].params)
    before = (snap(st), np.array(xx), snap(par))
    y, st2, acc = s.step(model=tgts[k], rng=jax.random.PRNGKey(seed), x=xx,
                         model_param=par, state=st)
    after = (snap(st), np.array(xx), snap(par))
    d = diff(before, after)
    if d:
      chk.violation('%s: the step modified its arguments (%s)' % (lab, d),
                    key='mutate:' + lab, replay=dict(case=lab, call=k))
    y = np.asarray(y)
    if y.shape != x.shape or not np.issubdtype(y.dtype, np.integer):
      chk.violation('%s: returned sample has shape %s dtype %s for input %s' % (
          lab, y.shape, y.dtype, x.shape), key='shape:' + lab,
          replay=dict(case=lab, call=k))
    elif y.min() < 0 or y.max() >= n:
      chk.violation('%s: invalid category in %s' % (lab, y.tolist()),
                    key='range:' + lab, replay=dict(case=lab, call=k))
    if int(st2['steps']) != int(before[0]['steps']) + 1:
      chk.violation('%s: step counter went from %d to %d' % (
          lab, int(before[0]['steps']), int(st2['steps'])),
          key='steps:' + lab, replay=dict(case=lab, call=k))
    return snap((y, st2, acc))

  ref = [call(cfgs.build(nm, shape, n, co, **over), k) for k in range(len(L))]
  n_hist = 0
  shared = cfgs.build(nm, shape, n, co, **over)
  seqs = list(itertools.product(range(len(L)), repeat=depth))
  for seq in seqs:
    for k in seq:
      r = call(shared, k)
      d = diff(r, ref[k], 1e-6)
      n_hist += 1
      if d:
        chk.violation('%s: call %d after history %s differs from a first call '
                      '(%s)' % (lab, k, seq, d), key='memory:' + lab,
                      replay=dict(case=lab, history=seq))
        return
  chk.count(states=len(L), transitions=n_hist, traces=n_hist)
  chk.cover('purity:' + nm)


def body(chk):
  chk.bounds.append('all states of <= 3 sites x <= 4 categories and all draws; '
                    'call histories of length 3 over 3 different calls')
  chk.assumptions.append('acceptance tolerance %g' % ACC_TOL)
  jobs = []
  for shape, n, g in (((3,), 2, 12), ((2,), 3, 24)):
    for nm, ov, co in zoo.settings(n):
      for w in (('', 'e') if chk.quick else ('', 'e', 'eee', 'eeh')):
        if zoo.FAMILY[nm] == 'sweep' and w == '' and chk.quick:
          continue
        jobs.append((closure, nm, shape, n, ov, co, w, g))
  for n in (2, 3):
    for nm, ov, co in zoo.settings(n, full=not chk.quick):
      if zoo.FAMILY[nm] == 'mh':
        jobs.append((batch_acc, nm, n, ov, co, 'e'))
  for shape, n in (((3,), 2), ((2,), 3)) + (
      (((2, 2), 3), ((2, 1, 2), 2)) if chk.quick else
      (((2, 2), 2), ((2, 2), 4), ((2, 1, 2), 2), ((2, 3), 3))):
    for nm, ov, co in zoo.settings(n, full=not chk.quick):
      jobs.append((purity, nm, shape, n, ov, co, 2 if chk.quick else 3))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C06', body, shards=(7, 8))
