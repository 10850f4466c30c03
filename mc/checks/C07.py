"""C07: chains of a batch do not influence one another."""
from mc import engine
engine.install()
import jax
import jax.numpy as jnp
import numpy as np
from mc import cfgs, joint, kernels, report, targets, zoo
from mc.report import guarded

TOL = 3e-4


def users(j, Yc, A, live):
  """For every random scalar: does it change this chain's outcome?"""
  dims = j.axes()
  S = j.S
  Yr = Yc.reshape((S, S) + dims + (-1,))
  Ar = A.reshape((S, S) + dims)
  Lr = live.reshape((S, S) + dims)
  out = []
  for a in range(2, 2 + len(dims)):
    hit = False
    for r in range(dims[a - 2]):
      both = Lr & np.take(Lr, [r], axis=a)
      dy = (Yr != np.take(Yr, [r], axis=a)).any(-1) & both
      Ar2 = np.take(Ar, [r], axis=a)
      ok = both & ~np.isnan(Ar) & ~np.isnan(Ar2)
      hit = hit or bool(dy.any()) or bool(
          (np.abs(np.where(ok, Ar - Ar2, 0)) > TOL).any())
    out.append(hit)
  return out


def independent(chk, nm, shape, n, over, co, word):
  lab = zoo.label(nm, n, shape, over, co) + ' history=%r' % word
  j = joint.Joint(nm, shape, n, over, co, word)
  if len(set(j.keys)) != len(j.keys):
    chk.violation('%s: two draws of a two-chain step use the same random key'
                  % lab, key='keys:' + lab, replay=dict(case=lab))
    return
  S, K = j.S, j.n_scripts
  Y = j.y0.reshape(S, S, K, 2, -1)
  lp = j.lp.reshape(S, S, K)
  single = None
  if not j.gdim:
    single = kernels.kernel(j.s, j.m, j.m.params, j.state, j.xs, shape, n)
    if single.bad:
      single = None
  prob = np.exp(np.nan_to_num(lp, nan=-1e9))
  if not j.gdim and not np.abs(prob.sum(2) - 1).max() < 1e-3:
    chk.violation('%s: probabilities of the draws do not sum to one' % lab,
                  key='mass:' + lab, replay=dict(case=lab))
    return
  used = []
  for ch in (0, 1):
    thr, y1, same = (j.measure(ch) if j.has_acc else
                     (np.full(len(j.P), 1.0), j.y0, np.ones(len(j.P), bool)))
    A = thr.reshape(S, S, K)
    Yc = Y[:, :, :, ch]
    live = prob > 1e-9
    other = 1 - ch
    used.append(users(j, Yc, A, live))
    if j.has_acc:
      o0 = Y[:, :, :, other]
      o1 = y1.reshape(Y.shape)[:, :, :, other]
      if ((o0 != o1).any(-1) & live).any():
        chk.violation('%s: the acceptance draw of chain %d moves the other '
                      'chain' % (lab, ch), key='accdraw:' + lab,
                      replay=dict(case=lab))
        return
    # move the other chain's state along its axis, keep everything else
    ref = np.take(Yc, [0], axis=other)
    live2 = live & np.take(live, [0], axis=other)
    bad = (Yc != ref).any(-1) & live2
    Aref = np.take(A, [0], axis=other)
    gap = np.where(live2 & ~np.isnan(A) & ~np.isnan(Aref), np.abs(A - Aref), 0)
    for what, b in (('next sample', bad), ('acceptance probability',
                                           gap > TOL)):
      if b.any():
        i = np.argwhere(b)[0]
        chk.violation(
            '%s: the %s of chain %d in state %s changes with the state of the '
            'other chain (%s), same draws' % (
                lab, what, ch, j.xs[i[ch]].tolist(), j.xs[i[other]].tolist()),
            key='dep:%s:%s' % (what, lab),
            replay=dict(case=lab, script=int(i[2]), chain=ch,
                        states=[j.xs[i[0]].tolist(), j.xs[i[1]].tolist()],
                        thresholds=[float(A[tuple(i)]), float(
                            np.take(A, [0], axis=other)[
                                (i[0] if ch == 0 else 0,
                                 i[1] if ch == 1 else 0, i[2])])]))
        return
    if single is not None:
      # marginal transition law of this chain == law of a single chain
      xs_flat = j.xs.reshape(S, -1)
      pw = n ** np.arange(xs_flat.shape[1] - 1, -1, -1)
      i0 = (Yc * pw).sum(-1)
      i1 = (y1.reshape(S, S, K, 2, -1)[:, :, :, ch] * pw).sum(-1)
      th = np.where(np.isnan(A), 1.0, A)
      own = np.arange(S).reshape((S, 1, 1) if ch == 0 else (1, S, 1))
      oth = np.arange(S).reshape((1, S, 1) if ch == 0 else (S, 1, 1))
      M = np.zeros((S, S, S))   # own state, other state, outcome
      o, t = np.broadcast_to(own, i0.shape), np.broadcast_to(oth, i0.shape)
      if i0.min() < 0 or i0.max() >= S or i1.min() < 0 or i1.max() >= S:
        chk.violation('%s: invalid sample' % lab, key='range:' + lab,
                      replay=dict(case=lab))
        return
      np.add.at(M, (o, t, i0), prob * th)
      np.add.at(M, (o, t, i1), prob * (1 - th))
      e = np.abs(M - single.P[:, None, :])
      if e.max() > 1e-3:
        i = np.unravel_index(np.argmax(e), e.shape)
        chk.violation(
            '%s: chain %d moves %s -> %s with probability %.5f in a batch with '
            '%s but %.5f alone' % (lab, ch, j.xs[i[0]].tolist(),
                                   j.xs[i[2]].tolist(), M[i],
                                   j.xs[i[1]].tolist(),
                                   single.P[i[0], i[2]]),
            key='law:' + lab, replay=dict(case=lab))
        return
  shared = [k for k, (a, b) in enumerate(zip(*used)) if a and b]
  # the Hamming-ball radius is drawn once per batch by design
  if len(shared) > (1 if nm == 'hammingball' else 0):
    chk.violation('%s: a random draw is used by both chains of the batch'
                  % lab, key='shared:' + lab,
                  replay=dict(case=lab, draws=repr(j.specs), scalars=shared))
    return
  chk.count(states=S * S, transitions=j.runs, traces=j.runs)
  chk.cover(nm)
  chk.sample(dict(case=lab, scripts=K, pairs=S * S, worlds=j.runs))


def close(a, b, tol=2e-5):
  fa, ta = jax.tree_util.tree_flatten(a)
  fb, tb = jax.tree_util.tree_flatten(b)
  if ta != tb:
    return 'structure %s / %s' % (ta, tb)
  for u, v in zip(fa, fb):
    u, v = np.asarray(u), np.asarray(v)
    if u.shape != v.shape or not np.allclose(u.astype(float), v.astype(float),
                                             atol=tol, rtol=tol,
                                             equal_nan=True):
      return '%s / %s' % (u.tolist(), v.tolist())
  return None


def execution(chk, nm, shape, n, over, co, word, keys):
  """Eager == compiled == vectorised over models, from every state."""
  lab = zoo.label(nm, n, shape, over, co) + ' history=%r' % word
  s = cfgs.build(nm, shape, n, co, **over)
  ms = [targets.ToyModel(shape, n, 'generic', k, 1.0) for k in (0, 1, 2)]
  m = ms[0]
  xs = jnp.asarray(engine.all_states(shape, n))
  state = kernels.warm(s, shape, n, word)

  def call(rng, x, par, st):
    return s.step(model=m, rng=rng, x=x, model_param=par, state=st)

  jitted = jax.jit(call)
  runs = 0
  for key in keys:
    rng = jax.random.PRNGKey(key)
    for mm in ms:
      e = call(rng, xs, mm.params, kernels.fresh(state))
      c = jitted(rng, xs, mm.params, kernels.fresh(state))
      runs += 2 * len(xs)
      d = close(e, c)
      if d:
        chk.violation('%s: compiled and eager steps differ: %s' % (lab, d),
                      key='jit:' + lab, replay=dict(case=lab, key=key))
        return
    # three models (with their own samples and keys) at once
    rngs = jax.random.split(rng, 3)
    xv = jnp.stack([xs, xs[::-1], jnp.roll(xs, 1, 0)])
    pv = jax.tree_util.tree_map(lambda *a: jnp.stack(a),
                                *[k.params for k in ms])
    sv = jax.tree_util.tree_map(lambda a: jnp.stack([a] * 3),
                                kernels.fresh(state))
    v = jax.jit(jax.vmap(call))(rngs, xv, pv, sv)
    for i in range(3):
      one = call(rngs[i], xv[i], ms[i].params, kernels.fresh(state))
      vi = jax.tree_util.tree_map(lambda a: a[i], v)
      runs += 2 * len(xs)
      d = close(one, vi)
      if d:
        chk.violation('%s: model %d processed together with others differs '
                      'from alone: %s' % (lab, i, d), key='vmap:' + lab,
                      replay=dict(case=lab, key=key))
        return
  chk.count(states=len(xs), transitions=runs, traces=runs)
  chk.cover('exec:' + nm)


def body(chk):
  chk.bounds.append('two chains, all pairs of states of 2 sites x <= 3 '
                    'categories, all draw scripts; acceptance resolved to 2^-17')
  chk.assumptions.append(
      'the step-size/radius state is shared by the batch by design: it is held '
      'at the same value; Langevin samplers are taken after initialisation and '
      'outside the optimisation mode')
  jobs = []
  for n in (2, 3):
    for nm, ov, co in zoo.settings(n, full=not chk.quick):
      if co or (nm == 'hammingball' and not ov and n > 2):
        continue   # block of all sites: same code as block_size=2 here
      jobs.append((independent, nm, (2,), n, ov, co, 'e'))
      if not chk.quick:
        jobs.append((independent, nm, (2, 1), n, ov, co, 'eee'))
  for shape, n in (((3,), 2), ((2,), 3)):
    for nm, ov, co in zoo.settings(n, full=not chk.quick):
      jobs.append((execution, nm, shape, n, ov, co, 'e',
                   (1,) if chk.quick else (1, 2, 3, 4)))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C07', body, shards=(7, 8))
