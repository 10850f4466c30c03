"""C05: every sampler can reach every state."""
from mc import engine
engine.install()
import jax
import jax.numpy as jnp
import numpy as np
from mc import cfgs, kernels, report, targets, zoo
from mc.report import guarded

EPS = 1e-13


def one(chk, nm, shape, n, over, co, grid, tgt):
  lab = zoo.label(nm, n, shape, over, co) + ' target=%s' % (tgt,)
  s = cfgs.build(nm, shape, n, co, **over)
  m = targets.ToyModel(shape, n, *tgt)
  xs = engine.all_states(shape, n)
  d = xs[0].size
  state = s.make_init_state(jax.random.PRNGKey(0))
  kw = dict(grid_n=grid) if nm == 'path_auxiliary' else {}
  if zoo.FAMILY[nm] == 'sweep':
    # the sweep position of the state moves on: two full rounds
    reach = np.eye(len(xs), dtype=bool)
    horizon = 2 * d
    for t in range(horizon):
      ker = kernels.kernel(s, m, m.params, state, xs, shape, n, **kw)
      chk.count(states=ker.S, transitions=ker.worlds, traces=ker.worlds)
      reach = reach | ((reach.astype(int) @ (ker.P > EPS).astype(int)) > 0)
      _, state, _ = s.step(model=m, rng=jax.random.PRNGKey(t),
                           x=jnp.asarray(xs[:1]), model_param=m.params,
                           state=kernels.fresh(state))
      if reach.all():
        break
  else:
    ker = kernels.kernel(s, m, m.params, state, xs, shape, n, **kw)
    chk.count(states=ker.S, transitions=ker.worlds, traces=ker.worlds)
    adj = (ker.P > EPS).astype(int)
    reach = np.eye(len(xs), dtype=int) | adj
    for _ in range(len(xs).bit_length() + 1):
      reach = ((reach @ reach) > 0).astype(int)
    reach = reach.astype(bool)
  chk.cover(nm)
  chk.sample(dict(case=lab, reachable_pairs=int(reach.sum()),
                  pairs=int(reach.size)))
  if not reach.all():
    i, j = np.argwhere(~reach)[0]
    chk.violation('%s: state %s can never be reached from %s' % (
        lab, xs[j].tolist(), xs[i].tolist()), key='reach:' + lab,
        replay=dict(case=lab, source=xs[i].tolist(), target=xs[j].tolist()))


def body(chk):
  chk.bounds.append('sites <= 5, categories <= 4, all pairs of states; sweeping '
                    'samplers within two rounds, others by transitive closure '
                    'of the fresh-state kernel')
  cs = []
  tg = (('generic', 0, 1.0),) if chk.quick else (
      ('generic', 0, 1.0), ('generic', 3, 3.0), ('factorised', 1, 2.0))
  for tgt in tg:
    for shape, n, g in (((3,), 2, 14), ((2,), 3, 40), ((2, 2), 2, 8),
                        ((2,), 4, 40)):
      for nm, ov, co in zoo.settings(n):
        if ov.get('num_flips', 1) > 1:
          continue
        cs.append((nm, shape, n, ov, co, g, tgt))
    for shape, n in (((3,), 2), ((4,), 2), ((5,), 2), ((3,), 3), ((2, 2), 2)):
      for b in (1, 2, 3, 4):
        if n ** b > 81:
          continue
        cs.append(('blockgibbs', shape, n, dict(block_size=b), False, 0, tgt))
        cs.append(('hammingball', shape, n, dict(block_size=b), False, 0, tgt))
      cs.append(('gibbs', shape, n, {}, False, 0, tgt))
  for c in cs:
    if chk.mine() and not chk.full():
      guarded(chk, str(c), one, chk, *c)


if __name__ == '__main__':
  report.run_main('C05', body, shards=(6, 8))
