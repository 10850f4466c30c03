"""C09: the energy-evaluation counter equals the evaluations really made."""
from mc import engine
engine.install()
import itertools
import jax
import jax.numpy as jnp
import numpy as np
from mc import cfgs, kernels, report, targets, zoo
from mc.report import guarded

COUNT = [0]


def bump(rows, _):
  COUNT[0] += int(rows)


class Metered(targets.ToyModel):
  """Counts evaluated rows at run time, also inside compiled loops."""

  def __init__(self, *a, ratio_cost=1, **kw):
    super().__init__(*a, **kw)
    self.ratio_cost = ratio_cost

  def _meter(self, x, k):
    # the data dependence keeps one callback per executed evaluation
    jax.debug.callback(bump, np.int32(k * x.shape[0]), x.reshape(-1)[0])

  def forward(self, params, x):
    self._meter(x, 1)
    return self._energy(params, x)

  def get_value_and_grad(self, params, x):
    self._meter(x, 2)
    return super().get_value_and_grad(params, x)

  def logratio_in_neighborhood(self, params, x):
    self._meter(x, self.ratio_cost)
    ll, r, _, f = super().logratio_in_neighborhood(params, x)
    return ll, r, self.ratio_cost, f


def run(chk, nm, shape, n, over, co, batch, steps, cost=1, eager=True):
  lab = zoo.label(nm, n, shape, over, co) + ' batch=%d' % batch
  s = cfgs.build(nm, shape, n, co, **over)
  m = Metered(shape, n, 'generic', 0, 1.0, ratio_cost=cost)
  xs = engine.all_states(shape, n)
  def call(rng, x, st):
    return s.step(model=m, rng=rng, x=x, model_param=m.params, state=st)
  jitted = jax.jit(call)
  for start in range(0, len(xs), max(1, len(xs) // 3)):
    x = jnp.asarray(np.stack([xs[(start + i) % len(xs)] for i in range(batch)]))
    for mode in (('eager', 'jit') if start == 0 and eager else ('jit',)):
      f = jitted if mode == 'jit' else call
      st = s.make_init_state(jax.random.PRNGKey(0))
      y, total = x, 0
      for t in range(steps):
        jax.effects_barrier()
        COUNT[0] = 0
        y, st, _ = f(jax.random.PRNGKey(t + 5), y, kernels.fresh(st))
        jax.block_until_ready(y)
        jax.effects_barrier()
        total += COUNT[0]
        got = float(st['num_ll_calls'])
        chk.count(states=1, transitions=1, traces=1)
        if abs(got - total / batch) > 1e-6:
          chk.violation(
              '%s (%s): after %d steps the counter says %g evaluations but %g '
              'were made per chain' % (lab, mode, t + 1, got, total / batch),
              key='count:' + lab, replay=dict(case=lab, steps=t + 1,
                                              counted=got,
                                              made=total / batch))
          return
  chk.cover(nm)
  chk.sample(dict(case=lab, per_step=total / batch / steps))


def body(chk):
  q = chk.quick
  chk.bounds.append('runs of %d steps, batches of 1..3 chains, 2..4 categories, '
                    'block sizes 1..4, eager and compiled' % (3 if q else 6))
  chk.assumptions.append('a value-and-gradient evaluation counts as two; exact '
                         'neighbourhood ratios count what the model reports')
  jobs = []
  for shape, n in (((3,), 2), ((4,), 3), ((2, 2), 4)):
    for nm, ov, co in zoo.settings(n, full=not q):
      for b in ((1, 3) if q else (1, 2, 3)):
        if nm == 'hammingball' and not ov:
          continue
        jobs.append((nm, shape, n, ov, co, b, 3 if q else 6, 1,
                     not q or b == 1))
    for bs in (1, 2, 3, 4):
      for nm in ('blockgibbs', 'hammingball'):
        jobs.append((nm, (4,), n, dict(block_size=bs), False, 2,
                     3 if q else 6, 1, not q))
    for cost in (1, 2):
      jobs.append(('path_auxiliary', shape, n, dict(approx_with_grad=False),
                   False, 2, 3, cost))
      jobs.append(('path_auxiliary', shape, n,
                   dict(approx_with_grad=False, adaptive=False, num_flips=2),
                   False, 2, 3, cost))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, 'run %s' % (j,), run, chk, *j)


if __name__ == '__main__':
  report.run_main('C09', body, shards=(7, 8))
