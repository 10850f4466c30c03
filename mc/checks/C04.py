"""C04: DLMC / DMALA leave the target invariant (frozen step size)."""
from mc import engine
engine.install()
from mc import invariance as iv, report
case = iv.case


def cases(quick):
  cs = []
  words = ('e', 'eeh', 'hhh', 'eeeeee')
  g = [((3,), 2), ((2,), 3)] + ([((2, 2), 2), ((3,), 3), ((2,), 4), ((4,), 2), ((1,), 3)]
                               if not quick else [((2, 2), 2), ((3,), 3)])
  for shape, n in g:
    full = not quick or (shape, n) in (((3,), 2), ((2,), 3))
    for lb in iv.LB if full else ('SQRT',):
      for w in words if full else words[:2]:
        for sol in ('interpolate', 'euler_forward'):
          cs.append(case('dlmc', shape, n, w, balancing_fn_type=lb, solver=sol))
        cs.append(case('dmala', shape, n, w, balancing_fn_type=lb))
      for sol in ('interpolate', 'euler_forward'):
        for nn in ((3.0, 1.0) if full else (2.0,)):
          cs.append(case('dlmc', shape, n, 'e', balancing_fn_type=lb,
                         solver=sol, adaptive=False, n_=nn))
        cs.append(case('dlmc', shape, n, 'e', co=True, balancing_fn_type=lb,
                       solver=sol))
        cs.append(case('dlmc', shape, n, '', co=True, balancing_fn_type=lb,
                       solver=sol))
      for ss in ((0.2, 0.7) if full else (0.5,)):
        cs.append(case('dmala', shape, n, '', balancing_fn_type=lb,
                       adaptive=False, step_size=ss))
      cs.append(case('dmala', shape, n, 'e', co=True, balancing_fn_type=lb))
      cs.append(case('dmala', shape, n, '', co=True, balancing_fn_type=lb))
  if quick:
    for shape, n in (((2, 2), 3), ((2, 1, 2), 2), ((2,), 4)):
      for nm in ('dlmc', 'dmala'):
        for w in ('e', 'eeh'):
          cs.append(case(nm, shape, n, w))
        cs.append(case(nm, shape, n, 'e', co=True))
        cs.append(case(nm, shape, n, 'e', adaptive=False))
  for tgt, shape, n in ((('ising',), (2, 2), 2), (('potts',), (2, 1), 3),
                        (('bernoulli',), (3,), 2), (('categorical',), (2,), 3),
                        (('toy', 'generic', 1, 2.5), (3,), 2),
                        (('toy', 'generic', 2, 2.5), (2,), 3)):
    for nm in ('dlmc', 'dmala'):
      cs.append(case(nm, shape, n, 'ee', tgt=tgt))
      cs.append(case(nm, shape, n, 'ee', tgt=tgt, adaptive=False))
  return cs


def body(chk):
  chk.bounds.append('sites <= 4, categories <= 4, step-size histories up to 6 '
                    'steps, all states, all draws')
  chk.assumptions += [
      'the very first adaptive step, which initialises the step size from the '
      'sample itself, is outside the property',
      'the random draws of jax.random are independent with the law requested',
      'tolerance %g on pi P - pi (float32 arithmetic)' % iv.TOL]
  iv.run_cases(chk, cases(chk.quick))


if __name__ == '__main__':
  report.run_main('C04', body, shards=(6, 8))
