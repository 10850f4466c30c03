"""C03: path-auxiliary steps leave the target invariant."""
from mc import engine
engine.install()
from mc import invariance as iv, report
case = iv.case


def cases(quick):
  cs = []
  G3 = 24 if quick else 40
  G2 = 96 if quick else 160
  N = 'path_auxiliary'
  for lb in iv.LB:
    for w in ('e', 'eee', 'eeeeee'):
      if quick and lb in ('MAX', 'MIN') and w == 'e':
        continue
      cs.append(case(N, (3,), 2, w, grid=G3, balancing_fn_type=lb))
    for f in (1, 2, 3):
      if quick and lb in ('RATIO', 'MIN') and f == 1:
        continue
      cs.append(case(N, (3,), 2, '', grid=G3, balancing_fn_type=lb,
                     adaptive=False, num_flips=f))
    for w in ('e', 'eeee'):
      cs.append(case(N, (2,), 3, w, grid=G2, balancing_fn_type=lb))
    for f in (1, 2):
      cs.append(case(N, (2,), 3, '', grid=G2, balancing_fn_type=lb,
                     adaptive=False, num_flips=f))
  for mask in ((1, 1, 0), (0, 1, 1)):
    cs.append(case(N, (3,), 2, 'e', grid=G3, mask=mask))
    cs.append(case(N, (3,), 2, 'ee', grid=G3, mask=mask))
    cs.append(case(N, (3,), 2, '', grid=G3, mask=mask, adaptive=False,
                   num_flips=2))
  cs.append(case(N, (2,), 3, 'e', grid=G2, mask=(1, 0)))
  cs.append(case(N, (2,), 3, '', grid=G2, mask=(1, 0), adaptive=False))
  for ov in (dict(), dict(adaptive=False, num_flips=2)):
    cs.append(case(N, (3,), 2, 'eee', grid=G3, approx_with_grad=False, **ov))
    cs.append(case(N, (2,), 3, 'eee', grid=G2, approx_with_grad=False, **ov))
    cs.append(case(N, (2, 1), 3, 'eee', grid=G2, **ov))
    cs.append(case(N, (1, 3), 2, 'eee', grid=G3,
                   tgt=('toy', 'generic', 1, 2.0), **ov))
    cs.append(case(N, (2, 1), 2, 'ee', grid=G2, tgt=('ising',), **ov))
    cs.append(case(N, (2,), 4, 'ee', grid=64,
                   tgt=('toy', 'generic', 2, 1.5), **ov))
  if not quick:
    for ov in (dict(), dict(adaptive=False, num_flips=2),
               dict(adaptive=False, num_flips=3)):
      cs.append(case(N, (4,), 2, 'eeee', grid=20, **ov))
      cs.append(case(N, (3,), 3, 'eeee', grid=20, **ov))
      cs.append(case(N, (2, 2), 2, 'eeee', grid=20, tgt=('ising',), **ov))
  return cs


def body(chk):
  chk.bounds.append('sites <= %d, categories <= 4, path length <= 3, uniform '
                    'cube of the without-replacement draw resolved on a full '
                    'grid' % (3 if chk.quick else 4))
  chk.assumptions += [
      'the random draws of jax.random are independent with the law requested',
      'grid tolerance %g on pi P - pi' % iv.TOL_GRID]
  iv.run_cases(chk, cases(chk.quick))


if __name__ == '__main__':
  report.run_main('C03', body, shards=(6, 6))
