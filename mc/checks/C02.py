"""C02: random walk and Gibbs-with-gradients leave the target invariant."""
from mc import engine
engine.install()
from mc import invariance as iv, report
case = iv.case


def cases(quick):
  cs = []
  words = ('', 'e', 'eee', 'eeeeee', 'eeehh')
  g2 = [(3,), (2, 2)] + ([] if quick else [(4,), (2,), (1,)])
  gn = [((2,), 3), ((3,), 3)] + ([] if quick else [((2,), 4), ((2, 2), 3), ((1,), 4)])
  for shape in g2:
    for w in words if shape == (3,) or not quick else ('', 'eeehh'):
      cs.append(case('randomwalk', shape, 2, w))
    cs.append(case('randomwalk', shape, 2, 'e', adaptive=False))
    for lb in iv.LB:
      for w in (words[:4] if not quick else ('e', 'eeee')):
        if shape == (2, 2) and quick and lb not in ('SQRT', 'MAX'):
          continue
        cs.append(case('gwg', shape, 2, w, balancing_fn_type=lb))
      for f in (1, 2, 3):
        if shape == (2, 2) and quick and f != 2:
          continue
        cs.append(case('gwg', shape, 2, '', balancing_fn_type=lb,
                       adaptive=False, num_flips=f))
  for shape, n in gn:
    for w in words[:4] if not quick else ('', 'eee', 'eeehh'):
      cs.append(case('randomwalk', shape, n, w))
    for lb in iv.LB:
      cs.append(case('gwg', shape, n, 'e', balancing_fn_type=lb))
  if quick:
    for lb in ('SQRT', 'MIN'):
      cs.append(case('gwg', (2, 2), 3, 'e', balancing_fn_type=lb))
    cs.append(case('gwg', (2, 1, 2), 2, 'eee'))
    cs.append(case('gwg', (2, 1, 2), 2, '', adaptive=False, num_flips=2))
    cs.append(case('gwg', (2,), 5, 'e'))
    cs.append(case('randomwalk', (2, 2), 3, 'eee'))
    cs.append(case('randomwalk', (2,), 4, 'eee'))
  for mask in ((1, 1, 0), (0, 1, 1), (0, 0, 1)):
    cs.append(case('gwg', (3,), 2, 'e', mask=mask))
    cs.append(case('gwg', (3,), 2, 'eee', mask=mask))
    cs.append(case('gwg', (3,), 2, '', mask=mask, adaptive=False, num_flips=2,
                   balancing_fn_type='RATIO'))
  for tgt, shape, n in ((('ising',), (2, 2), 2), (('potts',), (2, 1), 3),
                        (('bernoulli',), (3,), 2), (('categorical',), (2,), 3),
                        (('toy', 'generic', 1, 2.5), (3,), 2),
                        (('toy', 'generic', 2, 2.5), (2,), 3),
                        (('toy', 'flat', 0, 1.0), (3,), 2)):
    cs.append(case('randomwalk', shape, n, 'ee', tgt=tgt))
    cs.append(case('gwg', shape, n, 'ee', tgt=tgt))
    cs.append(case('gwg', shape, n, '', tgt=tgt, adaptive=False))
  return cs


def body(chk):
  chk.bounds.append('sites <= 4, categories <= 4, radius histories up to 6 '
                    'steps, flips <= 3, all states, all draws')
  chk.assumptions += [
      'the random draws of jax.random are independent with the law requested',
      'tolerance %g on pi P - pi (float32 arithmetic)' % iv.TOL]
  iv.run_cases(chk, cases(chk.quick))


if __name__ == '__main__':
  report.run_main('C02', body, shards=(6, 8))
