"""C01: Gibbs-family kernels leave the target invariant."""
from mc import engine
engine.install()
from mc import invariance as iv, report
case = iv.case


def cases(quick):
  cs = []
  g = [((3,), 2), ((2, 2), 2), ((2,), 3), ((3,), 3), ((2,), 4), ((1,), 5)]
  if not quick:
    g += [((4,), 2), ((2, 1, 2), 2), ((2, 2), 3), ((3,), 4), ((5,), 2), ((1,), 2)]
  for shape, n in g:
    d = 1
    for v in shape:
      d *= v
    for k in (range(d + 1) if not quick else sorted({0, 1, d - 1, d})):
      cs.append(case('gibbs', shape, n, 'e' * k))
    for b in (1, 2, 3):
      if b > d + 1 or n ** b > 100:
        continue
      # the sweep position advances by b modulo d: visit several positions
      for k in ((0, 1, 2) if quick else range(d + 2)):
        cs.append(case('blockgibbs', shape, n, 'e' * k, block_size=b))
        cs.append(case('hammingball', shape, n, 'e' * k, block_size=b))
  if quick:
    for shape, n in (((2, 2), 3), ((2, 1, 2), 2), ((5,), 2), ((2, 3), 2)):
      for w in ('', 'eee'):
        cs.append(case('gibbs', shape, n, w))
        for b in (2, 4):
          if n ** b < 50:
            cs.append(case('blockgibbs', shape, n, w, block_size=b))
          cs.append(case('hammingball', shape, n, w, block_size=b))
  for nm, ov in (('gibbs', {}), ('blockgibbs', dict(block_size=2)),
                 ('hammingball', dict(block_size=2)),
                 ('hammingball', dict(block_size=3))):
    for tgt, shape, n in ((('ising',), (2, 2), 2), (('potts',), (2, 1), 3),
                          (('bernoulli',), (3,), 2),
                          (('categorical',), (2,), 3),
                          (('toy', 'generic', 1, 2.5), (3,), 2),
                          (('toy', 'flat', 0, 1.0), (3,), 2)):
      cs.append(case(nm, shape, n, 'e', tgt=tgt, **ov))
  return cs


def body(chk):
  chk.bounds.append('sites <= %d, categories <= 5, block <= 3, every sweep '
                    'position listed, all states, all draws'
                    % (4 if chk.quick else 5))
  chk.assumptions += [
      'the random draws of jax.random are independent with the law requested',
      'tolerance %g on pi P - pi (float32 arithmetic)' % iv.TOL]
  iv.run_cases(chk, cases(chk.quick))


if __name__ == '__main__':
  report.run_main('C01', body, shards=(6, 8))
