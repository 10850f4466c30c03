"""C16: the SAT-to-independent-set conversion is faithful."""
from mc import engine
engine.install()
import itertools
import tempfile
import numpy as np
from mc import graphs, objectives, report
from mc.report import guarded, HarnessError


def maxsat(cl, nv):
  best = 0
  for b in itertools.product((False, True), repeat=nv):
    best = max(best, sum(any(b[abs(l) - 1] == (l > 0) for l in c) for c in cl))
  return best


def mis_size(n, adj):
  """Maximum independent set by branch and bound on bitmasks."""
  def rec(avail):
    if not avail:
      return 0
    v = avail.bit_length() - 1
    take = 1 + rec(avail & ~(1 << v) & ~adj[v])
    if not (adj[v] & avail):
      return take
    return max(take, rec(avail & ~(1 << v)))
  return rec((1 << n) - 1)


def run(chk, lab, formulas, style):
  from discs.graph_loader import graph_gen
  with tempfile.TemporaryDirectory(prefix='mc_c16_') as root:
    import os
    d = os.path.join(root, 'satlib_test')
    os.makedirs(d)
    open(os.path.join(d, 'notes.txt'), 'w').write('p cnf 0 0\n')
    for i, f in enumerate(formulas):
      with open(os.path.join(d, 'f%06d.cnf' % i), 'w') as o:
        o.write(graphs.dimacs(f, style))
    cfg = graphs.config('mis', 'satlib', '_', root, 2)
    with graphs.quiet():
      gen = graph_gen.get_graphs(cfg)
      got = list(gen.sample_gen('test'))
  if len(got) != len(formulas):
    chk.violation('%s: %d graphs for %d formulas' % (lab, len(got),
                                                     len(formulas)),
                  key='n:' + lab, replay=dict(case=lab))
    return
  for f, (g, _) in zip(formulas, got):
    n, E = objectives.sat_graph(f)
    chk.count(states=1, transitions=1, traces=1)
    ge = {tuple(sorted(map(int, e))) for e in g.edges()}
    if sorted(map(int, g.nodes())) != list(range(n)) or ge != E:
      chk.violation('%s: formula %s gives edges missing %s, extra %s, %d '
                    'vertices' % (lab, f, sorted(E - ge), sorted(ge - E),
                                  len(g)),
                    key='edges:' + lab, replay=dict(formula=f))
      return
    adj = [0] * n
    for u, v in ge:
      adj[u] |= 1 << v
      adj[v] |= 1 << u
    nv = max(abs(l) for c in f for l in c)
    a, b = mis_size(n, adj), maxsat(f, nv)
    if a != b:
      chk.violation('%s: formula %s has maximum independent set %d, satisfiable '
                    'clauses %d' % (lab, f, a, b), key='mis:' + lab,
                    replay=dict(formula=f))
      return
  chk.cover(lab, len(formulas))
  chk.sample(dict(case=lab, formulas=len(formulas), first=formulas[0]))


def chunks(chk, name, gen, size, style):
  buf = []
  k = 0
  for f in gen:
    buf.append(f)
    if len(buf) == size:
      if chk.mine() and not chk.full():
        guarded(chk, name, run, chk, '%s style %d' % (name, style), buf, style)
      buf, k = [], k + 1
  if buf and chk.mine():
    guarded(chk, name, run, chk, '%s style %d' % (name, style), buf, style)


def body(chk):
  q = chk.quick
  lits2, lits3 = (1, -1, 2, -2), (1, -1, 2, -2, 3, -3)
  c2 = list(itertools.combinations_with_replacement(lits2, 3))
  c3 = list(itertools.combinations_with_replacement(lits3, 3))
  p2 = list(itertools.product(lits2, repeat=3))
  d3 = [tuple(s * v for s, v in zip(sg, (1, 2, 3)))
        for sg in itertools.product((1, -1), repeat=3)]
  fams = [
      ('2 variables, 1 clause, all literal orders', ([c] for c in p2)),
      ('2 variables, 2 clauses', ([a, b] for a in c2 for b in c2)),
      ('2 variables, 3 clauses', ([a, b, c] for a, b, c in
                                  itertools.combinations_with_replacement(
                                      c2, 3))),
      ('3 variables, 1 clause', ([c] for c in c3)),
      ('3 variables, 2 clauses', ([a, b] for a in c3 for b in c3)),
      ('3 distinct variables, all sets of <= 4 sign patterns',
       (list(s) for r in range(1, 5) for s in itertools.combinations(d3, r))),
      ('unsatisfiable core and subsets',
       ([c for c in d3 if c != x] for x in d3)),
      ('all 8 sign patterns', (list(s) for s in (d3, d3[::-1]))),
      ('clause pairs over disjoint and shared variables of 6',
       ([(1, 2, 3), (a, b, c)] for a, b, c in itertools.product(
           (4, -4, -1, 1), (5, -5, 2, -2), (6, -6, -3, 3)))),
  ]
  if not q:
    fams.append(('3 distinct variables, all sets of sign patterns',
                 (list(s) for r in range(5, 9)
                  for s in itertools.combinations(d3, r))))
    fams.append(('2 variables, 4 clauses', ([*a] for a in
                 itertools.combinations_with_replacement(c2[::2], 4))))
    fams.append(('3 variables, 3 clauses', ([*a] for a in
                 itertools.combinations_with_replacement(c3[::2], 3))))
  chk.bounds.append('all formulas of the families: ' + '; '.join(
      f[0] for f in fams))
  for name, gen in fams:
    chunks(chk, name, gen, 400, 0)
  chunks(chk, '2 variables, 2 clauses, unused variables declared',
         ([a, b] for a in c2 for b in c2), 400, 1)


if __name__ == '__main__':
  report.run_main('C16', body, shards=(5, 8))
