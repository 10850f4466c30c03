"""C24: partition quality metrics equal cut ratio and balanceness."""
import contextlib
import csv
import io
import itertools
import os
import pickle
import shutil
import tempfile
import networkx as nx
import numpy as np
import scipy.sparse
from absl import flags
from discs.common import normcut_evaluator as ne
from mc import report
from mc.report import guarded

FLAGS = flags.FLAGS


def oracle(edges, part, n, k):
  cut = sum(part[a] != part[b] for a, b in edges)
  sizes = [sum(p == c for p in part) for c in range(k)]
  cross = sum(sizes[a] * sizes[b] for a in range(k) for b in range(k) if a != b)
  return cut / len(edges), cross * k / ((k - 1) * n * n)


def simple_graphs(n):
  pairs = list(itertools.combinations(range(n), 2))
  for m in range(1, 1 << len(pairs)):
    yield [e for i, e in enumerate(pairs) if m >> i & 1]


def direct(chk, n, k, edges):
  """All partitions of one graph through evaluate(), dense and sparse."""
  dense = np.zeros((n, n))
  for a, b in edges:
    dense[a, b] = dense[b, a] = 1.0
  sparse = scipy.sparse.csr_matrix(dense)
  for part in itertools.product(range(k), repeat=n):
    want = oracle(edges, part, n, k)
    for mat, sp in ((dense, False), (sparse, True)):
      got = ne.evaluate(np.array(part), n, 2 * len(edges), mat, k, sparse=sp)
      chk.count(states=1, transitions=1, traces=1)
      if not np.allclose(got[:2], want, atol=1e-9):
        chk.violation(
            '%s adjacency, edges %s, partition %s of %d parts: cut ratio and '
            'balanceness reported (%.6f, %.6f), should be (%.6f, %.6f)' % (
                'sparse' if sp else 'dense', edges, part, k, got[0], got[1],
                want[0], want[1]), key='eval:%d:%d' % (n, k),
            replay=dict(edges=edges, partition=part, parts=k, sparse=sp))
        return
  chk.cover('evaluate %d nodes %d parts' % (n, k), k ** n)


def run_main(graph, samples, names):
  """The post-processing script on a scratch folder; its csv rows."""
  top = tempfile.mkdtemp(prefix='c24_')
  cwd = os.getcwd()
  try:
    gf = os.path.join(top, 'g.pkl')
    with open(gf, 'wb') as f:
      pickle.dump(graph, f)
    res = os.path.join(top, 'runs_1')
    for i, (s, nm) in enumerate(zip(samples, names)):
      d = os.path.join(res, "%04d_config.seed=%d,sampler_config.name='%s'" % (
          i + 1, i, nm))
      os.makedirs(d)
      with open(os.path.join(d, 'results.pkl'), 'wb') as f:
        pickle.dump({'best_samples': np.array([s], dtype=np.float32),
                     'best_ratio': np.zeros(1)}, f)
    if not FLAGS.is_parsed():
      FLAGS(['c24'])
    FLAGS.graph_file = gf
    FLAGS.gcs_results_path = res
    os.chdir(top)
    with contextlib.redirect_stdout(io.StringIO()):
      ne.main(['c24'])
    found = []
    for d, _, fs in os.walk(os.path.join(top, 'discs')):
      found += [os.path.join(d, f) for f in fs]
    assert len(found) == 1, 'csv files written: %s' % found
    with open(found[0], newline='') as f:
      return list(csv.reader(f))
  finally:
    os.chdir(cwd)
    shutil.rmtree(top)


NAMES = ('gwg', 'dmala', 'dlmc', 'gibbs')


def script(chk, n, edges, order, weights, parts, k=3):
  g = nx.Graph()
  g.add_nodes_from(order)
  for i, (a, b) in enumerate(edges):
    if weights is None:
      g.add_edge(a, b)
    else:
      g.add_edge(a, b, weight=weights[i % len(weights)])
  names = [NAMES[i % len(NAMES)] for i in range(len(parts))]
  rows = run_main(g, parts, names)
  chk.count(states=len(parts), transitions=1, traces=1)
  lab = 'edges %s, nodes stored in order %s, weights %s' % (edges, order, weights)
  if len(rows) != len(parts) + 1:
    chk.violation('%s: %d rows for %d runs' % (lab, len(rows) - 1, len(parts)),
                  key='rows', replay=dict(edges=edges))
    return
  for row, part, nm in zip(rows[1:], parts, names):
    want = oracle(edges, part, n, k)
    got = (float(row[1]), float(row[2]))
    if row[0] != nm or not np.allclose(got, want, atol=1e-6):
      chk.violation(
          '%s: the script reports %s for the run of %s with partition %s, '
          'should be (%.6f, %.6f)' % (lab, row, nm, part, want[0], want[1]),
          key='script', replay=dict(edges=edges, order=order, weights=weights,
                                    partition=part))
      return
  chk.cover('script %d nodes' % n, len(parts))


def script_all(chk, n, edges, orders, weights):
  parts = list(itertools.product(range(3), repeat=n))
  for o in orders:
    for w in weights:
      if chk.violations:
        return
      script(chk, n, edges, list(o), w, parts)


def body(chk):
  q = chk.quick
  chk.bounds.append(
      'evaluate(): all labelled graphs with 2..%d nodes and at least one edge, '
      'all assignments to 2..4 parts (empty parts included), dense and sparse; '
      'script: all graphs with 2..%d nodes, all orders in which nodes may be '
      'stored, unit and non-unit edge weights, all assignments to its 3 parts' %
      (4 if q else 5, 3 if q else 4))
  jobs = []
  for n in range(2, (4 if q else 5) + 1):
    for k in (2, 3, 4):
      if n == 5 and k == 4:
        continue
      for e in simple_graphs(n):
        jobs.append((direct, n, k, e))
  for n in range(2, (3 if q else 4) + 1):
    for e in simple_graphs(n):
      jobs.append((script_all, n, e, list(itertools.permutations(range(n))),
                   [None, (2.0, 1.0, 0.5)]))
  if q:
    e = [(0, 1), (0, 2), (2, 3)]
    jobs.append((script_all, 4, e, list(itertools.permutations(range(4))),
                 [None]))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:3]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C24', body, shards=(6, 8))
