"""C15: every dataset instance is processed exactly once, in full batches."""
import jax
PROC = [0, 1]
jax.process_index = lambda *a, **k: PROC[0]
jax.process_count = lambda *a, **k: PROC[1]
from mc import engine
engine.install()
import importlib
import tempfile
import jax.numpy as jnp
import numpy as np
from mc import graphs, objectives, report
from mc.report import guarded

NN = 4


def dataset(problem, gtype, size, rot):
  """Distinct graphs (the largest at position rot) with distinct references."""
  if gtype == 'satlib':
    cl = [(1, 2, 3), (-1, 2, 3), (-1, -2, 3), (1, -2, -3), (-1, -2, -3),
          (2, 2, 1), (-1, 1, 2)]
    out = []
    for i in range(size):
      f = [cl[(i + j) % 7] for j in range(1 + (i == rot))]
      out.append(f)
    return [(f, 1.0) for f in out]
  shapes = [(2, [(0, 1)]), (3, [(0, 1), (1, 2)]), (3, [(0, 2), (1, 2)]),
            (4, [(0, 1), (2, 3)]), (4, [(0, 3), (1, 2), (2, 3)]),
            (3, [(0, 1), (0, 2), (1, 2)]), (4, [(0, 2), (1, 3)])]
  big = (4, [(0, 1), (0, 2), (0, 3), (1, 2), (2, 3)])
  out = []
  for i in range(size):
    n, e = big if i == rot else shapes[i]
    if problem == 'normcut':
      n = 4
    g = graphs.make(n, e, 10 * rot + i, False)
    if problem == 'maxcut':
      for u, v in g.edges():
        g[u][v]['weight'] = float(1 + i)
    out.append((g, 1 + (3 * i + 2) % 7 if gtype != 'ertest' else
                1 + (3 * i + 2) % n))
  return out


MODEL = {}


def fingerprint(problem, gtype, cs):
  """params -> objective of every assignment, with one model per type."""
  key = (problem, gtype)
  if key not in MODEL:
    items = dataset(problem, gtype, 2, 1)
    with tempfile.TemporaryDirectory(prefix='mc_c15_') as root:
      graphs.write(root, problem, gtype, cs, items)
      sizes = None if gtype != 'gap_rand' else (4, 5, 2)
      cfg = graphs.config(problem, gtype, cs, root, 2, sizes)
      mod = importlib.import_module('discs.models.' + problem)
      with graphs.quiet():
        model = mod.build_model(cfg)
    N, k = int(cfg.model.max_num_nodes), int(cfg.model.num_categories)
    xs = objectives.states(N, k)
    xj = jnp.asarray(xs)
    fn = jax.jit(lambda p: model.evaluate(dict(p, temperature=jnp.float32(1)),
                                          xj))
    okw = dict(penalty=cfg.model.get('penalty', 2.0), k=k,
               tolerance=cfg.model.get('tolerance', 0),
               stype=cfg.model.get('stype', 'span'))
    MODEL[key] = (fn, xs, okw)
  return MODEL[key]


def layout(p):
  leaves, tree = jax.tree_util.tree_flatten(p)
  return tree, [(np.shape(l), np.asarray(l).dtype.kind) for l in leaves]


def check(chk, problem, gtype, cs, size, rot, batches, procs, auto):
  from discs.graph_loader import graph_gen
  items = dataset(problem, gtype, size, rot)
  lab = '%s/%s %d instances (largest at %d)' % (problem, gtype, size, rot)
  gs = [graphs.make(*_sat(f)) if gtype == 'satlib' else f for f, _ in items]
  refs = [graphs.references(gtype) or s for _, s in items]
  if gtype == 'nets':
    gs, refs = gs[:1], refs[:1]
  mn, me = max(len(g) for g in gs), max(len(g.edges()) for g in gs)
  fn, xs, okw = fingerprint(problem, gtype, cs)
  want = [getattr(objectives, problem)(g, xs, **okw) for g in gs]

  def bad(what, key):
    chk.violation('%s: %s' % (lab, what), key='%s:%s' % (key, lab),
                  replay=dict(case=lab))

  with tempfile.TemporaryDirectory(prefix='mc_c15_') as root:
    for split in (1, 2, 3):
      sub = '%s/%d' % (root, split)
      if split > 1 and gtype not in ('ba', 'er', 'rb', 'twitter'):
        continue
      graphs.write(sub, problem, gtype, cs, items, split)
      sizes = None if auto else (mn, me, len(gs))
      cfg = graphs.config(problem, gtype, cs, sub, 2, sizes)
      with graphs.quiet():
        gen = graph_gen.get_graphs(cfg)
      got = (gen.max_num_nodes, gen.max_num_edges, gen.num_instances)
      chk.count(states=1)
      if tuple(int(v) for v in got) != (mn, me, len(gs)):
        return bad('advertised nodes/edges/instances %s, data has %s' % (
            got, (mn, me, len(gs))), 'max')
      for bs in batches:
        for P in procs:
          if bs % P:
            continue
          per = []
          for pi in range(P):
            PROC[:] = [pi, P]
            try:
              with graphs.quiet():
                per.append([list(b) for b in gen.get_iterator(
                    'test', bs, P > 1)])
            finally:
              PROC[:] = [0, 1]
          chk.count(transitions=sum(map(len, per)), traces=1, states=1)
          what = 'batch %d, %d workers, %d files' % (bs, P, split)
          nb = -(-len(gs) // bs)
          if [len(b) for b in per] != [nb] * P:
            return bad('%s: batches per worker %s, expected %d' % (
                what, [len(b) for b in per], nb), 'nb')
          flat = [e for b in per for y in b for e in y]
          if any(len(y) != bs // P for b in per for y in b):
            return bad('%s: batch sizes %s' % (what, [
                [len(y) for y in b] for b in per]), 'bs')
          idx = sorted(int(e[0]) for e in flat if int(e[0]) != -1)
          if idx != list(range(len(gs))):
            return bad('%s: instances yielded %s' % (what, idx), 'idx')
          lays = [layout(e[1]) for e in flat]
          if any(l != lays[0] for l in lays):
            i = [l == lays[0] for l in lays].index(False)
            return bad('%s: entry with index %d has a different parameter '
                       'layout: %s vs %s' % (what, flat[i][0], lays[i],
                                             lays[0]), 'lay')
          for e in flat:
            i = int(e[0])
            if i < 0:
              if P == 1 and bs == max(batches):
                v = np.asarray(fn(e[1]))
                if np.isnan(v).any() or np.isnan(np.float64(e[2])):
                  return bad('%s: placeholder has objective %s' % (what, v),
                             'dummy')
              continue
            if abs(float(e[2]) - refs[i]) > 1e-6:
              return bad('%s: instance %d has reference %s, stored %s' % (
                  what, i, e[2], refs[i]), 'ref')
            v = np.asarray(fn(e[1]), np.float64)
            fin = np.isfinite(want[i])
            if not (np.abs(v - want[i])[fin] <= 1e-3 * (
                1 + np.abs(want[i][fin]))).all():
              return bad('%s: index %d carries another graph' % (what, i),
                         'graph')
  chk.cover('%s/%s' % (problem, gtype), 1)
  chk.sample(dict(case=lab))


def _sat(f):
  n, E = objectives.sat_graph(f)
  return n, sorted(E), 0


def body(chk):
  q = chk.quick
  sizes = (1, 2, 3, 4, 5, 7) if q else (1, 2, 3, 4, 5, 6, 7)
  batches = (1, 2, 3, 4, 6) if q else (1, 2, 3, 4, 5, 6, 8, 9)
  procs = (1, 2, 3) if q else (1, 2, 3, 4)
  chk.bounds.append('dataset sizes %s, batch sizes %s, workers %s, 1..3 files, '
                    'every loader' % (sizes, batches, procs))
  for problem, gtype, cs in graphs.TYPES:
    for size in sizes:
      if gtype == 'nets' and size > 1:
        continue
      for rot in sorted({0, size - 1, size // 2} if not q else {0, size - 1}):
        autos = [False] if gtype == 'gap_rand' else [True]
        if gtype not in ('gap_rand', 'optsicom', 'er_density', 'nets'):
          autos.append(False)
        for auto in autos:
          if chk.mine() and not chk.full():
            guarded(chk, '%s/%s size %d' % (problem, gtype, size), check, chk,
                    problem, gtype, cs, size, rot, batches, procs, auto)


if __name__ == '__main__':
  report.run_main('C15', body, shards=(7, 8))
