"""Combinatorial objectives by definition (numpy), on nx graphs."""
import itertools
import numpy as np


def states(n, k):
  return np.array(list(itertools.product(range(k), repeat=n)), np.int32).reshape(
      -1, n)


def maxcut(g, x, **_):
  out = np.zeros(len(x))
  for u, v, w in g.edges(data='weight'):
    out += w * (x[:, u] != x[:, v])
  return out


def mis(g, x, penalty, **_):
  n = len(g)
  out = x[:, :n].sum(1).astype(float)
  for u, v in g.edges():
    out -= penalty * (x[:, u] * x[:, v])
  return out


def maxclique(g, x, penalty, **_):
  n = len(g)
  out = x[:, :n].sum(1).astype(float)
  for u, v in itertools.combinations(range(n), 2):
    if not g.has_edge(u, v):
      out -= penalty * (x[:, u] * x[:, v])
  return out


def normcut(g, x, k, penalty, tolerance=0.03, stype='span', **_):
  n = len(g)
  x = x[:, :n]
  cut = np.zeros((len(x), k))
  for u, v in g.edges():
    d = x[:, u] != x[:, v]
    for c in range(k):
      cut[:, c] += d & ((x[:, u] == c) | (x[:, v] == c))
  if penalty > 0:
    size = np.stack([(x == c).sum(1) for c in range(k)], 1)
    avg = n / k
    if stype == 'quad':
      nc = ((size - avg) ** 2).sum(1)
    else:
      tol = n * tolerance
      nc = (np.maximum(size - avg - tol, 0) ** 2
            + np.maximum(avg - tol - size, 0) ** 2).sum(1)
    return -(cut.sum(1) + penalty * nc)
  deg = dict(g.degree)
  vol = np.zeros((len(x), k))
  for v in range(n):
    for c in range(k):
      vol[:, c] += deg[v] * (x[:, v] == c)
  with np.errstate(divide='ignore', invalid='ignore'):
    r = np.where(vol > 0, cut / vol, np.inf)
  return -r.sum(1)


def optimum(problem, g):
  """True optimum by an independent method."""
  n = len(g)
  if problem == 'maxcut':
    best = 0.0
    nodes = list(range(n))
    for r in range(n + 1):
      for s in itertools.combinations(nodes, r):
        s = set(s)
        best = max(best, sum(w for u, v, w in g.edges(data='weight')
                             if (u in s) != (v in s)))
    return best
  best = 0
  for r in range(n + 1):
    for s in itertools.combinations(range(n), r):
      ok = all(g.has_edge(u, v) == (problem == 'maxclique')
               for u, v in itertools.combinations(s, 2))
      if ok:
        best = max(best, r)
  return best


def sat_graph(clauses):
  """(number of vertices, edge set) of the literal-occurrence graph."""
  E = set()
  occ = [(i, l) for i, c in enumerate(clauses) for l in c]
  for a in range(len(occ)):
    for b in range(a + 1, len(occ)):
      if occ[a][0] == occ[b][0] or occ[a][1] == -occ[b][1]:
        E.add((a, b))
  return len(occ), E
