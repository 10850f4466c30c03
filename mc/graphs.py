"""Dataset files in the formats the loaders read, and assembled configs."""
import importlib
import io
import itertools
import os
import contextlib
import pickle

import ml_collections
import networkx as nx
import numpy as np

# problem, graph type, cfg_str
TYPES = [('maxcut', 'ba', 'r-ba-4-n-16-20'), ('maxcut', 'er', 'r-0.15-n-16-20'),
         ('maxcut', 'optsicom', 'r-b'), ('mis', 'ertest', 'r-mini'),
         ('mis', 'er_density', 'r-0.10'), ('mis', 'satlib', '_'),
         ('maxclique', 'rb', '_'), ('maxclique', 'twitter', '_'),
         ('normcut', 'nets', 'r-MINI'), ('normcut', 'gap_rand', '_')]


def rand_type(cfg_str):
  return cfg_str[2:] if cfg_str.startswith('r-') else ''


def write(root, problem, gtype, cfg_str, items, split=2):
  """Stores items [(graph or clauses, reference)] as that dataset."""
  r = rand_type(cfg_str)

  def put(path, obj, mode='wb'):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, mode) as f:
      if mode == 'wb':
        for o in obj:
          pickle.dump(o, f)
      else:
        f.write(obj)

  if gtype in ('ba', 'er'):
    d = os.path.join(root, 'maxcut-' + gtype, 'maxcut-' + r)
    k = (len(items) + split - 1) // split
    for i in range(split):
      put(os.path.join(d, 'test-%d.pkl' % i),
          [(g, (s, 'x')) for g, s in items[i * k:(i + 1) * k]])
    put(os.path.join(d, 'train-0.pkl'), [('junk', (0,))])
  elif gtype == 'optsicom':
    put(os.path.join(root, 'optsicom', 'b.pkl'), [(g, (s,)) for g, s in items])
  elif gtype == 'ertest':
    d = os.path.join(root, 'er_%s_test' % r)
    for i, (g, s) in enumerate(items):
      g = g.copy()
      for j, v in enumerate(g.nodes):
        g.nodes[v]['label'] = int(j < s)
      put(os.path.join(d, 'ER%04d.gpickle' % i), [g])
    put(os.path.join(d, 'README'), 'not a graph', 'w')
  elif gtype == 'er_density':
    put(os.path.join(root, 'er_700_800', 'ER-700-800-%s.pkl' % r),
        [[g for g, _ in items]])
  elif gtype == 'satlib':
    for i, (cl, _) in enumerate(items):
      put(os.path.join(root, 'satlib_test', 'f%05d.cnf' % i), dimacs(cl, i % 2),
          'w')
  elif gtype == 'rb':
    k = (len(items) + split - 1) // split
    for i in range(split):
      put(os.path.join(root, 'RB_test', 'RB%d.pkl' % i),
          [[(s, g) for g, s in items[i * k:(i + 1) * k]]])
  elif gtype == 'twitter':
    k = (len(items) + split - 1) // split
    for i in range(split):
      part = items[i * k:(i + 1) * k]
      put(os.path.join(root, 'twitter', 'twitter%d.pkl' % i),
          [[[g for g, _ in part], [s for _, s in part]]])
  elif gtype == 'nets':
    put(os.path.join(root, 'nets', r + '.pkl'), [items[0][0]])
  elif gtype == 'gap_rand':
    for i, (g, _) in enumerate(items):
      put(os.path.join(root, 'gap_rand', 'test-1000', 'g%04d.pkl' % i), [g])
  else:
    raise ValueError(gtype)


def dimacs(clauses, style=0):
  nv = max([abs(l) for c in clauses for l in c] + [1])
  head = 'c comment\np cnf %d %d\n' % (nv + style, len(clauses))
  body = ''.join(' '.join(map(str, c)) + ' 0\n' for c in clauses)
  return head + body


def references(gtype):
  """How the reference value of an instance is stored / defaulted."""
  return {'er_density': 1, 'satlib': 1.0, 'nets': 1.0, 'gap_rand': 1.0}.get(
      gtype)


def config(problem, gtype, cfg_str, root, num_models=2, sizes=None, **model_kw):
  """The merged configuration main_sampling assembles (sizes reduced)."""
  common = importlib.import_module('discs.common.configs')
  cfg = common.get_config()
  mc = importlib.import_module(
      'discs.models.configs.%s_config' % problem).get_config()
  mc.graph_type, mc.cfg_str, mc.data_root = gtype, cfg_str, root
  cfg.model.update(mc)
  g = importlib.import_module('discs.models.configs.%s.%s' % (problem, gtype))
  cfg.model.update(g.get_model_config(cfg.model['cfg_str']))
  co = importlib.import_module('discs.experiment.configs.co_experiment')
  cfg.experiment.update(co.get_co_default_config())
  cfg.update(importlib.import_module('discs.experiment.configs.%s.%s' % (
      problem, gtype)).get_config())
  with cfg.unlocked():
    cfg.model.num_models = num_models
    nn, ne, ni = sizes or (0, 0, 0)
    cfg.model.max_num_nodes, cfg.model.max_num_edges = nn, ne
    cfg.model.num_instances = ni
    for k, v in model_kw.items():
      cfg.model[k] = v
  cfg.experiment.num_models = num_models
  return cfg


@contextlib.contextmanager
def quiet():
  with contextlib.redirect_stdout(io.StringIO()):
    yield


def labelled(n):
  """All labelled graphs on nodes 0..n-1."""
  pairs = list(itertools.combinations(range(n), 2))
  for bits in itertools.product((0, 1), repeat=len(pairs)):
    yield n, [p for p, b in zip(pairs, bits) if b]


def make(n, edges, k=0, weighted=False):
  """nx graph; k varies node insertion order, edge direction and order."""
  rs = np.random.RandomState(1000 + k)
  g = nx.Graph()
  order = list(range(n))
  if k % 2:
    rs.shuffle(order)
  g.add_nodes_from(order)
  es = list(edges)
  if k % 3:
    rs.shuffle(es)
  for e in es:
    u, v = (e[1], e[0]) if rs.randint(2) else (e[0], e[1])
    if weighted:
      g.add_edge(int(u), int(v), weight=float(rs.choice(
          [1.0, -1.0, 2.0, 0.5, 3.25])))
    else:
      g.add_edge(int(u), int(v))
  return g
