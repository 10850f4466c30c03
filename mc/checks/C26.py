"""C26: initial samples are valid, correctly distributed, cover all parts."""
from mc import engine
engine.install()
import importlib
import itertools
import os
import pickle
import shutil
import tempfile
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
from mc import graphs
from mc import law
from mc import report
from mc.report import guarded

KEY = jnp.asarray(engine.KEY)


def draw(chk, lab, model, S, shape, n):
  """Joint law of S initial samples: (codes sorted by outcome, tolerance)."""
  fn = lambda: model.get_init_samples(KEY, S)
  with graphs.quiet():
    try:
      out, pr, tol = law.worlds(fn)
    except law.TooMany:
      chk.notes.append('%s: skipped, too many continuous draws' % lab)
      return None
  x = np.asarray(out)
  rep = dict(case=lab)
  chk.count(states=len(pr), transitions=len(pr), traces=len(pr))
  if x.shape[1:] != (S,) + tuple(shape):
    chk.violation('%s: initial samples have shape %s, should be %s' % (
        lab, x.shape[1:], (S,) + tuple(shape)), key='shape:' + lab, replay=rep)
    return None
  if not (np.issubdtype(x.dtype, np.integer)):
    chk.violation('%s: initial samples are of type %s' % (lab, x.dtype),
                  key='dtype:' + lab, replay=rep)
    return None
  pos = pr > 1e-12
  if x[pos].size and (x[pos].min() < 0 or x[pos].max() >= n):
    chk.violation('%s: initial sample %s outside 0..%d' % (
        lab, x[pos][np.argmax((x[pos] >= n).reshape(pos.sum(), -1).any(1))]
        .tolist(), n - 1), key='range:' + lab, replay=rep)
    return None
  d = int(np.prod((S,) + tuple(shape)))
  flat = np.clip(x.reshape(len(pr), d), 0, n - 1)
  code = flat @ (n ** np.arange(d))
  table = np.bincount(code, pr, minlength=n ** d)
  return table, flat, tol


def independent(chk, lab, make, S, shape, n, probs):
  """probs: [prod(shape), n] marginal of every entry."""
  model = make()
  got = draw(chk, lab, model, S, shape, n)
  if got is None:
    return
  table, _, tol = got
  probs = np.asarray(probs, np.float64)
  want = np.ones(1)
  for _ in range(S):
    for p in probs:
      want = np.outer(p, want).reshape(-1)
  if np.abs(table - want).max() > tol * max(1.0, want.max()) * 1.0 or (
      tol < 1e-3 and np.abs(table - want).max() > 1e-4 * want.max() + 1e-9):
    i = int(np.argmax(np.abs(table - want)))
    d = S * len(probs)
    chk.violation('%s: %d initial samples equal %s with probability %.6f, '
                  'should be %.6f' % (
                      lab, S, ((i // n ** np.arange(d)) % n).reshape(
                          (S,) + tuple(shape)).tolist(), table[i], want[i]),
                  key='law:' + lab, replay=dict(case=lab))
    return
  chk.cover(lab.split()[0])


def covering(chk, lab, make, S, nodes, k):
  model = make()
  got = draw(chk, lab, model, S, (nodes,), k)
  if got is None:
    return
  table, _, _ = got
  d = S * nodes
  idx = np.arange(k ** d)
  x = (idx[:, None] // k ** np.arange(d)) % k
  x = x.reshape(-1, S, nodes)
  ok = np.ones(len(x), bool)
  for c in range(k):
    ok &= (x == c).any(-1).all(-1)
  bad = ~ok & (table > 1e-12)
  if bad.any():
    chk.violation('%s: initial sample %s leaves a part empty' % (
        lab, x[np.argmax(bad)].tolist()), key='cover:' + lab,
        replay=dict(case=lab))
    return
  miss = ok & (table <= 0)
  if miss.any():
    chk.violation('%s: initial sample %s can never occur' % (
        lab, x[np.argmax(miss)].tolist()), key='support:' + lab,
        replay=dict(case=lab))
    return
  if S > 1:
    # samples are independent: joint = product of marginals
    t = table.reshape((k ** nodes,) * S)
    m = [t.sum(tuple(a for a in range(S) if a != i)) for i in range(S)]
    prod = m[0]
    for v in m[1:]:
      prod = np.multiply.outer(prod, v)
    if np.abs(prod - t).max() > 1e-5 or np.abs(m[0] - m[-1]).max() > 1e-5:
      chk.violation('%s: initial samples of different chains are dependent' %
                    lab, key='dep:' + lab, replay=dict(case=lab))
      return
  chk.cover('normcut')


def classical(name, **kw):
  def make():
    mod = importlib.import_module('discs.models.' + name)
    cfg = importlib.import_module('discs.models.configs.%s_config' % name
                                  ).get_config()
    with cfg.unlocked():
      for k, v in kw.items():
        cfg[k] = v
    return mod.build_model(ml_collections.ConfigDict(dict(model=cfg)))
  return make


def deep(name, nv, n, mean, stored):
  """RBM / image model; data mean from the config, a file, or absent."""
  def make():
    mod = importlib.import_module('discs.models.' + name)
    base = dict(name=name, num_categories=n, shape=(nv,))
    if name == 'rbm':
      base.update(num_visible=nv, num_hidden=2)
    else:
      base.update(image_shape=(1, nv, 1), n_channels=2)
    if mean is None:
      return mod.build_model(ml_collections.ConfigDict(dict(model=base)))
    if not stored:
      base['data_mean'] = np.asarray(mean, np.float32)
      return mod.build_model(ml_collections.ConfigDict(dict(model=base)))
    top = tempfile.mkdtemp(prefix='c26_')
    try:
      pickle.dump({'params': {'data_mean': np.asarray(mean, np.float32),
                              'w': np.zeros((nv, 2), np.float32)}},
                  open(os.path.join(top, 'params.pkl'), 'wb'))
      saved = ml_collections.ConfigDict(dict(model=base))
      with open(os.path.join(top, 'config.yaml'), 'w') as f:
        f.write(saved.to_yaml())
      user = importlib.import_module('discs.models.configs.%s_config' % name
                                     ).get_config()
      with user.unlocked():
        user.data_path = top
        user.num_categories = n
      return mod.build_model(ml_collections.ConfigDict(dict(model=user)))
    finally:
      shutil.rmtree(top)
  return make


def comb(problem, gtype, cfg_str, nodes, parts=None):
  def make():
    top = tempfile.mkdtemp(prefix='c26_')
    try:
      if gtype == 'satlib':
        items = [([[1, -2]], 1)]
      else:
        edges = [(i, (i + 1) % nodes) for i in range(nodes)]
        items = [(graphs.make(nodes, edges), 1) for _ in range(2)]
      with graphs.quiet():
        graphs.write(top, problem, gtype, cfg_str, items)
        kw = dict(num_categories=parts, shape=(0, parts)) if parts else {}
        cfg = graphs.config(problem, gtype, cfg_str, top, num_models=2,
                            sizes=(nodes, 4 * nodes, 2), **kw)
        mod = importlib.import_module('discs.models.' + problem)
        model = mod.build_model(cfg)
      make.shape = int(model.max_num_nodes if hasattr(model, 'max_num_nodes')
                       else cfg.model.max_num_nodes)
      return model
    finally:
      shutil.rmtree(top)
  return make


def co_binary(chk, lab, problem, gtype, cfg_str, S, nodes):
  mk = comb(problem, gtype, cfg_str, nodes)
  model = mk()
  d = mk.shape
  independent(chk, lab, lambda: model, S, (d,), 2, np.full((d, 2), 0.5))


def body(chk):
  q = chk.quick
  big = 4096 if q else 70000
  jobs = []
  U = lambda d, n: np.full((d, n), 1.0 / n)

  def add(lab, mk, S, shape, n, probs, extra=1):
    if n ** (S * int(np.prod(shape))) * extra <= big:
      jobs.append((independent, '%s S=%d shape=%s n=%d' % (lab, S, shape, n),
                   mk, S, shape, n, probs))

  for S in (1, 2, 3):
    for d in (1, 2, 3, 4):
      add('bernoulli', classical('bernoulli', shape=(d,)), S, (d,), 2, U(d, 2))
    for sh in ((1, 2), (2, 2), (2, 3), (3, 2)):
      d = sh[0] * sh[1]
      add('ising', classical('ising', shape=sh), S, sh, 2, U(d, 2))
      add('fhmm', classical('fhmm', shape=sh, num_categories=2), S, sh, 2,
          U(d, 2))
      for n in (3, 4):
        add('potts', classical('potts', shape=sh, num_categories=n), S, sh, n,
            U(d, n))
        add('fhmm', classical('fhmm', shape=sh, num_categories=n), S, sh, n,
            U(d, n))
    for n in (3, 4, 5):
      for d in (1, 2, 3):
        add('categorical', classical('categorical', shape=(d,),
                                     num_categories=n), S, (d,), n, U(d, n))
    # models learned from data start at the data mean
    m2 = [0.2, 0.7, 0.95, 0.5]
    for nv in (2, 3, 4):
      pm = np.stack([1 - np.array(m2[:nv]), m2[:nv]], 1)
      for name in ('rbm', 'resnet'):
        add(name, deep(name, nv, 2, None, False), S, (nv,), 2, U(nv, 2))
        if name == 'resnet':
          add(name + ' data_mean', deep(name, nv, 2, m2[:nv], False), S, (nv,),
              2, pm)
        add(name + ' stored', deep(name, nv, 2, m2[:nv], True), S, (nv,), 2,
            pm)
    m3 = np.array([[.2, .5, .3], [.6, .1, .3], [.25, .25, .5]])
    for nv in (2, 3):
      add('rbm', deep('rbm', nv, 3, None, False), S, (nv,), 3, U(nv, 3))
      add('rbm stored', deep('rbm', nv, 3, m3[:nv], True), S, (nv,), 3, m3[:nv])
  for problem, gtype, cfg_str in graphs.TYPES:
    if problem == 'normcut':
      continue
    for S, nodes in ((1, 3), (2, 4), (3, 3)):
      jobs.append((co_binary, '%s/%s S=%d' % (problem, gtype, S), problem,
                   gtype, cfg_str, S, nodes))
  for gtype, cfg_str in (('nets', 'r-MINI'), ('gap_rand', '_')):
    for S, nodes, k in ((1, 3, 3), (1, 4, 3), (1, 5, 3), (1, 3, 2), (1, 4, 2),
                        (1, 5, 4), (2, 3, 2), (2, 3, 3), (1, 2, 2), (3, 2, 2)):
      jobs.append((covering, 'normcut/%s S=%d nodes=%d parts=%d' % (
          gtype, S, nodes, k), comb('normcut', gtype, cfg_str, nodes, k), S,
                   nodes, k))
  chk.bounds.append('every model; shapes up to 6 entries, 1..3 samples, 2..5 '
                    'categories, joint outcome space up to %d; graph '
                    'partitioning with up to 5 nodes and 4 parts' % big)
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, j[1], j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C26', body, shards=(6, 8))
