"""C28: the replay buffer never loses, mixes up or invents samples."""
import itertools
import math
import ml_collections
import numpy as np
from mc import report
from mc.report import guarded


class Draws:
  """All numpy.random calls of the buffer, driven by a depth-first script.

  Uniform draws select between 'low' (event happens) and 'high'; draws whose
  trailing shape is a data row are the fresh rows and follow `rows`.
  """

  def __init__(self):
    self.prefix, self.pos, self.sizes = [], 0, []
    self.row_shape = None
    self.row_u = None       # fixed uniforms for fresh rows, or None: pattern
    self.free = False       # do not branch: events never happen
    self.fresh = 0

  def pick(self, n):
    if self.free or n <= 1:
      return 0
    i = self.pos
    self.pos += 1
    if i == len(self.prefix):
      self.prefix.append(0)
    self.sizes[i:] = [n]
    return self.prefix[i]

  def next(self):
    while self.prefix:
      if self.prefix[-1] + 1 < self.sizes[len(self.prefix) - 1]:
        self.prefix[-1] += 1
        return True
      self.prefix.pop()
    return False

  def restart(self):
    self.pos, self.sizes, self.fresh = 0, [], 0

  def uniform(self, size):
    size = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    r = self.row_shape
    if len(size) == len(r) + 1 and size[1:] == r:
      if self.row_u is not None:
        return np.broadcast_to(self.row_u, size).copy()
      u = np.empty(size)
      for i in range(size[0]):
        self.fresh += 1
        bits = [(self.fresh >> k) & 1 for k in range(math.prod(r))]
        u[i] = np.where(np.array(bits).reshape(r), 0.0, 0.999999)
      return u
    u = np.full(size, 0.999999)
    if not self.free:
      f = u.reshape(-1)
      for i in range(f.size):
        f[i] = (0.999999, 0.0)[self.pick(2)]
    return u


D = Draws()


def binomial(n, p, size=None):
  assert n == 1
  size = np.shape(p) if size is None else size
  return (D.uniform(size) < p).astype(np.int64)


def rand(*size):
  return D.uniform(size)


def random(size=None):
  return D.uniform(() if size is None else size)


def uniform(low=0.0, high=1.0, size=None):
  return low + (high - low) * D.uniform(() if size is None else size)


def _take(pool, n):
  sel = list(itertools.combinations(range(len(pool)), n))
  k = D.pick(2 * len(sel) if n > 1 else len(sel))
  out = [pool[i] for i in sel[k % len(sel)]]
  return out[::-1] if k >= len(sel) else out


def choice(a, size=None, replace=True, p=None):
  pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
  n = 1 if size is None else int(np.prod(size))
  if replace:
    out = [pool[D.pick(len(pool))] for _ in range(n)]
  else:
    if n > len(pool):
      raise ValueError('Cannot take a larger sample than population when '
                       'replace is False')
    out = _take(pool, n)
  return out[0] if size is None else np.array(out)


def permutation(x):
  pool = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
  sel = list(itertools.permutations(range(len(pool))))
  return np.array([pool[i] for i in sel[D.pick(len(sel))]])


def randint(low, high=None, size=None, dtype=int):
  low, high = (0, low) if high is None else (low, high)
  n = 1 if size is None else int(np.prod(size))
  out = np.array([low + D.pick(high - low) for _ in range(n)])
  return int(out[0]) if size is None else out.reshape(size)


for _n in ('binomial', 'rand', 'random', 'uniform', 'choice', 'permutation',
           'randint'):
  setattr(np.random, _n, globals()[_n])
np.random.random_sample = random

from discs.learning import replay_buffer  # pylint: disable=g-import-not-at-top


def make(n, shape, freq=0.3, mean=None):
  D.row_shape = shape
  x = np.zeros((4,) + shape)
  if mean is None:
    x[:2] = 1
  else:
    x = np.stack([(np.arange(20).reshape((20,) + (1,) * len(shape))
                   < 20 * np.asarray(mean))]).reshape((20,) + shape) * 1.0
  cfg = ml_collections.ConfigDict(dict(
      experiment=dict(buffer_size=n, buffer_init='mean', reinit_freq=freq),
      model=dict(num_categories=2)))
  return replay_buffer.ReplayBuffer(cfg, x)


def content(b, n):
  """The rows of the buffer, observed by drawing all of them."""
  D.free = True
  try:
    x, inds = b.sample(n)
  finally:
    D.free = False
  x = np.asarray(x)
  inds = [int(i) for i in inds]
  if sorted(inds) != list(range(n)):
    return None, inds
  out = [None] * n
  for i, r in zip(inds, x):
    out[i] = tuple(r.reshape(-1).tolist())
  return out, inds


def history(chk, n, shape, word, freq, blank=False):
  """blank: the rows written back are all-zero images."""
  lab = 'rows=%d shape=%s reinit=%g history=%s%s' % (
      n, shape, freq, word, ' of blank rows' if blank else '')
  d = math.prod(shape)
  D.prefix = []
  runs = 0
  reached = [set() for _ in word]
  while True:
    D.restart()
    b = make(n, shape, freq)
    tok = 100
    model = []
    for i in range(n):
      model.append(tuple(tok + k for k in range(d)))
      tok += d
    b.update(np.array(model).reshape((n,) + shape), list(range(n)))
    drawn = []
    why = None
    for step, op in enumerate(word):
      if op[0] == 'draw':
        x, inds = b.sample(op[1])
        x, ii = np.asarray(x), [int(i) for i in inds]
        reached[step] |= set(ii)
        if x.shape != (op[1],) + shape or len(ii) != op[1]:
          why = 'a draw of %d rows returns shape %s' % (op[1], x.shape)
        elif len(set(ii)) != op[1] or min(ii) < 0 or max(ii) >= n:
          why = 'rows %s drawn' % ii
        else:
          for r, i in zip(x, ii):
            t = tuple(r.reshape(-1).tolist())
            if t != model[i] and not (set(t) <= {0, 1}):
              why = 'row %d handed out as %s, the buffer holds %s' % (
                  i, t, model[i])
        drawn.append(inds)
        # what the caller does with its rows must not reach the buffer
        x[...] = -7
      elif op[1] < len(drawn):
        inds = drawn[-1 - op[1]]
        new = np.arange(len(inds) * d) + tok
        if blank:
          new = new * 0
        tok += len(inds) * d
        for r, i in zip(new.reshape(len(inds), d), inds):
          model[int(i)] = tuple(r.tolist())
        b.update(new.reshape((len(inds),) + shape), inds)
      if why is None:
        rows, inds = content(b, n)
        runs += 1
        if rows is None:
          why = 'drawing all %d rows returns rows %s' % (n, inds)
        elif rows != model:
          why = 'the buffer holds %s, should hold %s' % (rows, model)
      if why:
        chk.violation('%s: after %s: %s' % (lab, word[:step + 1], why),
                      key='hist:' + lab,
                      replay=dict(case=lab, script=list(D.prefix)))
        return
    if not D.next():
      break
  for s, (op, r) in enumerate(zip(word, reached)):
    if op[0] == 'draw' and r != set(range(n)):
      chk.violation('%s: draw %d can only return rows %s' % (lab, s, sorted(r)),
                    key='reach:' + lab, replay=dict(case=lab))
      return
  chk.count(states=runs, transitions=runs, traces=runs)
  chk.cover('histories')


def initial(chk, shape, mean):
  """Fresh rows are Bernoulli around the data mean, entry by entry."""
  mean = np.asarray(mean, float).reshape(shape)
  lab = 'initial rows mean=%s' % mean.tolist()
  p = mean * 0.98 + 0.01
  got = []
  for eps in (-1e-6, 1e-6):
    D.prefix = []
    D.restart()
    D.row_shape = shape
    D.row_u = p + eps
    try:
      b = make(2, shape, 0.3, mean)
      rows, _ = content(b, 2)
    finally:
      D.row_u = None
    got.append(rows)
  if got[0] != [(1,) * mean.size] * 2 or got[1] != [(0,) * mean.size] * 2:
    chk.violation('%s: entries are not one with probability %s (rows just '
                  'below/above: %s)' % (lab, p.tolist(), got),
                  key='init:' + lab, replay=dict(case=lab))
  chk.count(states=1, transitions=2, traces=2)
  chk.cover('initial')


def reinit(chk, n, shape, freq):
  """Each drawn row is replaced by a fresh one with the set frequency."""
  lab = 'reinit freq=%g shape=%s' % (freq, shape)
  ok = True
  for eps, fresh in ((-1e-6, True), (1e-6, False)):
    b = make(n, shape, freq)
    b.update(np.arange(100, 100 + n * math.prod(shape)).reshape((n,) + shape),
             list(range(n)))
    real = D.uniform

    def u(size, real=real, eps=eps):
      s = (size,) if isinstance(size, int) else tuple(size)
      if s[1:] == shape:
        return np.full(s, 0.999999)
      return np.full(s, freq + eps)

    D.uniform = u
    D.free = True
    try:
      x, _ = b.sample(n)
    finally:
      D.uniform = real
      D.free = False
    isf = (np.asarray(x).reshape(n, -1) < 2).all(1)
    ok = ok and bool((isf == fresh).all())
  if not ok:
    chk.violation('%s: rows are not replaced with that frequency' % lab,
                  key='reinit:' + lab, replay=dict(case=lab))
  chk.count(states=1, transitions=2, traces=2)
  chk.cover('reinit')


def patterns(chk, n, k, shape):
  """Drawn rows are replaced independently: every subset of them occurs."""
  lab = 'replaced subsets of %d rows, shape=%s' % (k, shape)
  D.prefix = []
  seen = set()
  runs = 0
  while True:
    D.restart()
    b = make(n, shape, 0.3)
    b.update(np.arange(100, 100 + n * math.prod(shape)).reshape((n,) + shape),
             list(range(n)))
    x, _ = b.sample(k)
    seen.add(tuple((np.asarray(x).reshape(k, -1) < 2).all(1).tolist()))
    runs += 1
    if not D.next():
      break
  if len(seen) != 2 ** k:
    chk.violation('%s: only %s occur' % (lab, sorted(seen)),
                  key='subsets:' + lab, replay=dict(case=lab))
  chk.count(states=runs, transitions=runs, traces=runs)
  chk.cover('replaced subsets')


def body(chk):
  q = chk.quick
  depth = 4 if q else 5
  n = 3
  ops = [('draw', 1), ('draw', 2), ('write', 0), ('write', 1)]
  chk.bounds.append('buffers of 2 and 3 rows; all histories of %d draws '
                    '(1 or 2 rows) and write-backs (last or previous draw), '
                    'all row choices in two orders and all reinitialisation '
                    'patterns; single draws of up to 4 rows' % depth)
  chk.assumptions.append('binary data, as in the training script; the 256-'
                         'category branch is not implemented in the code')
  jobs = []
  for w in itertools.product(ops, repeat=depth):
    if w[0][0] != 'draw':
      continue
    cost = math.prod({1: 6, 2: 24}[o[1]] if o[0] == 'draw' else 1 for o in w)
    if cost <= (4000 if q else 90000):
      jobs.append((history, n, (2,), w, 0.3))
  for w in itertools.product(ops, repeat=3):
    if w[0][0] == 'draw':
      jobs.append((history, 2, (1, 2), w, 0.05))
  for w in itertools.product(ops, repeat=3):
    if w[0][0] == 'draw':
      jobs.append((history, 2, (2,), w, 0.3, True))
  for k in (1, 2, 3):
    for shape in ((2,), (2, 2)):
      jobs.append((patterns, 3, k, shape))
  for k in (1, 2, 3, 4):
    jobs.append((history, 4, (2,), (('draw', k), ('write', 0)), 0.3))
  for shape, m in (((2,), (0.0, 1.0)), ((2,), (0.25, 0.5)),
                   ((2, 2), (0.1, 0.9, 0.5, 0.0)), ((3,), (0.05, 0.5, 1.0))):
    jobs.append((initial, shape, m))
  for f in (0.05, 0.5, 0.9):
    for shape in ((2,), (2, 2)):
      jobs.append((reinit, 3, shape, f))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C28', body, shards=(4, 8))
