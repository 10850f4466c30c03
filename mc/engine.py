"""Exhaustive exploration of one sampler step on the real code.

Every random draw of the code under test goes through jax.random.  We replace
those functions *before* discs is imported, so that each draw becomes a choice
point: its outcome is dictated by a script and its exact log-probability under
the arguments the code passed is recorded.  Enumerating all scripts from all
states yields the exact transition kernel of the implementation.
"""
import contextlib
import functools
import itertools
import math
import os

os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
import jax
import jax.numpy as jnp
import numpy as np

from mc.report import Broken, HarnessError

_REAL = {n: getattr(jax.random, n) for n in (
    'bernoulli', 'categorical', 'randint', 'choice', 'permutation', 'shuffle',
    'uniform', 'gumbel', 'normal', 'exponential')}
_REAL_LAX = {n: getattr(jax.lax, n) for n in (
    'scan', 'fori_loop', 'while_loop', 'cond', 'map')}
_REAL_VMAP = jax.vmap
_REAL_JIT = jax.jit

_CTX = []


def active():
  return _CTX[-1] if _CTX else None


def _outside(key):
  """True for draws that are not choice points.

  flax re-evaluates parameter initialisers for their shape only, with its own
  typed key 0; the code under test uses raw uint32 keys.
  """
  if not _CTX:
    return True
  try:
    return bool(jnp.issubdtype(key.dtype, jax.dtypes.prng_key))
  except AttributeError:
    return False


class Ctx:
  """One (vectorised) execution under a script."""

  def __init__(self, code=None, specs=None, unif=None):
    self.code = code          # traced int: mixed-radix outcome code, or None
    self.specs = specs        # list from discovery, or None (discovery)
    self.unif = unif          # list of traced arrays: one per continuous draw
    self.found = []           # discovered specs
    self.logp = []            # traced scalars
    self.k = 0
    self.kc = 0
    self.rem = code
    self.keys = []            # concrete PRNG keys of the draws (discovery)

  def key(self, key):
    if key is None or isinstance(key, jax.core.Tracer):
      return
    try:
      self.keys.append(tuple(np.asarray(jax.random.key_data(key) if
          jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key).reshape(-1).tolist()))
    except Exception:  # pylint: disable=broad-except
      pass

  def discrete(self, kind, radix, n):
    """Returns int array of n digits below radix."""
    total = radix ** n
    self.found.append(('d', kind, radix, n))
    if self.specs is None:
      return jnp.zeros((n,), jnp.int32)
    if self.k >= len(self.specs) or self.specs[self.k] != ('d', kind, radix, n):
      raise HarnessError('random-call sequence diverged: %s vs %s' % (
          self.found[-1], self.specs[self.k:self.k + 1]))
    self.k += 1
    digs = []
    cur = self.rem
    for _ in range(n):
      digs.append(cur % radix)
      cur = cur // radix
    self.rem = cur
    del total
    if not digs:
      return jnp.zeros((0,), jnp.int32)
    return jnp.stack(digs)

  def continuous(self, n):
    self.found.append(('c', 'uniform', n))
    if self.specs is None:
      return jnp.full((n,), 0.5, jnp.float32)
    if self.k >= len(self.specs) or self.specs[self.k] != ('c', 'uniform', n):
      raise HarnessError('random-call sequence diverged: %s vs %s' % (
          self.found[-1], self.specs[self.k:self.k + 1]))
    self.k += 1
    u = self.unif[self.kc]
    self.kc += 1
    return u


def _shape(s):
  if s is None:
    return ()
  if isinstance(s, (int, np.integer)):
    return (int(s),)
  return tuple(int(v) for v in s)


def _bernoulli(key, p=0.5, shape=None):
  c = active()
  if _outside(key):
    return _REAL['bernoulli'](key, p, shape)
  c.key(key)
  p = jnp.asarray(p, jnp.float32)
  shape = p.shape if shape is None else _shape(shape)
  n = math.prod(shape)
  p = jnp.broadcast_to(p, shape).reshape(-1)
  d = c.discrete('bernoulli', 2, n)
  pc = jnp.clip(p, 0.0, 1.0)
  c.logp.append(jnp.sum(jnp.where(d == 1, jnp.log(pc), jnp.log1p(-pc))))
  return d.astype(bool).reshape(shape)


def _categorical(key, logits, axis=-1, shape=None):
  c = active()
  if _outside(key):
    return _REAL['categorical'](key, logits, axis, shape)
  c.key(key)
  logits = jnp.asarray(logits)
  if axis >= 0:
    axis -= logits.ndim
  bshape = tuple(np.delete(logits.shape, axis))
  shape = bshape if shape is None else _shape(shape)
  prefix = shape[:len(shape) - len(bshape)]
  if tuple(shape[len(shape) - len(bshape):]) != tuple(bshape):
    full = np.broadcast_shapes(shape, bshape)
    if tuple(full) != tuple(shape):
      raise ValueError('categorical: shape %s vs logits batch %s' % (
          shape, bshape))
  ncat = logits.shape[axis]
  lp = jax.nn.log_softmax(logits.astype(jnp.float32), axis=axis)
  lp = jnp.moveaxis(lp, axis, -1)
  lp = jnp.broadcast_to(lp, tuple(shape) + (ncat,)).reshape(-1, ncat)
  n = math.prod(shape)
  d = c.discrete('categorical', ncat, n)
  c.logp.append(jnp.sum(jnp.take_along_axis(lp, d[:, None], axis=1)))
  return d.reshape(shape)


def _randint(key, shape, minval, maxval, dtype=jnp.int32):
  c = active()
  if _outside(key):
    return _REAL['randint'](key, shape, minval, maxval, dtype)
  c.key(key)
  shape = _shape(shape)
  lo, hi = int(minval), int(maxval)
  n = math.prod(shape)
  span = max(hi - lo, 1)
  d = c.discrete('randint', span, n)
  c.logp.append(jnp.float32(-n * math.log(span)))
  return (d + lo).astype(dtype).reshape(shape)


def _choice(key, a, shape=(), replace=True, p=None, axis=0):
  c = active()
  if _outside(key):
    return _REAL['choice'](key, a, shape, replace, p, axis)
  c.key(key)
  if axis != 0:
    raise HarnessError('choice axis')
  a = jnp.arange(a) if np.ndim(a) == 0 else jnp.asarray(a)
  shape = _shape(shape)
  n = math.prod(shape)
  m = a.shape[0]
  if p is None:
    lp = jnp.full((m,), -math.log(m), jnp.float32)
  else:
    lp = jnp.log(jnp.asarray(p, jnp.float32))
    lp = lp - jax.scipy.special.logsumexp(lp)
  if n == 1 or replace:
    d = c.discrete('choice', m, n)
    c.logp.append(jnp.sum(lp[d]))
    return a[d].reshape(shape + a.shape[1:])
  # without replacement: Lehmer-style, one draw after another
  if p is not None:
    raise HarnessError('choice without replacement with p')
  if n > m:
    raise ValueError('Cannot take a larger sample than population')
  perms = np.array(list(itertools.permutations(range(m), n)), np.int32)
  d = c.discrete('perm', len(perms), 1)
  c.logp.append(jnp.float32(-math.log(len(perms))))
  return a[jnp.asarray(perms)[d[0]]].reshape(shape + a.shape[1:])


def _permutation(key, x, axis=0, independent=False):
  c = active()
  if _outside(key):
    return _REAL['permutation'](key, x, axis, independent)
  c.key(key)
  x = jnp.arange(x) if np.ndim(x) == 0 else jnp.asarray(x)
  m = x.shape[axis]
  perms = np.array(list(itertools.permutations(range(m))), np.int32)
  d = c.discrete('perm', len(perms), 1)
  c.logp.append(jnp.float32(-math.log(len(perms))))
  return jnp.take(x, jnp.asarray(perms)[d[0]], axis=axis)


def _shuffle(key, x, axis=0):
  c = active()
  if _outside(key):
    return _REAL['shuffle'](key, x, axis)
  return _permutation(key, x, axis)


def _uniform(key, shape=(), dtype=jnp.float32, minval=0.0, maxval=1.0):
  c = active()
  if _outside(key):
    return _REAL['uniform'](key, shape, dtype, minval, maxval)
  c.key(key)
  shape = _shape(shape)
  u = c.continuous(math.prod(shape)).reshape(shape)
  return (minval + u * (maxval - minval)).astype(dtype)


def _gumbel(key, shape=(), dtype=jnp.float32):
  c = active()
  if _outside(key):
    return _REAL['gumbel'](key, shape, dtype)
  c.key(key)
  shape = _shape(shape)
  u = c.continuous(math.prod(shape)).reshape(shape)
  u = jnp.clip(u, 1e-30, 1 - 6e-8)
  return -jnp.log(-jnp.log(u))


def _exponential(key, shape=(), dtype=jnp.float32):
  c = active()
  if _outside(key):
    return _REAL['exponential'](key, shape, dtype)
  c.key(key)
  shape = _shape(shape)
  u = c.continuous(math.prod(shape)).reshape(shape)
  return -jnp.log1p(-u)


def _normal(key, shape=(), dtype=jnp.float32):
  c = active()
  if _outside(key):
    return _REAL['normal'](key, shape, dtype)
  c.key(key)
  shape = _shape(shape)
  u = c.continuous(math.prod(shape)).reshape(shape)
  return jax.scipy.special.ndtri(jnp.clip(u, 1e-7, 1 - 1e-7)).astype(dtype)


def _concrete(*vals):
  for v in jax.tree_util.tree_leaves(vals):
    if isinstance(v, jax.core.Tracer):
      return False
  return True


def _stack(ys):
  if not ys:
    return None
  return jax.tree_util.tree_map(lambda *a: jnp.stack(a), *ys)


def _scan(f, init, xs=None, length=None, *a, **kw):
  if active() is None:
    return _REAL_LAX['scan'](f, init, xs, length, *a, **kw)
  n = length if length is not None else (
      jax.tree_util.tree_leaves(xs)[0].shape[0])
  if n == 0:
    return _REAL_LAX['scan'](f, init, xs, length, *a, **kw)
  idx = range(int(n))
  rev = kw.get('reverse', False)
  carry, ys = init, []
  for i in (reversed(idx) if rev else idx):
    x = None if xs is None else jax.tree_util.tree_map(lambda t: t[i], xs)
    carry, y = f(carry, x)
    ys.append(y)
  if rev:
    ys = ys[::-1]
  return carry, _stack(ys)


def _fori(lower, upper, body, init, **kw):
  if active() is None or not _concrete(lower, upper):
    return _REAL_LAX['fori_loop'](lower, upper, body, init, **kw)
  v = init
  for i in range(int(lower), int(upper)):
    v = body(i, v)
  return v


def _while(cond_fun, body_fun, init_val):
  if active() is None:
    return _REAL_LAX['while_loop'](cond_fun, body_fun, init_val)
  v = init_val
  it = 0
  while True:
    c = cond_fun(v)
    if not _concrete(c):
      if it == 0 and not active().found:
        return _REAL_LAX['while_loop'](cond_fun, body_fun, init_val)
      raise HarnessError('data-dependent while_loop inside explored step')
    if not bool(c):
      return v
    it += 1
    if it > 10000:
      raise HarnessError('while_loop does not terminate')
    v = body_fun(v)


def _cond(pred, true_fun, false_fun, *operands, **kw):
  if active() is None or not _concrete(pred):
    return _REAL_LAX['cond'](pred, true_fun, false_fun, *operands, **kw)
  return true_fun(*operands) if bool(pred) else false_fun(*operands)


def _lmap(f, xs, *a, **kw):
  if active() is None:
    return _REAL_LAX['map'](f, xs, *a, **kw)
  n = jax.tree_util.tree_leaves(xs)[0].shape[0]
  return _stack([f(jax.tree_util.tree_map(lambda t: t[i], xs))
                 for i in range(n)])


def _vmap(fun, in_axes=0, out_axes=0, *va, **vkw):
  real = _REAL_VMAP(fun, in_axes, out_axes, *va, **vkw)

  @functools.wraps(fun)
  def wrapped(*args, **kwargs):
    if active() is None:
      return real(*args, **kwargs)
    axes = in_axes if isinstance(in_axes, (tuple, list)) else (
        [in_axes] * len(args))
    n = None

    def isax(z):
      return z is None or isinstance(z, int)

    spread = []
    for a, ax in zip(args, axes):
      if isax(ax):
        ax_tree = jax.tree_util.tree_map(lambda _: ax, a) if ax is not None else None
        if ax is None:
          spread.append((a, None))
          continue
        ax = ax_tree
      spread.append((a, ax))
      for leaf, l_ax in zip(jax.tree_util.tree_leaves(a),
                            jax.tree_util.tree_leaves(ax)):
        n = leaf.shape[l_ax]
    for a in jax.tree_util.tree_leaves(kwargs):
      n = a.shape[0]
    outs = []
    for i in range(n):
      call = [a if ax is None else jax.tree_util.tree_map(
          lambda t, x: jnp.take(t, i, axis=x), a, ax) for a, ax in spread]
      kw = jax.tree_util.tree_map(lambda t: t[i], kwargs)
      outs.append(fun(*call, **kw))
    if out_axes == 0:
      return _stack(outs)
    return jax.tree_util.tree_map(
        lambda *t: jnp.stack(t, axis=out_axes), *outs)

  return wrapped


def _jit(fun=None, *a, **kw):
  """jit is a semantic no-op; inside an explored step run the body directly."""
  if fun is None:
    return lambda f: _jit(f, *a, **kw)
  real = _REAL_JIT(fun, *a, **kw)

  @functools.wraps(fun)
  def wrapped(*args, **kwargs):
    if active() is None:
      return real(*args, **kwargs)
    return fun(*args, **kwargs)

  wrapped.real_jit = real
  return wrapped


_INSTALLED = False


def install():
  """Installs the choice-point versions; must precede `import discs...`."""
  global _INSTALLED
  if _INSTALLED:
    return
  _INSTALLED = True
  for n, f in dict(bernoulli=_bernoulli, categorical=_categorical,
                   randint=_randint, choice=_choice, permutation=_permutation,
                   shuffle=_shuffle, uniform=_uniform, gumbel=_gumbel,
                   normal=_normal, exponential=_exponential).items():
    setattr(jax.random, n, f)
  for n, f in dict(scan=_scan, fori_loop=_fori, while_loop=_while, cond=_cond,
                   map=_lmap).items():
    setattr(jax.lax, n, f)
  jax.vmap = _vmap
  jax.jit = _jit


@contextlib.contextmanager
def scripted(ctx):
  _CTX.append(ctx)
  try:
    yield ctx
  finally:
    _CTX.pop()


KEY = np.array([0, 7], dtype=np.uint32)


def all_states(shape, n):
  d = math.prod(shape)
  s = np.array(list(itertools.product(range(n), repeat=d)), np.int32)
  return s.reshape((-1,) + tuple(shape))


def discover(fn, *args):
  """Runs fn once with default outcomes; returns specs of the draws."""
  with scripted(Ctx()) as c:
    out = fn(*args)
  return c.found, out


def n_codes(specs):
  t = 1
  for s in specs:
    if s[0] == 'd':
      t *= s[2] ** s[3]
  return t


def run_worlds(fn, xs, codes, unifs, specs, chunk=200000):
  """Evaluates fn(x) in every world (x, code, uniforms); vectorised.

  Args:
    fn: x -> pytree of arrays (one world).
    xs: [W, ...]; codes: [W]; unifs: list of [W, n].
    specs: discovered draw list.
  Returns:
    (outputs pytree with leading W as numpy, logp [W] float64)
  """

  def one(x, code, us):
    ctx = Ctx(code, specs, us)
    with scripted(ctx):
      out = fn(x)
    if ctx.found != list(specs):
      raise HarnessError('draw list changed between executions')
    lp = ctx.logp
    lp = jnp.stack([jnp.asarray(v, jnp.float32) for v in lp]) if lp else (
        jnp.zeros((1,), jnp.float32))
    return out, lp

  w = len(codes)
  outs, lps = [], []
  for s in range(0, w, chunk):
    e = min(w, s + chunk)
    o, lp = _REAL_VMAP(one)(
        jnp.asarray(xs[s:e]), jnp.asarray(codes[s:e], jnp.int32),
        [jnp.asarray(u[s:e], jnp.float32) for u in unifs])
    outs.append(jax.tree_util.tree_map(np.asarray, o))
    lps.append(np.asarray(lp).astype(np.float64).sum(-1))
  if len(outs) == 1:
    return outs[0], lps[0]
  out = jax.tree_util.tree_map(lambda *t: np.concatenate(t), *outs)
  return out, np.concatenate(lps)


def outcomes(fn, unifs=None, limit=400000, discovered=None):
  """All outcomes of the discrete draws of fn() with exact probabilities.

  Args:
    fn: () -> pytree of arrays.
    unifs: values for the continuous draws, one array per draw (given the
      list of continuous specs), or None when there are none.
  Returns:
    (specs, outputs with leading axis W, probabilities [W])
  """
  specs, _ = discover(fn)
  conts = [s for s in specs if s[0] == 'c']
  vals = unifs(conts) if callable(unifs) else (unifs or [])
  if len(vals) != len(conts):
    raise HarnessError('continuous draws: %s' % conts)
  W = n_codes(specs)
  if W > limit:
    raise HarnessError('too many outcomes: %d' % W)
  us = [np.broadcast_to(np.asarray(v, np.float32).reshape(1, -1),
                        (W, s[2])) for v, s in zip(vals, conts)]
  out, lp = run_worlds(lambda _: fn(), np.zeros((W, 1)), np.arange(W), us,
                       specs)
  return specs, out, np.exp(lp)


class Kernel:
  """Exact one-step kernel of `step` from every state in `xs`."""

  def __init__(self, xs, shape, ncat):
    self.xs = xs
    self.shape = shape
    self.ncat = ncat
    self.S = len(xs)
    self.P = np.zeros((self.S, self.S))
    self.worlds = 0
    self.bad = []            # closure problems
    self.acc_err = 0.0
    self.acc_worst = None
    self.support = np.zeros((self.S, self.S), bool)
    self.grid = False
    self.calls = None
    self.row = None

  def index(self, y):
    """Row index of samples y [W, *shape] in self.xs; -1 if not a state."""
    y = np.asarray(y).reshape(len(y), -1)
    d = y.shape[1] if y.ndim > 1 else 0
    with np.errstate(invalid='ignore'):
      yi = np.nan_to_num(y.astype(np.float64), nan=-1.0)
    ok = np.all((yi >= 0) & (yi < self.ncat) & (yi == np.round(yi)), axis=1)
    pw = self.ncat ** np.arange(d - 1, -1, -1)
    idx = (yi.astype(np.int64) * pw).sum(1)
    if not hasattr(self, '_lut'):
      lut = np.full(self.ncat ** d, -1, np.int64)
      xf = self.xs.reshape(self.S, -1).astype(np.int64)
      lut[(xf * pw).sum(1)] = np.arange(self.S)
      self._lut = lut
    out = np.full(len(y), -1, np.int64)
    out[ok] = self._lut[idx[ok]]
    return out


U_LO = 0.0
U_HI = float(np.float32(1 - 2 ** -24))


def explore(step, xs, shape, ncat, grid_n=48, sect=33, passes=5,
            want_acc=True):
  """Builds the exact kernel.

  step(x[1,*shape]) -> (y[1,*shape], acc scalar-ish).  All draws scripted.
  """
  ker = Kernel(xs, shape, ncat)
  with scripted(Ctx()) as c0:
    y, acc = step(jnp.asarray(xs[:1]))
  if tuple(np.shape(y)) != (1,) + tuple(shape):
    raise Broken('a step on one sample of shape %s returned samples of '
                 'shape %s' % (tuple(shape), tuple(np.shape(y))))
  specs = c0.found
  ker.calls = specs
  ker.keys = c0.keys
  ker.shared_keys = sorted({k for k in c0.keys if c0.keys.count(k) > 1})
  conts = [s for s in specs if s[0] == 'c']
  codes_n = n_codes(specs)
  if codes_n > 2000000:
    raise HarnessError('too many outcomes: %d' % codes_n)
  # continuous draws: the multi-element ones use a grid, single ones bisection
  multi = [i for i, s in enumerate(conts) if s[2] > 1]
  single = [i for i, s in enumerate(conts) if s[2] == 1]
  if len(single) > 1:
    raise HarnessError('several single uniforms per step')
  gdim = sum(conts[i][2] for i in multi)
  if gdim > 8 or codes_n * grid_n ** gdim * ker.S > 60000000:
    raise HarnessError('too many executions: %d outcomes, %d uniforms' % (
        codes_n, gdim))
  if gdim:
    ker.grid = True
    # different point counts per axis: no two coordinates ever tie
    g1 = [(np.arange(grid_n + k) + 0.5) / (grid_n + k)
          for k in (0, 1, 3, 5, 7, 9, 11, 13)[:gdim]]
    cells = np.stack(np.meshgrid(*g1, indexing='ij'), -1).reshape(
        -1, gdim).astype(np.float32)
  else:
    cells = np.zeros((1, 0), np.float32)
  nc = len(cells)
  S = ker.S

  def fn(x):
    y, acc = step(x[None])
    return y.reshape((-1,) + tuple(shape))[0], jnp.mean(
        jnp.asarray(acc, jnp.float32))

  # groups: (state, code, cell) -> representative
  per = codes_n * nc
  X = np.repeat(np.arange(S), per)
  C = np.tile(np.repeat(np.arange(codes_n), nc), S)
  G = np.tile(np.arange(nc), S * codes_n)

  def us_for(sel_g, usingle):
    res, off = [], 0
    for i, s in enumerate(conts):
      if s[2] == 1:
        res.append(usingle[:, None].astype(np.float32))
      else:
        res.append(cells[sel_g][:, off:off + s[2]])
        off += s[2]
    return res

  W = len(X)
  lo = np.full(W, U_LO)
  (y0, a0), lp0 = run_worlds(fn, xs[X], C, us_for(G, lo), specs)
  ker.worlds += W
  i0 = ker.index(y0)
  if np.any(np.isnan(lp0)):
    k = int(np.argmax(np.isnan(lp0)))
    ker.bad.append(('nan-probability', xs[X[k]].tolist(), int(C[k])))
  bad = (i0 < 0) & (lp0 > -80)
  if bad.any():
    k = int(np.argmax(bad))
    ker.bad.append(('outside', xs[X[k]].tolist(), np.asarray(y0[k]).tolist()))
  wt = np.exp(np.where(np.isnan(lp0), -1e9, lp0)) / nc
  if not single:
    _acc(ker, X, i0, wt)
    ker.acc_vals = a0
    ker.alpha_vals = np.ones(W)
    ker.world_x, ker.world_y, ker.world_w = X, i0, wt
    return ker
  # merge equivalent worlds (same state, same outcome at u=0, same reported acc)
  keyarr = np.stack([X.astype(np.float64), i0.astype(np.float64),
                     np.round(np.nan_to_num(a0.astype(np.float64), nan=-9), 6),
                     C.astype(np.float64) if not gdim else np.zeros(W)], 1)
  _, rep, inv = np.unique(keyarr, axis=0, return_index=True,
                          return_inverse=True)
  inv = inv.reshape(-1)
  if gdim:
    # keep one representative per (state, outcome, acc, discrete code) anyway
    keyarr = np.concatenate([keyarr, C[:, None].astype(np.float64)], 1)
    _, rep, inv = np.unique(keyarr, axis=0, return_index=True,
                            return_inverse=True)
    inv = inv.reshape(-1)
  R = len(rep)
  rx, rc, rg = X[rep], C[rep], G[rep]
  hi = np.full(R, U_HI)
  (y1, _), _ = run_worlds(fn, xs[rx], rc, us_for(rg, hi), specs)
  ker.worlds += R
  i1 = ker.index(y1)
  r0 = i0[rep]
  diff = r0 != i1
  lo = np.zeros(R)
  hi = np.ones(R)
  sel = np.nonzero(diff)[0]
  if len(sel):
    for _ in range(passes):
      L, H = lo[sel], hi[sel]
      fr = np.arange(1, sect) / sect
      pts = L[:, None] + (H - L)[:, None] * fr[None]        # [n, sect-1]
      rxx = np.repeat(rx[sel], sect - 1)
      rcc = np.repeat(rc[sel], sect - 1)
      rgg = np.repeat(rg[sel], sect - 1)
      (yy, _), _ = run_worlds(fn, xs[rxx], rcc, us_for(rgg, pts.reshape(-1)),
                              specs)
      ker.worlds += len(rxx)
      ii = ker.index(yy).reshape(len(sel), sect - 1)
      same0 = ii == r0[sel][:, None]
      same1 = ii == i1[sel][:, None]
      if not np.all(same0 | same1):
        ker.bad.append(('third outcome along the acceptance draw',))
      # number of leading points equal to outcome at u=0
      k = np.where(same0.all(1), sect - 1, np.argmin(same0, axis=1))
      mono = np.all(same0 == (np.arange(sect - 1)[None] < k[:, None]), axis=1)
      if not mono.all():
        ker.bad.append(('acceptance not monotone in its uniform draw',))
      full = np.concatenate([L[:, None], pts, H[:, None]], 1)
      lo[sel] = full[np.arange(len(sel)), k]
      hi[sel] = full[np.arange(len(sel)), k + 1]
  thr = np.where(diff, 0.5 * (lo + hi), 1.0)
  Y0, Y1, TH = r0[inv], i1[inv], thr[inv]
  _acc(ker, X, Y0, wt * TH)
  dd = diff[inv]
  _acc(ker, X[dd], Y1[dd], (wt * (1 - TH))[dd])
  # measured probability of moving to the proposal (whichever side it is)
  mv0 = Y0 != X
  alpha = np.where(dd, np.where(mv0, TH, 1 - TH), np.nan)
  ker.acc_vals = a0
  ker.alpha_vals = alpha
  ker.world_x, ker.world_y, ker.world_w = X, np.where(mv0, Y0, Y1), wt
  return ker


def _acc(ker, X, Y, wt):
  ok = Y >= 0
  np.add.at(ker.P, (X[ok], Y[ok]), wt[ok])
  ker.support[X[ok & (wt > 0)], Y[ok & (wt > 0)]] = True


def extremes(step, xs, shape, ncat, specs, us=(2e-7, 0.5, 1 - 2e-7)):
  """Next samples when the continuous draws take extreme values.

  Returns (state indices, their next samples) over all discrete outcomes and all
  combinations of extreme values of the multi-element draws; the single draw
  (acceptance) takes its lowest value.
  """
  conts = [s for s in specs if s[0] == 'c']
  gdim = sum(s[2] for s in conts if s[2] > 1)
  cells = np.array(list(itertools.product(us, repeat=gdim)), np.float32).reshape(
      -1, gdim)
  codes = n_codes(specs)
  S = len(xs)
  if codes * len(cells) * S > 20000000:
    raise HarnessError('too many executions')
  X = np.repeat(np.arange(S), codes * len(cells))
  C = np.tile(np.repeat(np.arange(codes), len(cells)), S)
  G = np.tile(np.arange(len(cells)), S * codes)
  unif, off = [], 0
  for s in conts:
    if s[2] == 1:
      unif.append(np.zeros((len(X), 1), np.float32))
    else:
      unif.append(cells[G][:, off:off + s[2]])
      off += s[2]

  def fn(x):
    y, _ = step(x[None])
    return y.reshape((-1,) + tuple(shape))[0]

  y, lp = run_worlds(fn, xs[X], C, unif, specs)
  return X, np.asarray(y), lp
