"""Harness-defined target distributions (the oracle energies)."""
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np


class ToyModel:
  """log pi(x) = sum_i a_i[x_i] + sum_{i<j} b_ij[x_i,x_j] + one cubic term.

  Accepts integer states or one-hot/float states like the library's models.
  Counts its energy evaluations.
  """

  def __init__(self, shape, n, kind='generic', seed=0, scale=1.0):
    self.shape = tuple(shape)
    self.n = n
    d = math.prod(shape)
    self.d = d
    rs = np.random.RandomState(1000 * seed + 10 * n + d)
    if kind == 'flat':
      scale = 0.0
    self.a = rs.uniform(-1, 1, (d, n)) * 1.2 * scale
    self.b = rs.uniform(-1, 1, (d, d, n, n)) * 0.9 * scale
    for i in range(d):
      for j in range(d):
        if j <= i or kind == 'factorised':
          self.b[i, j] = 0
    self.c = rs.uniform(-1, 1, (n, n, n)) * 0.7 * scale * (
        1 if kind == 'generic' and d >= 3 else 0)
    self.params = {'a': jnp.asarray(self.a, jnp.float32),
                   'b': jnp.asarray(self.b, jnp.float32),
                   'c': jnp.asarray(self.c, jnp.float32)}
    self.calls = 0
    self.rows = 0

  def logpi(self, xs):
    """Oracle, numpy float64."""
    x = np.asarray(xs).reshape(len(xs), -1)
    out = np.zeros(len(x))
    for k, r in enumerate(x):
      v = sum(self.a[i, r[i]] for i in range(self.d))
      for i in range(self.d):
        for j in range(i + 1, self.d):
          v += self.b[i, j, r[i], r[j]]
      if self.d >= 3:
        v += self.c[r[0], r[1], r[2]]
      out[k] = v
    return out

  def pi(self, xs):
    l = self.logpi(xs)
    p = np.exp(l - l.max())
    return p / p.sum()

  def _soft(self, params, x):
    """x: [B, d, n] soft one-hot."""
    v = jnp.sum(x * params['a'], (1, 2))
    v = v + jnp.einsum('zic,zjd,ijcd->z', x, x, params['b'])
    if self.d >= 3:
      v = v + jnp.einsum('zc,zd,ze,cde->z', x[:, 0], x[:, 1], x[:, 2],
                         params['c'])
    return v

  def _energy(self, params, x):
    bsz = x.shape[0]
    if x.ndim == len(self.shape) + 1:
      xf = x.reshape(bsz, self.d)
      if self.n == 2:
        xf = xf.astype(jnp.float32)
        oh = jnp.stack([1 - xf, xf], -1)
      else:
        oh = jax.nn.one_hot(xf, self.n, dtype=jnp.float32)
    else:
      oh = x.reshape(bsz, self.d, self.n).astype(jnp.float32)
    return self._soft(params, oh)

  def forward(self, params, x):
    self.calls += 1
    self.rows += x.shape[0]
    return self._energy(params, x)

  def get_value_and_grad(self, params, x):
    self.calls += 2
    self.rows += 2 * x.shape[0]
    x = x.astype(jnp.float32)

    def f(z):
      l = self._energy(params, z)
      return jnp.sum(l), l

    (_, l), g = jax.value_and_grad(f, has_aux=True)(x)
    return l, g

  def logratio_in_neighborhood(self, params, x):
    """(log-density, log-ratios shaped like x, evaluations, neighbour fn)."""
    bsz = x.shape[0]
    self.calls += 1
    self.rows += bsz
    ll = self._energy(params, x)
    if x.ndim == len(self.shape) + 1:
      xf = x.reshape(bsz, self.d).astype(jnp.float32)
      cols = []
      for i in range(self.d):
        y = xf.at[:, i].set(1 - xf[:, i])
        cols.append(self._energy(params, y.reshape(x.shape)) - ll)
      return ll, jnp.stack(cols, -1).reshape(x.shape), 1, self._neighbor
    oh = x.reshape(bsz, self.d, self.n).astype(jnp.float32)
    outs = []
    for i in range(self.d):
      for c in range(self.n):
        y = oh.at[:, i].set(jax.nn.one_hot(c, self.n))
        outs.append(self._soft(params, y) - ll)
    return ll, jnp.stack(outs, -1).reshape(x.shape), 1, None

  def _neighbor(self, params, x, idx):
    del params
    b = jnp.arange(x.shape[0])
    xf = x.reshape(x.shape[0], -1)
    return xf.at[b, idx].set(1 - xf[b, idx]).reshape(x.shape)
