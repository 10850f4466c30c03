"""Independent definitions (numpy, float64) of the library's model energies."""
import itertools
import math
import numpy as np


def softmax_logits(l):
  l = np.asarray(l, np.float64)
  p = np.exp(l - l.max())
  return p / p.sum()


def bernoulli(theta, xs):
  """sum_i theta_i x_i."""
  th = np.asarray(theta, np.float64).reshape(-1)
  x = np.asarray(xs, np.float64).reshape(len(xs), -1)
  return x @ th


def categorical(theta, xs):
  """sum_i theta_i[x_i]; theta [*shape, n]."""
  th = np.asarray(theta, np.float64)
  n = th.shape[-1]
  th = th.reshape(-1, n)
  x = np.asarray(xs).reshape(len(xs), -1)
  return np.array([sum(th[i, r[i]] for i in range(len(r))) for r in x])


def ising(params, xs):
  """-( sum_i b_i s_i + sum_bonds w s_i s_j ), s = +-1, open lattice.

  params: [3, H, W]: horizontal weights, vertical weights, field.
  """
  p = np.asarray(params, np.float64)
  out = []
  for x in np.asarray(xs):
    s = 2.0 * x - 1
    h, w = s.shape
    e = (p[2] * s).sum()
    for i in range(h):
      for j in range(w):
        if j + 1 < w:
          e += p[0][i, j] * s[i, j] * s[i, j + 1]
        if i + 1 < h:
          e += p[1][i, j] * s[i, j] * s[i + 1, j]
    out.append(-e)
  return np.array(out)


def potts(params, xs):
  """-( sum_i b_i[x_i] + sum_bonds w[c] 1{x_i = x_j = c} ), open lattice."""
  p = np.asarray(params, np.float64)
  out = []
  for x in np.asarray(xs):
    h, w = x.shape
    e = 0.0
    for i in range(h):
      for j in range(w):
        c = x[i, j]
        e += p[2][i, j, c]
        if j + 1 < w and x[i, j + 1] == c:
          e += p[0][i, j, c]
        if i + 1 < h and x[i + 1, j] == c:
          e += p[1][i, j, c]
    out.append(-e)
  return np.array(out)
