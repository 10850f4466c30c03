"""Exact transition kernels of the library's samplers."""
import copy
import itertools
import math

import jax
import jax.numpy as jnp
import numpy as np

from mc import engine
from mc.report import HarnessError


class LyingModel:
  """value = -sharp * (#coordinates away from zero), gradient = 0."""

  def __init__(self, shape, n, sharp):
    self.shape, self.n, self.sharp = tuple(shape), n, sharp

  def forward(self, params, x):
    x = x.astype(jnp.float32)
    if x.ndim == len(self.shape) + 2:
      off = 1.0 - x[..., 0]
    else:
      off = (x != 0).astype(jnp.float32)
    return -self.sharp * jnp.sum(off.reshape(off.shape[0], -1), -1)

  def get_value_and_grad(self, params, x):
    x = x.astype(jnp.float32)
    return self.forward(params, x), jnp.zeros_like(x)

  def logratio_in_neighborhood(self, params, x):
    x = x.astype(jnp.float32)
    return self.forward(params, x), jnp.zeros_like(x), 1, None


def fresh(state):
  return jax.tree_util.tree_map(lambda a: jnp.array(a), dict(state)) if isinstance(
      state, dict) else jax.tree_util.tree_map(jnp.array, state)


def warm(sampler, shape, n, word, batch=1):
  """State reached from the initial one by a history over {easy, hard}.

  'e': a step on a flat target (every proposal is accepted);
  'h': a step where every real move is rejected.
  """
  state = sampler.make_init_state(jax.random.PRNGKey(0))
  x = jnp.zeros((batch,) + tuple(shape), jnp.int32)
  for t, w in enumerate(word):
    model = LyingModel(shape, n, 0.0 if w == 'e' else 60.0)
    x, state, _ = sampler.step(
        model=model, rng=jax.random.PRNGKey(17 + t), x=x, model_param={},
        state=fresh(state))
    if w == 'h':
      x = jnp.zeros_like(x)
  return state


def foreign_keys(sampler, model, params, state, x, mask=None):
  """PRNG keys drawn from that do not depend on the key the step was given."""
  seen = []
  for k in (engine.KEY, np.array([3, 11], np.uint32)):
    with engine.scripted(engine.Ctx()) as c:
      stepper(sampler, model, params, state, mask, key=k)(x)
    seen.append(set(c.keys))
  return seen[0] & seen[1]


def stepper(sampler, model, params, state, mask=None, key=engine.KEY):
  def step(x):
    kw = {}
    if mask is not None:
      kw['x_mask'] = jnp.asarray(mask)
    y, _, acc = sampler.step(model=model, rng=jnp.asarray(key), x=x,
                             model_param=params, state=fresh(state), **kw)
    return y, acc
  return step


def kernel(sampler, model, params, state, xs, shape, n, mask=None, **kw):
  return engine.explore(stepper(sampler, model, params, state, mask), xs,
                        shape, n, **kw)


def invariance_error(ker, pi):
  """(row-sum error, max |pi P - pi|, worst state index)."""
  rows = np.abs(ker.P.sum(1) - 1).max()
  d = pi @ ker.P - pi
  k = int(np.argmax(np.abs(d)))
  return rows, float(np.abs(d[k])), k


def acc_error(ker):
  """Largest gap between reported and measured acceptance probability."""
  a, r = ker.alpha_vals, np.asarray(ker.acc_vals, np.float64)
  ok = ~np.isnan(a) & (ker.world_w > 1e-7)
  if not ok.any():
    return 0.0, None
  e = np.abs(a - r)
  e[~ok] = 0
  e = np.where(np.isnan(e), 9.0, e)
  k = int(np.argmax(e))
  return float(e[k]), (int(ker.world_x[k]), int(ker.world_y[k]),
                       float(r[k]), float(a[k]))
