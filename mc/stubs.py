"""Scripted model and sampler for driving the experiment loops.

A sample is (g, t, id): the index g of its initial sample, the number of steps
it has made and the model it was made for, so that every saved value can be
traced back to where it came from. Every step call is recorded.
"""
import jax
import jax.numpy as jnp
import numpy as np


class Trace:
  """Records of all step calls of one run."""

  def __init__(self):
    self.rows = []

  def __call__(self, mid, temp, x, key, steps, mask):
    self.rows.append(dict(
        id=int(mid), temp=float(temp), x=np.array(x), key=tuple(
            np.asarray(key).ravel().tolist()), steps=int(steps),
        mask=tuple(np.asarray(mask).ravel().tolist())))


class Sampler:

  def __init__(self, trace, ll=3, acc=0.25):
    self.trace, self.ll, self.acc = trace, ll, acc

  def make_init_state(self, rng):
    return dict(steps=jnp.zeros((), jnp.int32),
                num_ll_calls=jnp.zeros((), jnp.int32))

  def step(self, model, rng, x, model_param, state, x_mask=None):
    mask = jnp.zeros((1,)) if x_mask is None else x_mask
    mid = model_param.get('id', jnp.int32(0))
    jax.debug.callback(self.trace, mid, model_param.get(
        'temperature', jnp.float32(1)), x, rng, state['steps'], mask)
    new_x = model.move(model_param, x)
    state = dict(steps=state['steps'] + 1,
                 num_ll_calls=state['num_ll_calls'] + self.ll)
    return new_x, state, jnp.full((x.shape[0],), self.acc)
