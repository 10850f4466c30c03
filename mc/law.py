"""Exact (or gridded) joint law of what a function draws."""
import numpy as np
from mc import engine
from mc.report import HarnessError

TOL, TOL_GRID = 1e-4, 8e-3


class TooMany(Exception):
  """More continuous draws than a grid can cover."""


def worlds(fn, budget=60000, limit=400000):
  """(outputs [W, ...], probabilities [W], tolerance) over all draws of fn().

  Discrete draws are enumerated with their exact probability; continuous ones
  on a full grid.
  """
  specs, _ = engine.discover(fn)
  codes = engine.n_codes(specs)
  conts = [s for s in specs if s[0] == 'c']
  g = sum(s[2] for s in conts)
  pts = 1
  if g:
    pts = int((budget / codes) ** (1.0 / g)) if codes < budget else 0
    if pts < 6:
      raise TooMany(str(specs))
  axes = [(np.arange(pts + k) + 0.5 + 0.0117 * k) / (pts + k)
          for k in range(g)]
  cells = (np.stack(np.meshgrid(*axes, indexing='ij'), -1).reshape(-1, g)
           if g else np.zeros((1, 0)))
  W = codes * len(cells)
  if W > limit:
    raise HarnessError('too many worlds: %d' % W)
  C = np.repeat(np.arange(codes), len(cells))
  G = np.tile(np.arange(len(cells)), codes)
  us, off = [], 0
  for s in conts:
    us.append(cells[G][:, off:off + s[2]])
    off += s[2]
  out, lp = engine.run_worlds(lambda _: fn(), np.zeros((W, 1)), C, us, specs,
                              chunk=60000)
  return out, np.exp(lp) / len(cells), (max(TOL_GRID, 0.6 / pts) if g else TOL)
