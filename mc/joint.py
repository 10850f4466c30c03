"""Two chains in one batch: all pairs of states under all draw scripts."""
import jax.numpy as jnp
import numpy as np

from mc import cfgs, engine, kernels, targets
from mc.report import HarnessError


class Joint:
  """Outcome tables of a two-chain step.

  Worlds are indexed by (pair of states, script); `alpha[:, c]` is the measured
  threshold of chain c on its acceptance draw (nan when it does not matter).
  """

  def __init__(self, nm, shape, n, over, co, word, tgt=('generic', 0, 1.5)):
    self.s = cfgs.build(nm, shape, n, co, **over)
    self.m = targets.ToyModel(shape, n, *tgt)
    self.xs = engine.all_states(shape, n)
    self.state = kernels.warm(self.s, shape, n, word)
    self.step = kernels.stepper(self.s, self.m, self.m.params, self.state)
    S = len(self.xs)
    self.S = S
    self.pairs = np.stack([np.stack([a, b]) for a in self.xs for b in self.xs])
    with engine.scripted(engine.Ctx()) as ctx:
      self.step(jnp.asarray(self.pairs[0]))
    specs, self.keys = ctx.found, ctx.keys
    self.specs = specs
    conts = [c for c in specs if c[0] == 'c']
    self.conts = conts
    self.has_acc = bool(conts) and conts[-1][2] == 2 and specs[-1][0] == 'c'
    self.n_codes = engine.n_codes(specs)
    prop = conts[:-1] if self.has_acc else conts
    gdim = sum(c[2] for c in prop)
    self.gdim = gdim
    self.cells = np.zeros((1, 0))
    if gdim:
      gr = np.array([0.31, 0.77])
      self.cells = np.stack(np.meshgrid(
          *[gr + 0.013 * k for k in range(gdim)], indexing='ij'),
          -1).reshape(-1, gdim)
    self.n_scripts = self.n_codes * len(self.cells)
    W = len(self.pairs) * self.n_scripts
    if W > 700000:
      raise HarnessError('joint exploration too large: %d' % W)
    idx = np.arange(W)
    self.P = idx // self.n_scripts
    self.K = idx % self.n_scripts
    self.runs = 0
    self.y0, self.acc, self.lp = self.run(np.zeros((W, 2)))

  def axes(self):
    """Sizes of the random scalars behind the script index, in its order."""
    digs = [c[2] for c in self.specs if c[0] == 'd' for _ in range(c[3])]
    return tuple(digs[::-1]) + (2,) * self.gdim

  def run(self, ua):
    C = self.K // len(self.cells)
    G = self.K % len(self.cells)
    res, off = [], 0
    for c in (self.conts[:-1] if self.has_acc else self.conts):
      res.append(self.cells[G][:, off:off + c[2]])
      off += c[2]
    if self.has_acc:
      res.append(ua)

    def fn(x):
      y, acc = self.step(x)
      return y, jnp.mean(jnp.asarray(acc, jnp.float32))

    (y, acc), lp = engine.run_worlds(fn, self.pairs[self.P], C, res,
                                     self.specs)
    self.runs += len(self.P)
    return y, acc, lp

  def _same(self, a, b, ch):
    return (a[:, ch] == b[:, ch]).reshape(len(a), -1).all(1)

  def measure(self, ch, bits=17):
    """Measured acceptance threshold of chain ch; also its rejected outcome."""
    W = len(self.P)
    u = np.zeros((W, 2))
    u[:, ch] = engine.U_HI
    y1, _, _ = self.run(u)
    same = self._same(y1, self.y0, ch)
    lo, hi = np.zeros(W), np.ones(W)
    if not same.all():
      for _ in range(bits):
        mid = (lo + hi) / 2
        u[:, ch] = mid
        ym, _, _ = self.run(u)
        s = self._same(ym, self.y0, ch)
        lo, hi = np.where(s, mid, lo), np.where(s, hi, mid)
    moved = (self.y0[:, ch] != self.pairs[self.P][:, ch]).reshape(W, -1).any(1)
    thr = np.where(same, 1.0, (lo + hi) / 2)
    return np.where(same & ~moved, np.nan, thr), y1, same
