"""Capture of what a matplotlib figure shows at the moment it is saved."""
import contextlib
import io
import os
import matplotlib
matplotlib.use('Agg')
import matplotlib.figure
import matplotlib.pyplot as plt
from matplotlib import colors as mcolors
from matplotlib.container import BarContainer
import numpy as np


class Shot:
  """Lines, bands, bars and legend of one saved figure."""

  def __init__(self, fname, fig):
    self.fname = str(fname)
    self.lines, self.bands, self.bars, self.legend = [], [], [], []
    self.ticks, self.xlabel, self.ylabel, self.title = [], '', '', ''
    for ax in fig.axes:
      self.xlabel = ax.get_xlabel() or self.xlabel
      self.ylabel = ax.get_ylabel() or self.ylabel
      self.title = ax.get_title() or self.title
      for l in ax.get_lines():
        if str(l.get_label()).startswith('_'):
          continue
        self.lines.append((str(l.get_label()),
                           np.array(l.get_xdata(), float).reshape(-1),
                           np.array(l.get_ydata(), float).reshape(-1),
                           mcolors.to_hex(l.get_color())))
      for c in ax.containers:
        if not isinstance(c, BarContainer):
          continue
        err = None
        if c.errorbar is not None and c.errorbar.has_yerr:
          err = []
          for seg in c.errorbar[2][0].get_segments():
            seg = np.asarray(seg, float).reshape(-1, 2)
            err.append((seg[:, 1].max() - seg[:, 1].min()) / 2
                       if len(seg) else 0.0)
        rows = []
        for i, p in enumerate(c.patches):
          rows.append((p.get_x() + p.get_width() / 2, p.get_height(),
                       None if err is None else err[i],
                       (p.get_x(), p.get_x() + p.get_width())))
        self.bars.append((str(c.get_label()), rows))
      for c in ax.collections:
        if type(c).__name__ not in ('PolyCollection', 'FillBetweenPolyCollection'):
          continue
        for path in c.get_paths():
          v = np.asarray(path.vertices, float)
          lo, hi = {}, {}
          for x, y in v:
            lo[x] = min(lo.get(x, np.inf), y)
            hi[x] = max(hi.get(x, -np.inf), y)
          xs = sorted(lo)
          self.bands.append((np.array(xs), np.array([lo[x] for x in xs]),
                             np.array([hi[x] for x in xs])))
      leg = ax.get_legend()
      if leg is not None:
        hs = getattr(leg, 'legend_handles', None) or leg.legendHandles
        for t, h in zip(leg.get_texts(), hs):
          try:
            col = mcolors.to_hex(h.get_color())
          except AttributeError:
            col = mcolors.to_hex(h.get_facecolor())
          self.legend.append((t.get_text(), col))
      self.ticks = [(float(x), t.get_text()) for x, t in zip(
          ax.get_xticks(), ax.get_xticklabels())]


@contextlib.contextmanager
def capture(folder):
  """Run plotting code in `folder`; yields the list of figures it saves.

  Nothing is rendered: a saved figure is recorded and an empty file of that
  name is left behind, so that a file name two figures share is seen.
  """
  shots = []
  cwd = os.getcwd()
  orig = matplotlib.figure.Figure.savefig

  def savefig(self, fname, *a, **k):
    shots.append(Shot(fname, self))
    with open(fname if os.path.splitext(str(fname))[1] else str(fname) + '.png',
              'wb'):
      pass

  matplotlib.figure.Figure.savefig = savefig
  os.chdir(folder)
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      yield shots
  finally:
    os.chdir(cwd)
    matplotlib.figure.Figure.savefig = orig
    plt.close('all')
