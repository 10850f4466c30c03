"""C33: figures show each run's own recorded numbers."""
import glob
import importlib
import itertools
import math
import os
import pickle
import shutil
import sys
import tempfile
from mc import xm_stub
xm_stub.install()
from mc import figures
import ml_collections
import numpy as np
from absl import flags
from mc.checks import C25
from mc import report
from mc.report import guarded


def load_script(name):
  """The plotting scripts share flag names; import them side by side."""
  f = flags.FLAGS
  for n in ('gcs_results_path', 'key', 'graphtype'):
    if n in f:
      delattr(f, n)
  C25.BASE_FLAGS.update(('gcs_results_path', 'key', 'graphtype'))
  return importlib.import_module('discs.plot_results.' + name)


F = flags.FLAGS
from discs.plot_results import plot_results
plot_ais = load_script('plot_ais')
plot_est = load_script('plot_estimation_error')
plot_co = load_script('plot_co_through_time')
if 'key' not in F:
  flags.DEFINE_string('key', 'name', 'what key to plot against')
from discs.common import configs as common_configs
from discs.common import experiment_saver

FAMILY = C25.FAMILY
TAG = {'SQRT': '(s)', 'RATIO': '(r)', 'MIN': '(min)', 'MAX': '(max)'}
TEX = {'SQRT': '$\\sqrt{t}$', 'RATIO': '$\\frac{t}{t+1}$',
       'MIN': '1 \u2227 t', 'MAX': '1 \u2228 t'}
DOC_KEYS = ('chain_length', 'shape', 'num_categories', 'balancing_fn_type')


def family_ok(label, w, stripped=False):
  fam = FAMILY[w['sampler_config.name']]
  if not label.startswith(fam):
    return False
  solver = w.get('sampler_config.solver')
  if fam == 'dlmc' and solver:
    if label.startswith('dlmcf') != (solver == 'euler_forward'):
      return False
  if 'sampler_config.adaptive' in w and (
      ('-nA' in label) != (not w['sampler_config.adaptive'])):
    return False
  bal = w.get('sampler_config.balancing_fn_type')
  if bal and not stripped:
    if not any(t in label for t in (TAG[bal], TEX[bal])):
      return False
    if any(o != bal and (TAG[o] in label or TEX[o] in label) for o in TAG):
      return False
  return True


def shown(label, w):
  """Legend text as a run's own name, for exact matching between two runs."""
  return (w['sampler_config.name'], w.get('sampler_config.solver'),
          w.get('sampler_config.adaptive'),
          w.get('sampler_config.balancing_fn_type'))


def others(w, key):
  return C25.freeze({k: v for k, v in w.items()
                     if not k.startswith('sampler_config.')
                     and k.split('.')[-1] != key
                     and k.split('.')[-1] != 'save_samples'})


def settings_of(path):
  """Launch the sweep: (folder name, settings) for every run."""
  cfg = C25.load(path)
  want = C25.expected(cfg)
  exp = C25.launch(path)
  out = []
  keys = set(k for w in want for k in w)
  for u in exp.units:
    a = dict(u.jobs[0].args)
    w = {k: a[k] for k in keys if k in a}
    out.append((os.path.basename(a['config.experiment.save_root']), w))
  return cfg.model, out


# ---------------------------------------------------------------- ESS bars
def ess_values(i, form):
  """Distinct (mean, std) pairs over many orders of magnitude."""
  if form == 'wide':
    m = 10.0 ** (i % 11 - 6) * (1 + i / 500.0)
    t = 10.0 ** ((i + 4) % 9 - 3) * (1 + i / 400.0)
    s = (0.5, 0.0625, 0.1, 1e-3, 0.9)[i % 5]
    return m, m * s, t, t * s
  m = 0.01 * (1 + i / 977.0)
  t = 20.0 * (1 + i / 983.0)
  return m, 0.002 * (1 + i / 971.0), t, 3.0 * (1 + i / 967.0)


def save_ess(folder, w, vals, parallel):
  cfg = ml_collections.ConfigDict(dict(
      sampler=dict(name=w['sampler_config.name']),
      model=dict(name='m', num_categories=2, shape=(2,)),
      experiment=dict(save_root=folder, batch_size=1, chain_length=1,
                      ess_ratio=0.5, get_additional_metrics=False,
                      evaluator='ess_eval')))
  a = np.array([vals[0], vals[1]], np.float32)
  t = np.array([vals[2], vals[3]], np.float32)
  if parallel:
    a, t = a[None], t[None]
  import jax.numpy as jnp
  a, t = jnp.asarray(a), jnp.asarray(t)
  experiment_saver.build_saver(cfg).save_results(
      [], [], (a * 1000, a * 3, t, a), 1.0)


def tick_matches(text, v, key, model):
  if key == 'balancing_fn_type':
    return text == TEX[v]
  if key == 'shape':
    v = v[0] if isinstance(v, (tuple, list)) else v
    if isinstance(v, str):
      v = v.strip('()').split(',')[0]
    return text in (str(v), '%sx%s' % (v, v))
  return text == str(v) or text == str(int(float(v)))


def close(a, b, tol=2e-4):
  return abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-30


def ess_figure(chk, lab, model, runs, key, parallel, form='wide', missing=()):
  top = tempfile.mkdtemp(prefix='c33_')
  rep = dict(figure=lab, key=key, devices='several' if parallel else 'one',
             runs=[r[0] for r in runs], incomplete=list(missing))
  try:
    root = 'discs-%s-sweep_1' % model
    want = []
    for i, (base, w) in enumerate(runs):
      d = os.path.join(top, root, base)
      os.makedirs(d)
      v = ess_values(i, form)
      want.append(v)
      if i not in missing:
        save_ess(d, w, v, parallel)
    C25.reset_flags(['plot', '--gcs_results_path=./' + root,
                     '--evaluation_type=ess', '--key=' + key])
    with figures.capture(top) as shots:
      plot_results.main(['plot'])
    files = [s.fname for s in shots]
  finally:
    shutil.rmtree(top)
  shots = [s for s in shots if s.fname.endswith('.png')]
  chk.count(states=len(runs) * 2, transitions=len(shots), traces=1)
  if len(set(files)) != len(files):
    chk.violation('%s: two figures are saved under one name' % lab,
                  key='ess-file:' + lab, replay=rep)
    return
  hits = {}
  names = {}
  for s in shots:
    edges = []
    for label, rows in s.bars:
      for x, h, e, ext in rows:
        edges.append(ext)
        if h == 0:
          continue
        found = None
        for i, (base, w) in enumerate(runs):
          if i in missing:
            continue
          cl = w.get('config.experiment.chain_length')
          n = 50000 if cl is None else int(float(cl) // 2)
          # a bar belongs to a run when both label and height agree
          clock = 'clock' in s.ylabel.lower()
          for metric, m, sd in (('ee', want[i][0] * n, want[i][1] * n),
                                ('clock', want[i][2], want[i][3])):
            if close(h, m) and family_ok(label, w,
                                         key == 'balancing_fn_type') and (
                found is None or clock == (metric == 'clock')):
              found = (i, metric, sd)
        if found is None:
          chk.violation(
              '%s: the figure %s shows a bar of height %g for %s that is no '
              "run's effective sample size" % (lab, s.fname, h, label),
              key='ess-bar:' + lab, replay=rep)
          return
        i, metric, sd = found
        w = runs[i][1]
        hits.setdefault((i, metric), []).append(s.fname)
        ylab = s.ylabel.lower()
        if ('clock' in ylab) != (metric == 'clock'):
          chk.violation('%s: the %s value of run %s is drawn on the axis %r' % (
              lab, metric, w, s.ylabel), key='ess-axis:' + lab, replay=rep)
          return
        if e is None or not close(e, sd, 1e-3):
          chk.violation(
              '%s: the error bar of run %s is %s, the recorded deviation %g' % (
                  lab, w, e, sd), key='ess-err:' + lab, replay=rep)
          return
        if key != 'name' and len(s.ticks) > 1:
          tx = min(s.ticks, key=lambda t: abs(t[0] - x))
          kv = [v for k, v in w.items() if k.split('.')[-1] == key][-1]
          if not tick_matches(tx[1], kv, key, model):
            chk.violation('%s: the run %s is drawn at %s = %s' % (
                lab, w, key, tx[1]), key='ess-tick:' + lab, replay=rep)
            return
        names.setdefault(s.fname, set()).add(others(w, key))
        if not any(t == label for t, _ in s.legend):
          chk.violation('%s: %s is missing in the legend' % (lab, label),
                        key='ess-legend:' + lab, replay=rep)
          return
    edges.sort()
    for a, b in zip(edges, edges[1:]):
      if b[0] < a[1] - 1e-9:
        chk.violation('%s: bars overlap in %s' % (lab, s.fname),
                      key='ess-overlap:' + lab, replay=rep)
        return
  for i in range(len(runs)):
    for metric in ('ee', 'clock'):
      n = len(hits.get((i, metric), []))
      if n != (0 if i in missing else 1):
        chk.violation('%s: the %s value of run %s is shown %d times' % (
            lab, metric, runs[i][1], n), key='ess-count:' + lab, replay=rep)
        return
  for f, gs in names.items():
    if len(gs) > 1:
      chk.violation('%s: one figure mixes runs with different settings: %s' % (
          lab, [sorted(g) for g in list(gs)[:2]]), key='ess-mix:' + lab,
          replay=rep)
      return
  chk.cover('ESS figures', len(shots))


def ess_shipped(chk, path):
  lab = path.split('run_configs/')[1]
  model, runs = settings_of(path)
  multi = {}
  for _, w in runs:
    for k, v in w.items():
      multi.setdefault(k.split('.')[-1], set()).add(repr(v))
  keys = [k for k in DOC_KEYS if len(multi.get(k, ())) > 1 and all(
      any(x.split('.')[-1] == k for x in w) for _, w in runs)]
  name = os.path.basename(path)
  if 'lbf' in name:
    keys = [k for k in keys if k == 'balancing_fn_type']
  else:
    keys = ['name'] + [k for k in keys if k != 'balancing_fn_type']
  for key in keys:
    for par in (False, True):
      ess_figure(chk, '%s by %s' % (lab, key), model, runs, key, par)


def synth_runs(samplers, key, values, extra=()):
  path_like = {'chain_length': 'config.experiment.chain_length',
               'shape': 'model_config.shape',
               'num_categories': 'model_config.num_categories',
               'balancing_fn_type': 'sampler_config.balancing_fn_type'}[key]
  top = tempfile.mkdtemp(prefix='c33_')
  try:
    path = os.path.join(top, 'grp', 'sweep.py')
    os.makedirs(os.path.dirname(path))
    block = {'sampler_config.name': list(samplers), path_like: list(values)}
    block.update(dict(extra))
    with open(path, 'w') as f:
      f.write('from ml_collections import config_dict\n'
              'def get_config():\n'
              '  return config_dict.ConfigDict(dict(model=%r, sampler=%r, '
              'sweep=%r))\n' % ('potts', 'path_auxiliary', [block]))
    return settings_of(path)[1]
  finally:
    shutil.rmtree(top)


def ess_incomplete(chk, samplers, key, values, extra=()):
  """Every subset of the runs may not have finished."""
  runs = synth_runs(samplers, key, values, extra)
  n = len(runs)
  for m in range(2 ** n - 1):
    missing = tuple(i for i in range(n) if m >> i & 1)
    ess_figure(chk, '%s %s=%s unfinished' % ('/'.join(samplers), key, values),
               'potts', runs, key, bool(m & 1), 'plain', missing)
    if chk.full():
      return
  chk.cover('subsets of unfinished runs', 2 ** n - 1)


# ------------------------------------------------------ curves over time (CO)
def co_runs(chk, lab, model, runs, trajs, times, old=(), missing=(),
            graphtype=None):
  top = tempfile.mkdtemp(prefix='c33_')
  rep = dict(figure=lab, graphtype=graphtype or model, runs=[r[0] for r in runs],
             trajectories=[np.asarray(t).tolist() if np.size(t) < 40 else
                           list(np.shape(t)) for t in trajs],
             running_times=list(times))
  try:
    root = 'discs-%s-sweep_1' % model
    for i, (base, w) in enumerate(runs):
      d = os.path.join(top, root, base)
      os.makedirs(d)
      if i in missing:
        continue
      traj = np.asarray(trajs[i], np.float32)
      res = {'trajectory': traj, 'best_ratio': traj[-1],
             'running_time': times[i], 'best_ratio_mean': traj[-1].mean()}
      if i in old:
        with open(os.path.join(d, 'results.csv'), 'w') as f:
          f.write('best_ratio_mean,running_time\n%r,%r\n' % (
              float(traj[-1].mean()), float(times[i])))
        res = {'trajectory': traj}
      with open(os.path.join(d, 'results.pkl'), 'wb') as f:
        pickle.dump(res, f)
    C25.reset_flags(['plot', '--gcs_results_path=./' + root,
                     '--graphtype=' + (graphtype or model)])
    with figures.capture(top) as shots:
      plot_co.main(['plot'])
  finally:
    shutil.rmtree(top)
  files = [s.fname for s in shots]
  shots = [s for s in shots if s.fname.endswith('.png')]
  chk.count(states=len(runs) * 2, transitions=len(shots), traces=1)
  if len(set(files)) != len(files):
    chk.violation('%s: two figures are saved under one name' % lab,
                  key='co-file:' + lab, replay=rep)
    return
  groups = {}
  for i, (base, w) in enumerate(runs):
    if i not in missing:
      groups.setdefault(others(w, 'name'), []).append(i)
  used = set()
  for g, members in groups.items():
    for axis in ('steps', 'time'):
      want = []
      for i in members:
        traj = np.asarray(np.asarray(trajs[i], np.float32), np.float64)
        T = len(traj)
        ls = runs[i][1].get('config.experiment.log_every_steps')
        if axis == 'steps':
          x = 1 + np.arange(T) * (1000 if ls is None else int(ls))
        else:
          x = np.arange(T) / T * 2 * times[i]
        mean = traj.mean(-1)
        std = np.sqrt(((np.maximum(traj, 0) -
                        np.maximum(traj, 0).mean(-1, keepdims=True)) ** 2
                       ).mean(-1))
        want.append((i, x, mean, std))
      hit = None
      why = 'no figure shows %d curves over %s' % (len(members), axis)
      for k, s in enumerate(shots):
        if k in used or len(s.lines) != len(members) or (
            ('step' in s.xlabel.lower()) != (axis == 'steps')):
          continue
        left = list(range(len(s.lines)))
        bad = None
        for i, x, mean, std in want:
          ok = None
          for j in left:
            lb, lx, ly, col = s.lines[j]
            if (family_ok(lb, runs[i][1]) and len(lx) == len(x) and
                np.allclose(lx, x, rtol=1e-5, atol=1e-6) and
                np.allclose(ly, mean, rtol=1e-4, atol=1e-4)):
              ok = j
              break
          if ok is None:
            bad = 'no curve shows the mean recorded values of run %s' % (
                runs[i][1],)
            break
          left.remove(ok)
          if not any(len(bx) == len(x) and np.allclose(bx, x, rtol=1e-5,
                                                       atol=1e-6) and
                     np.allclose(lo, mean - std, rtol=1e-4, atol=2e-4) and
                     np.allclose(hi, mean + std, rtol=1e-4, atol=2e-4)
                     for bx, lo, hi in s.bands) and len(x) > 1:
            bad = 'no band shows the spread of run %s' % (runs[i][1],)
            break
        if bad is None:
          # legend: all curves, best final value first
          last = {}
          for lb, lx, ly, col in s.lines:
            last[lb] = (ly[-1], col)
          if len(last) == len(s.lines):
            order = []
            for t, col in s.legend:
              m = [lb for lb in last if t.endswith('=' + lb) or t == lb]
              if len(m) != 1 or last[m[0]][1] != col:
                bad = 'the legend entry %r is no curve of the figure' % t
                break
              order.append(last[m[0]][0])
            if bad is None and (len(order) != len(last) or any(
                a < b - 1e-6 for a, b in zip(order, order[1:]))):
              bad = 'the legend does not list the curves from best to worst'
        if bad is None:
          hit = k
          break
        why = bad
      if hit is None:
        chk.violation('%s: %s (over %s)' % (lab, why, axis),
                      key='co:%s:%s' % (lab, why[:20]), replay=rep)
        return
      used.add(hit)
  if len(used) != len(shots):
    chk.violation('%s: %d figures are drawn, the runs make %d' % (
        lab, len(shots), len(used)), key='co-extra:' + lab, replay=rep)
    return
  chk.cover('curve figures', len(shots))


def some_traj(i, T, I):
  v = (np.arange(T * I).reshape(T, I) * 37 + i * 11) % 41 - 7.0
  return np.maximum.accumulate(v, 0) * (1 + i / 10.0) + 0.125 * i


def co_shipped(chk, path):
  lab = path.split('run_configs/')[1]
  model, runs = settings_of(path)
  trajs = [some_traj(i, 5 + i % 3, 1 + i % 4) for i in range(len(runs))]
  times = [0.5 + 3.25 * i for i in range(len(runs))]
  co_runs(chk, lab, model, runs, trajs, times)
  co_runs(chk, lab + ' (some unfinished, some old)', model, runs, trajs, times,
          old=set(range(1, len(runs), 3)), missing=set(range(0, len(runs), 4)))


def co_synth(samplers):
  top = tempfile.mkdtemp(prefix='c33_')
  try:
    path = os.path.join(top, 'grp', 'sweep.py')
    os.makedirs(os.path.dirname(path))
    block = {'sampler_config.name': list(samplers),
             'config.experiment.log_every_steps': [10]}
    with open(path, 'w') as f:
      f.write('from ml_collections import config_dict\n'
              'def get_config():\n'
              '  return config_dict.ConfigDict(dict(model=%r, sampler=%r, '
              "graph_type='ba', sweep=%r))\n" % (
                  'maxcut', 'path_auxiliary', [block]))
    return settings_of(path)[1]
  finally:
    shutil.rmtree(top)


def co_lengths(chk, lo, hi):
  """Every number of recorded points."""
  runs = co_synth(['dmala'])
  for T in range(lo, hi):
    co_runs(chk, 'curve of %d points' % T, 'maxcut', runs,
            [some_traj(1, T, 2)], [7.5])
    if chk.full():
      return
  chk.cover('curve lengths', hi - lo)


def co_matrices(chk, T, I, vals):
  """All recorded trajectories over a small value set, two samplers."""
  runs = co_synth(['gwg', 'dmala'])
  allv = list(itertools.product(vals, repeat=T * I))
  for k, a in enumerate(allv):
    b = allv[(k * 7 + 3) % len(allv)]
    co_runs(chk, 'trajectories %dx%d' % (T, I), 'maxcut', runs,
            [np.reshape(a, (T, I)), np.reshape(b, (T, I))], [2.0, 3.5])
    if chk.full():
      return
  chk.cover('trajectory matrices', len(allv))


# ------------------------------------------------------------ log partition
def ais_runs(chk, names, T, i0):
  top = tempfile.mkdtemp(prefix='c33_')
  lab = 'log partition curves of %s, %d steps' % ('/'.join(names), T)
  try:
    root = 'discs-binary_ebm-logz_1'
    curves = {}
    for i, n in enumerate(names):
      base, _, bal = n.partition(':')
      d = os.path.join(top, root, "%d_name='%s'%s" % (
          i, base, ",balancing_fn_type='%s'" % bal if bal else ''))
      cfg = ml_collections.ConfigDict(dict(experiment=dict(save_root=d)))
      v = [np.float32(-3.0 + 0.5 * k + 10 * (i + i0) + (k * k) % 7)
           for k in range(T)]
      experiment_saver.build_saver(cfg).save_logz(v)
      curves[n] = np.array(v, float)
    C25.reset_flags(['plot', '--gcs_results_path=./' + root, '--key=name'])
    with figures.capture(top) as shots:
      plot_ais.main(['plot'])
  finally:
    shutil.rmtree(top)
  shots = [s for s in shots if s.fname.endswith('.png')]
  chk.count(states=len(names), transitions=len(shots), traces=1)
  rep = dict(figure=lab)
  lines = [l for s in shots for l in s.lines]
  if len(shots) != 1 or len(lines) != len(names):
    chk.violation('%s: %d figures with %d curves' % (
        lab, len(shots), len(lines)), key='ais-n', replay=rep)
    return
  fam = dict(FAMILY, randomwalk='r')
  if len(set(l[0] for l in lines)) != len(lines):
    chk.violation('%s: two curves carry the same label' % lab, key='ais-label',
                  replay=rep)
    return
  for n, v in curves.items():
    n = n.partition(':')[0]
    m = [l for l in lines if l[0].startswith(fam[n]) and (
        len(l[2]) == T and np.allclose(l[2], v))]
    if len(m) != 1 or len(m[0][2]) != T or not np.allclose(m[0][2], v) or (
        not np.allclose(np.diff(m[0][1]), 1)):
      chk.violation('%s: the curve of %s does not show its recorded values' % (
          lab, n), key='ais:' + n, replay=rep)
      return
  chk.cover('log partition figures')


# -------------------------------------------------------- estimation error
def estimation(chk, names, T, B, dim, seed):
  top = tempfile.mkdtemp(prefix='c33_')
  cfg = common_configs.get_config()
  W, S = cfg.experiment.window_size, cfg.experiment.window_stride
  lab = 'estimation errors of %s, %d samples of %d chains (window %d/%d)' % (
      '/'.join(names), T, B, W, S)
  rep = dict(figure=lab)
  try:
    root = 'discs-bernoulli-est_1'
    want = {}
    for i, n in enumerate(names):
      d = os.path.join(top, root, "%d_name='%s'" % (i, n))
      scfg = ml_collections.ConfigDict(dict(experiment=dict(save_root=d)))
      k = np.arange(T * B * dim)
      x = (((k * (k + 3 * i + seed)) // 3) % 5 < 2 + i % 2).astype(np.int32)
      x = x.reshape(T, B, dim)
      lg = np.linspace(-1.5, 1.0 + i, dim).astype(np.float32)
      s = experiment_saver.build_saver(scfg)
      s.dump_samples(list(x))
      s.dump_params({'params': lg})
      p = 1 / (1 + np.exp(-lg.astype(float)))
      es = []
      for a in range(0, T, S):
        if T - a < W:
          break
        es.append(((x[a:a + W].mean(0) - p) ** 2).mean())
      want[n] = np.array(es)
    C25.reset_flags(['plot', '--gcs_results_path=./' + root])
    with figures.capture(top) as shots:
      plot_est.main(['plot'])
  finally:
    shutil.rmtree(top)
  chk.count(states=len(names), transitions=len(shots), traces=1)
  lines = [l for s in shots[-1:] for l in s.lines]
  if len(shots) < 1 or len(lines) != len(names):
    chk.violation('%s: %d figures with %d curves' % (
        lab, len(shots), len(lines)), key='est-n', replay=rep)
    return
  fam = dict(FAMILY, randomwalk='r', path_auxiliary='pa')
  for n, v in want.items():
    m = [l for l in lines if l[0].startswith(fam[n])]
    if len(m) != 1 or len(m[0][2]) != len(v) or not np.allclose(
        m[0][2], v, rtol=1e-4, atol=1e-6):
      chk.violation('%s: the curve of %s is not its windowed error' % (lab, n),
                    key='est:' + n, replay=rep)
      return
  chk.cover('estimation error figures')


# ------------------------------------------------------ acceptance and hops
def step_lines(chk, T):
  """The value of each step, one curve per figure, run after run."""
  import matplotlib.figure
  top = tempfile.mkdtemp(prefix='c33_')
  seen = []
  orig = matplotlib.figure.Figure.savefig

  def savefig(self, fname, *a, **k):
    seen.append((str(fname), [(np.array(l.get_xdata(), float),
                               np.array(l.get_ydata(), float))
                              for ax in self.axes for l in ax.get_lines()]))
  try:
    cfg = ml_collections.ConfigDict(dict(
        sampler=dict(name='gwg'), model=dict(name='ising'),
        experiment=dict(save_root=top, get_additional_metrics=True,
                        evaluator='co_eval')))
    s = experiment_saver.build_saver(cfg)
    matplotlib.figure.Figure.savefig = savefig
    want = []
    for r in range(2):
      acc = [np.float32(((7 * k + r) % 11) / 11) for k in range(T)]
      hop = [np.float32((5 * k + r) % 13) for k in range(T)]
      want += [acc, hop]
      s.save_results(acc, hop, None, 1.0)
  finally:
    matplotlib.figure.Figure.savefig = orig
    shutil.rmtree(top)
  chk.count(states=4, transitions=len(seen), traces=1)
  for (fn, ls), v in zip(seen, want):
    if len(ls) != 1 or len(ls[0][1]) != T or not np.allclose(
        ls[0][1], v) or not np.allclose(ls[0][0], 1 + np.arange(T)):
      chk.violation('the figure %s of %d steps shows %d curves, or not the '
                    'value of each step' % (os.path.basename(fn), T, len(ls)),
                    key='metrics', replay=dict(T=T))
      return
  names = [f for f, _ in seen]
  if len(seen) != 4 or names[0] == names[1]:
    chk.violation('acceptance and hops are saved to %s' % names,
                  key='metrics-file', replay=dict(T=T))


def body(chk):
  q = chk.quick
  nlen = 260 if q else 1100
  chk.bounds.append(
      'all shipped classical and graph sweeps as result folders (one device and '
      'several); every subset of unfinished runs of sweeps of up to %d runs for '
      'four keys; every curve length 1..%d; all trajectories of up to %s '
      'recorded values over {-1, 0.5, 2}' % (6 if q else 8, nlen - 1,
                                             '2x2' if q else '3x2'))
  chk.assumptions.append(
      'a figure is judged by the curves, bars, bands, ticks and legend it holds '
      'when it is saved; titles, limits and reference lines are not judged; '
      'runs of one figure have distinct sampler names; every key value is run '
      'for every sampler; the step axis of a curve starts at 1')
  jobs = []
  for p in sorted(glob.glob(os.path.join(C25.REPO, 'discs/run_configs/**/*.py'),
                            recursive=True)):
    if p.endswith('__init__.py'):
      continue
    if '/classical_models/' in p:
      jobs.append((ess_shipped, p))
    elif '/co/' in p:
      jobs.append((co_shipped, p))
  two = ['gwg', 'dmala']
  for args in ((two, 'num_categories', [2, 4, 8]),
               (two, 'chain_length', [100, 1000, 30]),
               (two, 'shape', [(3, 3), (20, 20), (100, 100)]),
               (['randomwalk', 'gwg'], 'shape', [(3,), (20,), (100,)]),
               (two, 'balancing_fn_type', ['SQRT', 'RATIO', 'MAX']),
               (['path_auxiliary', 'randomwalk', 'hammingball'],
                'num_categories', [4, 16])):
    jobs.append((ess_incomplete,) + args)
  if not q:
    jobs.append((ess_incomplete, two, 'num_categories', [2, 4, 8, 16]))
    jobs.append((ess_incomplete, two, 'balancing_fn_type',
                 ['SQRT', 'RATIO', 'MAX', 'MIN']))
  step = 20
  for a in range(1, nlen, step):
    jobs.append((co_lengths, a, min(a + step, nlen)))
  vals = (-1.0, 0.5, 2.0)
  for T, I in ((1, 1), (2, 1), (1, 2), (2, 2)) + (() if q else ((3, 1), (3, 2))):
    jobs.append((co_matrices, T, I, vals))
  allnames = list(FAMILY)
  for m in (1, 2, 3, 7):
    for names in itertools.combinations(allnames, m):
      jobs.append((ais_runs, names, 1 + m, 0))
  for T in (99, 100, 101, 150, 257):
    jobs.append((ais_runs, allnames[:3], T, 0))
  local = [n for n in ('gwg', 'dmala', 'path_auxiliary', 'dlmc')
           if n in FAMILY]
  for m in (1, 2, len(local)):
    for names in itertools.combinations(local, m):
      for bals in (('SQRT', 'RATIO'), ('RATIO', 'SQRT', 'MAX', 'MIN')):
        jobs.append((ais_runs, [n + ':' + b for n in names for b in bals], 4, 0))
  for m in (1, 2, 7):
    for k, names in enumerate(itertools.combinations(allnames, m)):
      for T in ((9, 10, 11, 29, 30, 31) if m == 1 else (30,)):
        jobs.append((estimation, names, T, 2, 3, k))
  for T in range(1, 12):
    jobs.append((step_lines, T))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, str(j[1:])[:200]), j[0], chk,
              *j[1:])


if __name__ == '__main__':
  report.run_main('C33', body, shards=(6, 8))
