"""C25: sweeps launch each setting once; result folders map back to settings."""
import contextlib
import csv
import glob
import io
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from mc import xm_stub
xm_stub.install()
import matplotlib
matplotlib.use('Agg')
import numpy as np
from absl import flags
from discs import xm_launcher
from discs.plot_results import plot_results
from discs.plot_results import plot_utils
from mc import report
from mc.report import guarded

F = flags.FLAGS
BASE_FLAGS = set(F)
REPO = os.path.dirname(os.path.dirname(os.path.abspath(xm_launcher.__file__)))
PATTERN = '/scratch/{user}/{exp_name}_{exp_id}'
PREFIXES = ('config.experiment.', 'model_config.', 'sampler_config.')


def reset_flags(argv):
  if F.is_parsed():
    F.unparse_flags()
  for name in [x for x in F if x not in BASE_FLAGS and '.' in x]:
    delattr(F, name)
  sys.argv = list(argv)
  F(argv)


def launch(path, local=False):
  argv = ['launcher', '--config=' + path, '--save_folder_pattern=' + PATTERN]
  argv.append('--launch_locally=%s' % ('true' if local else 'false'))
  reset_flags(argv)
  with contextlib.redirect_stdout(io.StringIO()):
    xm_launcher.main(['launcher'])
  return xm_stub.Experiment.last


def load(path):
  ns = {}
  exec(compile(open(path).read(), path, 'exec'), ns)
  return ns['get_config']()


def expected(cfg):
  """Every element of the product of each block, as a dict."""
  out = []
  for block in cfg.sweep:
    block = dict(block)
    keys = list(block)
    for vals in itertools.product(*[list(block[k]) for k in keys]):
      out.append(dict(zip(keys, vals)))
  return out


def short(k):
  for p in PREFIXES:
    if k.startswith(p):
      return k[len(p):].split('.')[-1]
  return k.split('.')[-1]


def lossy(k, v):
  """Values the folder name cannot carry verbatim."""
  if not isinstance(v, str):
    return isinstance(v, (tuple, list))
  return any(c in v for c in ",='/(")


def freeze(d):
  return frozenset((k, repr(v)) for k, v in d.items())


def check_jobs(chk, lab, path, local=False):
  """The launched jobs are exactly the product; returns the jobs."""
  cfg = load(path)
  want = expected(cfg)
  exp = launch(path, local)
  rep = dict(config=path)
  jobs = []
  for u in exp.units:
    if len(u.jobs) != 1:
      chk.violation('%s: work unit with %d jobs' % (lab, len(u.jobs)),
                    key='unit:' + lab, replay=rep)
      return None
    jobs.append(dict(u.jobs[0].args))
  chk.count(states=len(jobs), transitions=len(jobs), traces=1)
  sweep_keys = set(k for w in want for k in w)
  got = []
  for j in jobs:
    got.append(j)
  # match every job with one element
  pool = {}
  for w in want:
    pool.setdefault(freeze(w), []).append(w)
  matched = []
  for j in got:
    hit = None
    for w in want:
      fz = freeze(w)
      if not pool.get(fz):
        continue
      if all(k in j and repr(j[k]) == repr(v) for k, v in w.items()) and not (
          [k for k in sweep_keys - set(w) if k in j and k not in
           ('model_config.data_root', 'model_config.graph_type')]):
        hit = fz
        break
    if hit is None:
      chk.violation('%s: launched a job that is no element of the sweep (or '
                    'twice): %s' % (lab, j), key='extra:' + lab, replay=rep)
      return None
    matched.append(pool[hit].pop())
  left = [w for ws in pool.values() for w in ws]
  if left:
    chk.violation('%s: no job launched for %s' % (lab, left[0]),
                  key='missing:' + lab, replay=rep)
    return None
  # arguments besides the swept ones
  sname = cfg.sampler
  gtype = cfg.get('graph_type', None)
  roots = set()
  for j, w in zip(got, matched):
    name = w.get('sampler_config.name', sname)
    must = {
        'model_config': 'models/configs/%s_config.py' % cfg.model,
        'sampler_config': 'samplers/configs/%s_config.py' % name,
    }
    if gtype:
      must['config'] = 'experiment/configs/%s/%s.py' % (cfg.model, gtype)
    elif cfg.model == 'text_infilling':
      must['config'] = 'experiment/configs/lm_experiment.py'
    else:
      must['config'] = 'common/configs.py'
    for k, tail in must.items():
      if not str(j.get(k, '')).endswith('/discs/' + tail):
        chk.violation('%s: job %s started with --%s=%s, should be %s' % (
            lab, w, k, j.get(k), tail), key='arg:%s:%s' % (k, lab), replay=rep)
        return None
    if gtype and j.get('model_config.graph_type') != gtype:
      chk.violation('%s: job %s has graph type %s, should be %s' % (
          lab, w, j.get('model_config.graph_type'), gtype),
          key='graph_type:' + lab, replay=rep)
      return None
    extra = set(j) - set(w) - set(must) - {
        'model_config.graph_type', 'model_config.data_root',
        'config.experiment.save_root'}
    if extra:
      chk.violation('%s: job %s carries arguments nobody asked for: %s' % (
          lab, w, sorted(extra)), key='unasked:' + lab, replay=rep)
      return None
    root = j.get('config.experiment.save_root', '')
    if root in roots:
      chk.violation('%s: two jobs save to %s' % (lab, root),
                    key='root:' + lab, replay=rep)
      return None
    roots.add(root)
  parents = set(os.path.dirname(r) for r in roots)
  if len(parents) > 1:
    chk.violation('%s: result folders of one sweep lie in %s' % (lab, parents),
                  key='parents:' + lab, replay=rep)
    return None
  # back from the folder name
  for j, w in zip(got, matched):
    base = os.path.basename(j['config.experiment.save_root'])
    back = plot_utils.get_experiment_config(base)
    for k, v in w.items():
      s = short(k)
      if any(short(o) == s for o in list(w)[list(w).index(k) + 1:]):
        continue       # two settings of one short name: the later one counts
      if s not in back:
        chk.violation('%s: folder %r does not tell %s' % (lab, base, s),
                      key='fold:%s:%s' % (s, lab), replay=rep)
        return None
      if not lossy(k, v) and s != 'cfg_str' and back[s] != str(v):
        chk.violation('%s: folder %r gives %s=%s, the job ran with %s' % (
            lab, base, s, back[s], v), key='val:%s:%s' % (s, lab), replay=rep)
        return None
    more = set(back) - set(short(k) for k in w)
    if more:
      chk.violation('%s: folder %r yields settings %s never swept' % (
          lab, base, sorted(more)), key='more:' + lab, replay=rep)
      return None
  chk.cover('jobs', len(jobs))
  return list(zip(got, matched))


def norm(v):
  if isinstance(v, str) and v.startswith('('):
    return repr(eval(v))
  if isinstance(v, str):
    return repr(v)
  if isinstance(v, list):
    v = tuple(v)
  if isinstance(v, (int, float)) and not isinstance(v, bool):
    return repr(float(v))
  return repr(v)


def accepted(chk, lab, path, jobs):
  """The real main script accepts every job and keeps all its settings."""
  tmp = tempfile.mkdtemp(prefix='c25_')
  try:
    args = []
    for j, _ in jobs:
      a = {}
      for k, v in j.items():
        if k in ('config', 'model_config', 'sampler_config'):
          v = os.path.join(REPO, 'discs', v.split('/discs/', 1)[1])
        a[k] = v
      args.append(a)
    src, dst = os.path.join(tmp, 'i.pkl'), os.path.join(tmp, 'o.pkl')
    pickle.dump(args, open(src, 'wb'))
    r = subprocess.run([sys.executable, '-m', 'mc.merge_worker', src, dst],
                       capture_output=True, text=True, cwd=REPO)
    if r.returncode:
      chk.violation('%s: main script cannot be imported: %s' % (
          lab, r.stderr[-600:]), key='merge:' + lab, replay=dict(config=path))
      return
    out = pickle.load(open(dst, 'rb'))
  finally:
    shutil.rmtree(tmp)
  for (j, w), o in zip(jobs, out):
    rep = dict(config=path, job=j)
    chk.count(states=1, transitions=1, traces=1)
    if o[0] != 'ok':
      chk.violation('%s: the main script rejects the launched job %s: %s' % (
          lab, w, o[1]), key='reject:' + lab, replay=rep)
      return
    full = dict(w)
    for k in ('config.experiment.save_root', 'model_config.graph_type'):
      if k in j:
        full[k] = j[k]
    for k, v in full.items():
      head, rest = k.split('.', 1)
      p = {'config': rest, 'model_config': 'model.' + rest,
           'sampler_config': 'sampler.' + rest}[head]
      cur = o[1]
      for part in p.split('.'):
        cur = cur.get(part) if isinstance(cur, dict) else None
      if norm(cur) != norm(v):
        chk.violation('%s: the job asks for %s=%s but runs with %s' % (
            lab, k, v, cur), key='lost:%s:%s' % (k, lab), replay=rep)
        return
  chk.cover('jobs merged', len(jobs))


def fake_results(kind, i):
  if kind == 'lm':
    return 'results_topk.pkl', {'infill_sents': ['x'], 'self_bleu': 1000.0 + i,
                                'tbc_bleu': 2000.0 + i}
  d = (i % 7 + 1) / 64.0
  best = np.array([1000.0 + i - d, 1000.0 + i + d])
  return 'results.pkl', {
      'best_ratio': best, 'running_time': 1.0,
      'trajectory': np.stack([best - 500.0, best - [300.0, 0.5], best]),
      'best_ratio_mean': 1000.0 + i}


def other_cell(kind, i):
  """A second column of the table and the value it must show for run i."""
  if kind == 'lm':
    return 'tbc_bleu', 2000.0 + i
  return 'best_ratio_std', (i % 7 + 1) / 64.0


FAMILY = {'hammingball': 'hb', 'blockgibbs': 'bg', 'randomwalk': 'rwm',
          'path_auxiliary': 'pas', 'dmala': 'dmala', 'gwg': 'gwg',
          'dlmc': 'dlmc'}


def table(chk, lab, path, jobs, kind, key='name'):
  """Summary tables built from the result folders show every run once."""
  top = tempfile.mkdtemp(prefix='c25_')
  cwd = os.getcwd()
  model = load(path).model
  try:
    root = 'discs-%s-sweep_1' % model
    for i, (j, _) in enumerate(jobs):
      d = os.path.join(top, root,
                       os.path.basename(j['config.experiment.save_root']))
      os.makedirs(d)
      fn, res = fake_results(kind, i)
      pickle.dump(res, open(os.path.join(d, fn), 'wb'))
    os.chdir(top)
    reset_flags(['plot', '--config=' + path, '--gcs_results_path=./' + root,
                 '--evaluation_type=' + kind, '--key=' + key])
    with contextlib.redirect_stdout(io.StringIO()):
      plot_results.main(['plot'])
    files = [f for f in glob.glob(os.path.join(top, '**', '*.csv'),
                                  recursive=True)]
    seen = {}
    odd = ''
    for f in files:
      for row in csv.DictReader(open(f, newline='')):
        col = 'self_bleu' if kind == 'lm' else 'best_ratio_mean'
        cell = row[col].replace('np.float64(', '').replace(')', '')
        nums = [int(round(float(v))) - 1000
                for v in cell.strip('[]').split(',')]
        for v in nums:
          seen.setdefault(v, []).append((f, row['sampler']))
        col = other_cell(kind, 0)[0]
        cell = row.get(col, '').replace('np.float64(', '').replace(')', '')
        try:
          got = [float(v) for v in cell.strip('[]').split(',')]
        except ValueError:
          got = []
        for k, v in enumerate(nums):
          want = other_cell(kind, v)[1]
          if not odd and (len(got) != len(nums) or
                          not abs(got[k] - want) < 1e-6):
            odd = '%s: column %s of run %d shows %s, should be %g' % (
                lab, col, v, cell, want)
  finally:
    os.chdir(cwd)
    shutil.rmtree(top)
  chk.count(states=len(jobs), transitions=1, traces=1)
  groups = {}
  if odd:
    chk.violation(odd, key='cell:' + lab, replay=dict(config=path))
    return
  for i, (j, w) in enumerate(jobs):
    rep = dict(config=path, run=j)
    at = seen.get(i, [])
    if len(at) != 1:
      chk.violation('%s: the result of run %s appears %d times in the summary '
                    'tables' % (lab, w, len(at)), key='table:' + lab,
                    replay=rep)
      return
    f, name = at[0]
    fam = FAMILY[w['sampler_config.name']]
    tag = {'SQRT': '(s)', 'RATIO': '(r)', 'MIN': '(min)', 'MAX': '(max)'}.get(
        w.get('sampler_config.balancing_fn_type'))
    solver = w.get('sampler_config.solver')
    ok = name.startswith(fam) and (tag is None or tag in name)
    if fam == 'dlmc' and solver:
      ok = ok and (name.startswith('dlmcf') == (solver == 'euler_forward'))
    if 'sampler_config.adaptive' in w:
      ok = ok and ('-nA' in name) == (not w['sampler_config.adaptive'])
    if not ok:
      chk.violation('%s: the result of run %s is shown as sampler %r' % (
          lab, w, name), key='row:' + lab, replay=rep)
      return
    rest = freeze({k: v for k, v in w.items()
                   if not k.startswith('sampler_config.')})
    groups.setdefault(f, set()).add(rest)
  for f, gs in groups.items():
    if len(gs) > 1:
      chk.violation('%s: one table mixes runs with different settings: %s' % (
          lab, [sorted(g) for g in list(gs)[:2]]), key='mix:' + lab,
          replay=dict(config=path))
      return
  chk.cover('tables', len(files))


def shipped(chk, path):
  lab = path.split('run_configs/')[1]
  jobs = check_jobs(chk, lab, path)
  if jobs is None:
    return
  check_jobs(chk, lab + ' (local)', path, local=True)
  accepted(chk, lab, path, jobs)
  if '/co/' in path:
    table(chk, lab, path, jobs, 'co')
  elif '/lm/' in path:
    table(chk, lab, path, jobs, 'lm')


KEYS = (
    ('sampler_config.name', (['gwg'], ['dmala', 'dlmc'])),
    ('config.experiment.chain_length', ([5], [10, 100, 1])),
    ('model_config.init_sigma', ([0.5], [1e-05, -1.5])),
    ('sampler_config.adaptive', ([True], [True, False])),
    ('model_config.cfg_str', (['r-b'], ['r-ba-4-n-16-20', 'r-b'])),
)


def synthetic(chk, model, extra, blocks, idx):
  top = tempfile.mkdtemp(prefix='c25_')
  try:
    path = os.path.join(top, 'grp', 'sweep_%d.py' % idx)
    os.makedirs(os.path.dirname(path))
    with open(path, 'w') as f:
      f.write('from ml_collections import config_dict\n'
              'def get_config():\n'
              '  return config_dict.ConfigDict(dict(model=%r, sampler=%r, '
              'sweep=%r, **%r))\n' % (model, 'path_auxiliary', blocks, extra))
    check_jobs(chk, 'synthetic %s %s' % (model, blocks), path)
  finally:
    shutil.rmtree(top)


def one_blocks(limit):
  for m in range(1, limit + 1):
    for ks in itertools.permutations(range(len(KEYS)), m):
      for vs in itertools.product((0, 1), repeat=m):
        yield {KEYS[k][0]: KEYS[k][1][v] for k, v in zip(ks, vs)}


CLUSTER_KEYS = ('chain_length', 'num_categories', 'balancing_fn_type')


def clusters(chk, universe):
  """All run sets: clusters partition the runs and mix nothing."""
  settings = [dict(name=n, a=a, b=b) for n in ('rwm', 'gwg(s)')
              for a in ('1', '2') for b in ('1', '2')]
  for m in range(1, universe + 1):
    for runs in itertools.permutations(settings, m):
      for key in ('name', 'a', 'b'):
        got = plot_utils.get_clusters_key_based(key, [dict(r) for r in runs])
        chk.count(states=1, transitions=1, traces=1)
        flat = sorted(i for c in got for i in c)
        bad = flat != list(range(m))
        want = {}
        for i, r in enumerate(runs):
          want.setdefault(tuple(r[k] for k in ('a', 'b') if k != key),
                          []).append(i)
        if bad or sorted(map(sorted, got)) != sorted(want.values()):
          chk.violation('runs %s compared by %s are grouped as %s, should be '
                        '%s' % (runs, key, got, sorted(want.values())),
                        key='cluster:' + key, replay=dict(runs=runs, key=key))
          return
  chk.cover('cluster sets')


def body(chk):
  q = chk.quick
  depth = 3 if q else 4
  chk.bounds.append(
      'all shipped sweep configurations; all single-block sweeps of up to %d '
      'of %d settings (all orders, one or several values each) and all pairs of '
      'blocks of at most %d settings, for a classical and a graph model; all run '
      'sets of up to %d runs for grouping' % (depth, len(KEYS), 1 if q else 2, 4 if q else 5))
  chk.assumptions.append(
      'the xmanager package is replaced by a recording stand-in; values '
      'containing a comma or slash (shapes, paths, composite graph names) are '
      'only required to be present, not verbatim; the configured swept samplers '
      'are the documented ones')
  jobs = []
  for p in sorted(glob.glob(os.path.join(REPO, 'discs/run_configs/**/*.py'),
                            recursive=True)):
    if not p.endswith('__init__.py'):
      jobs.append((shipped, p))
  idx = 0
  for b in one_blocks(depth):
    for model, extra in (('ising', {}), ('maxcut', {'graph_type': 'ba'})):
      idx += 1
      jobs.append((synthetic, model, extra, [b], idx))
  small = list(one_blocks(1 if q else 2))
  for a, b in itertools.product(small, repeat=2):
    idx += 1
    jobs.append((synthetic, 'potts', {}, [a, b], idx))
  jobs.append((clusters, 4 if q else 5))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, str(j[1:])[:200]), j[0], chk,
              *j[1:])


if __name__ == '__main__':
  report.run_main('C25', body, shards=(7, 8))
