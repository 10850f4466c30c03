"""C23: every documented model, graph type and sampler combination runs."""
import json
import math
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile

os.environ.setdefault('HF_HUB_OFFLINE', '1')
os.environ.setdefault('TRANSFORMERS_VERBOSITY', 'error')
import jax
import numpy as np
import ml_collections
from mc import graphs, report
from mc.report import guarded

REPO = '/repo'
CFG = os.path.join(REPO, 'discs')
# sampler file, extra sampler flags
SAMPLERS = [('randomwalk', {}), ('gibbs', {}), ('blockgibbs', {}),
            ('hammingball', {}), ('gwg', {}), ('path_auxiliary', {}),
            ('dlmc', {}), ('dlmc', dict(solver='euler_forward')), ('dmala', {})]
LB = [dict(balancing_fn_type=b) for b in ('RATIO', 'MAX', 'MIN')]
EXTRA = ([('gwg', o) for o in LB] + [('path_auxiliary', o) for o in LB] +
         [('dlmc', o) for o in LB] + [('dmala', o) for o in LB] +
         [('randomwalk', dict(adaptive=False)), ('dmala', dict(adaptive=False)),
          ('dlmc', dict(adaptive=False)),
          ('dlmc', dict(adaptive=False, solver='euler_forward', n=4.0)),
          ('path_auxiliary', dict(adaptive=False, num_flips=2)),
          ('gwg', dict(adaptive=False))])
TEXT = ('randomwalk', 'gwg', 'path_auxiliary', 'dlmc', 'dmala')
COMMON = {'experiment.batch_size': 4, 'experiment.chain_length': 6}
CLASSIC = {
    'bernoulli': {'model.shape': (7,)},
    'categorical': {'model.shape': (5,)},
    'ising': {'model.shape': (3, 4)},
    'potts': {'model.shape': (2, 3)},
    'fhmm': {'model.shape': (4, 3)},
}


def ebm_data(d, name, n):
  """Stored parameters and configuration of a small learned model."""
  import importlib
  mod = importlib.import_module('discs.models.' + name)
  side = 4
  nv = side * side
  base = dict(name=name, num_categories=n, shape=(nv,))
  if name == 'rbm':
    base.update(num_visible=nv, num_hidden=3)
  else:
    base.update(image_shape=(side, side), n_channels=2)
  with graphs.quiet():
    m = mod.build_model(ml_collections.ConfigDict(dict(model=dict(base))))
    p = dict(m.make_init_params(jax.random.PRNGKey(3)))
  p = jax.tree_util.tree_map(np.asarray, p)
  r = np.random.RandomState(5)
  mean = r.uniform(0.2, 0.8, (nv,) if n == 2 else (nv, n)).astype(np.float32)
  if n > 2:
    mean /= mean.sum(-1, keepdims=True)
  p['data_mean'] = mean
  pickle.dump({'params': p}, open(os.path.join(d, 'params.pkl'), 'wb'))
  with open(os.path.join(d, 'config.yaml'), 'w') as f:
    f.write(ml_collections.ConfigDict(dict(model=base)).to_yaml())


def co_data(d, problem, gtype, cfg_str):
  if gtype == 'satlib':
    items = [([[1, -2, 3], [-1, 2, -3]], 1.0), ([[1, 2, 3]], 1.0),
             ([[-1, -2, 3], [1, 2, -3]], 1.0)]
    sizes = (6, 20, 3)
  else:
    items = []
    for i in range(3):
      n = 6 if problem == 'normcut' else 5 + i % 2
      e = [(a, (a + 1) % n) for a in range(n)] + [(0, 2 + i % 2)]
      g = graphs.make(n, e, i)
      if problem == 'maxcut':
        for u, v in g.edges():
          g[u][v]['weight'] = 1.0
      items.append((g, 3))
    sizes = (6, 20, 3)
    if gtype == 'nets':
      items = items[:1]
      sizes = None
  graphs.write(d, problem, gtype, cfg_str, items)
  red = {}
  if sizes and gtype not in ('optsicom', 'nets', 'er_density'):
    red = {'model.max_num_nodes': sizes[0], 'model.max_num_edges': sizes[1],
           'model.num_instances': sizes[2]}
  return red, len(items)


def text_data(d):
  from mc.checks import C29
  tasks = [dict(sentence='the [MASK] sat [MASK] mat', infill_pos=[2, 4]),
           dict(sentence='[MASK] cat sat on [MASK]', infill_pos=[1, 5])]
  w = C29.World(tasks, size=30522, hidden=2)
  for f in os.listdir(w.d):
    shutil.copy(os.path.join(w.d, f), d)
  w.close()
  for fn in ('wiki103_remove_infill.5k.txt', 'tbc_remove_infill.5k.txt'):
    with open(os.path.join(d, fn), 'w') as f:
      f.write('the cat sat on mat\na dog ran in the sun\n')


def job_of(top, i, kind, name, gtype, cfg_str, sampler, over, exp, data):
  """(job for the worker, expectations)."""
  d = os.path.join(top, 'run%d' % i)
  os.makedirs(d)
  args = {'model_config': '%s/models/configs/%s_config.py' % (CFG, name),
          'sampler_config': '%s/samplers/configs/%s_config.py' % (CFG, sampler),
          'config': CFG + '/common/configs.py', 'run_local': 'True'}
  red = dict(COMMON)
  want = {'model.name': name, 'sampler.name': sampler}
  for k, v in over.items():
    args['sampler_config.' + k] = v
    want['sampler.' + k] = v
  if kind == 'co':
    args['config'] = '%s/experiment/configs/%s/%s.py' % (CFG, name, gtype)
    args['model_config.graph_type'] = gtype
    args['model_config.cfg_str'] = cfg_str
    args['model_config.data_root'] = data['dir']
    red.update(data['red'])
    red.update({'model.num_models': 4, 'experiment.num_models': 4,
                'experiment.log_every_steps': 2})
    want.update({'model.graph_type': gtype, 'experiment.evaluator': 'co_eval',
                 'experiment.name': 'CO_Experiment',
                 'experiment.co_opt_prob': True})
  elif kind == 'text':
    args['config'] = CFG + '/experiment/configs/lm_experiment.py'
    args['model_config.data_root'] = data['dir']
    args['model_config.bert_model'] = data['dir']
    red.update({'model.shape': (2,), 'experiment.batch_size': 1,
                'experiment.chain_length': 3, 'experiment.num_same_resample': 2,
                'experiment.topk_num': 1})
    args['config.experiment.use_topk'] = 'True'
    want.update({'experiment.name': 'Text_Infilling_Experiment',
                 'experiment.evaluator': 'lm_eval'})
  else:
    red.update(CLASSIC.get(name, {}))
    want['experiment.evaluator'] = 'ess_eval'
    if kind == 'ebm':
      args['model_config.data_path'] = data['dir']
      args['model_config.num_categories'] = data['n']
      args['config.experiment.name'] = exp
      args['config.experiment.save_samples'] = 'True'
      args['config.experiment.save_every_steps'] = 2
      want['experiment.name'] = exp
    elif 'n' in data:
      args['model_config.num_categories'] = data['n']
      want['model.num_categories'] = data['n']
  job = dict(args=args, dir=d, reduce=red, sampler=sampler)
  return job, want


def numbers(cell):
  try:
    return [float(t) for t in re.sub(r'[\[\](),]|Array', ' ', cell).split()]
  except ValueError:
    return []


def judge(chk, lab, kind, name, exp, o, want, data, rep):
  def bad(w, key):
    chk.violation('%s: %s' % (lab, w), key='%s:%s' % (key, lab), replay=rep)

  if o[0] != 'ok':
    return bad('the run fails: %s' % o[1][:400], 'fail')
  r = o[1]
  for k, v in want.items():
    node = r['merged']
    for p in k.split('.'):
      node = node.get(p) if hasattr(node, 'get') else None
    if node != v:
      return bad('%s is %r in the assembled configuration, not %r' % (
          k, node, v), 'merge')
  if r['calls'] == 0:
    return bad('no step was made', 'steps')
  if not r['integer'] or r['lo'] < 0 or r['hi'] >= r['categories']:
    return bad('samples range over %s..%s (%d categories)' % (
        r['lo'], r['hi'], r['categories']), 'valid')
  if any(a != b for a, b in r['shapes']):
    return bad('a step changes the sample shape: %s' % sorted(r['shapes']),
               'shape')
  if not r['finite']:
    return bad('acceptance is not finite', 'acc')
  if not r['moved'] and kind == 'classic':
    return bad('no chain ever moves', 'move')
  f = {os.path.basename(k): v for k, v in r['files'].items()}
  if kind == 'co':
    res = f.get('results.pkl')
    if res is None:
      return bad('no result pickle', 'file')
    t = np.asarray(res['trajectory'])
    n = data['count']
    if np.shape(res['best_ratio']) != (n,) or t.shape[-1] != n:
      return bad('results for %s of %d instances' % (
          np.shape(res['best_ratio']), n), 'count')
    if not (np.isfinite(t).all() and np.isfinite(res['best_ratio']).all()):
      return bad('results are not finite', 'finite')
    if name == 'normcut' and np.shape(res.get('best_samples'))[:1] != (n,):
      return bad('best samples are not saved', 'best')
  elif kind == 'text':
    res = f.get('results.pkl')
    if res is None or len(res.get('infill_sents', [])) != 4:
      return bad('sentences saved: %s' % (res or {}).get('infill_sents'),
                 'file')
    top = f.get('results_topk.pkl')
    if top is None or len(top.get('infill_sents', [])) != 2:
      return bad('top-k sentences saved: %s' % (top or {}).get('infill_sents'),
                 'file')
    for x in (res, top):
      for k in ('self_bleu', 'wiki_bleu', 'tbc_bleu', 'unique_self_2_grams'):
        if not math.isfinite(float(x.get(k, math.nan))):
          return bad('metric %s is %s' % (k, x.get(k)), 'metric')
  elif exp == 'EBM_Experiment':
    res = f.get('logz.pkl')
    if res is None or not np.isfinite(np.asarray(list(res.values())[0])).all():
      return bad('log-partition results: %s' % res, 'file')
  else:
    res = f.get('results.csv')
    if not res or len(res) != 1:
      return bad('ESS table has %s rows' % (res and len(res)), 'file')
    row = res[0]
    if row['model'] != name:
      return bad('ESS table: %s' % row, 'ess')
    for k in ('ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE'):
      v = numbers(row[k])
      if not v or not all(map(math.isfinite, v)) or v[0] <= 0:
        return bad('ESS table: %s' % row, 'ess')
    if kind == 'ebm':
      s = f.get('samples.pkl')
      if s is None or len(s['trajectory']) != r['chain'] // 2:
        return bad('saved samples: %s' % (s and np.shape(s['trajectory'])),
                   'samples')
  chk.cover('%s x samplers' % lab.split(' + ')[0])


def run(chk, batch, devices):
  """One process for a few combinations."""
  top = tempfile.mkdtemp(prefix='c23_')
  try:
    jobs, wants, datas = [], [], {}
    for i, (kind, name, gtype, cfg_str, n, sampler, over, exp) in enumerate(
        batch):
      key = (kind, name, gtype, n)
      if key not in datas:
        d = os.path.join(top, 'data%d' % len(datas))
        os.makedirs(d)
        data = dict(dir=d)
        if n:
          data['n'] = n
        if kind == 'co':
          data['red'], data['count'] = co_data(d, name, gtype, cfg_str)
        elif kind == 'ebm':
          ebm_data(d, name, n)
        elif kind == 'text':
          text_data(d)
        datas[key] = data
      j, w = job_of(top, i, kind, name, gtype, cfg_str, sampler, over, exp,
                    datas[key])
      jobs.append(j)
      wants.append((w, datas[key]))
    src, dst = os.path.join(top, 'i.pkl'), os.path.join(top, 'o.pkl')
    pickle.dump(jobs, open(src, 'wb'))
    env = dict(os.environ, XLA_FLAGS=(
        '--xla_force_host_platform_device_count=%d' % devices))
    r = subprocess.run([sys.executable, '-m', 'mc.combo_worker', src, dst],
                       capture_output=True, text=True, cwd=REPO, env=env)
    if r.returncode:
      raise RuntimeError('the main script cannot be run: ' + r.stderr[-1500:])
    out = pickle.load(open(dst, 'rb'))
  finally:
    shutil.rmtree(top)
  for (kind, name, gtype, cfg_str, n, sampler, over, exp), j, (w, data), o in zip(
      batch, jobs, wants, out):
    lab = '%s%s%s%s + %s%s on %d devices' % (
        name, ' ' + gtype if gtype else '', ' n=%d' % n if n else '',
        ' ' + exp if exp else '', sampler, ' %s' % over if over else '', devices)
    chk.count(states=1, transitions=(o[1]['calls'] if o[0] == 'ok' else 0),
              traces=1)
    judge(chk, lab, kind, name, exp, o, w, data,
          dict(args=j['args'], reduce=j['reduce'], devices=devices,
               error=o[2] if o[0] != 'ok' else None))


def body(chk):
  q = chk.quick
  smp = SAMPLERS if q else SAMPLERS + EXTRA
  combos = []
  for s, o in smp:
    ok4 = not (s == 'gwg' and o.get('adaptive') is False)  # binary only
    for m in CLASSIC:
      if ok4 or m not in ('categorical', 'potts'):
        combos.append(('classic', m, '', '', None, s, o, ''))
    if ok4:
      combos.append(('classic', 'fhmm', '', '', 3, s, o, ''))
    combos.append(('ebm', 'rbm', '', '', 2, s, o, 'Sampling_Experiment'))
    if ok4:
      combos.append(('ebm', 'rbm', '', '', 3, s, o, 'Sampling_Experiment'))
    combos.append(('ebm', 'resnet', '', '', 2, s, o, 'Sampling_Experiment'))
    combos.append(('ebm', 'resnet', '', '', 2, s, o, 'EBM_Experiment'))
    for p, g, c in graphs.TYPES:
      if ok4 or p != 'normcut':
        combos.append(('co', p, g, c, None, s, o, ''))
    if s in TEXT and ok4:
      combos.append(('text', 'text_infilling', '', '', None, s, o, ''))
  chk.bounds.append(
      'the full product of the documented models and graph types with the '
      'documented samplers in their shipped settings%s: %d runs on 4 host '
      'devices, sizes reduced to at most 16 sites, 4 chains and 6 steps' % (
          '' if q else ', their balancing functions and non-adaptive modes',
          len(combos)))
  chk.assumptions.append(
      'text infilling with the samplers of its shipped sweeps; non-adaptive '
      'Gibbs-with-gradient on binary models only')
  jobs = []
  combos.sort(key=lambda c: (c[0], c[1], c[2], str(c[4]), c[7]))
  per = 6 if q else 10

  def split(cs, devices):
    jobs.extend((run, [c], devices) for c in cs if c[0] == 'text')  # the slowest
    rest = [c for c in cs if c[0] != 'text']
    jobs.extend((run, rest[i:i + per], devices)
                for i in range(0, len(rest), per))

  split(combos, 4)
  if not q:
    split([c for c in combos if (c[5], c[6]) in SAMPLERS], 1)
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, str(j[1][0])[:80], j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C23', body, shards=(8, 8))
