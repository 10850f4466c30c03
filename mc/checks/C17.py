"""C17: annealing reports the best solution really visited, per instance."""
from mc import devices
DEVS = (1, 2, 4)
DEV = devices.setup(DEVS)
import os
import pickle
import tempfile
import jax
import jax.numpy as jnp
import numpy as np
from mc import graphs, report, stubs
from mc.report import guarded, HarnessError


class Model:
  """Instances with scripted objective values per (chain, step)."""

  def __init__(self, batches, G):
    self.batches, self.G = list(batches), G

  def make_init_params(self, rng):
    return self.batches.pop(0) if self.batches else None

  def get_init_samples(self, rng, n):
    if n != self.G:
      raise HarnessError('asked for %d initial samples, expected %d' % (
          n, self.G))
    return jnp.stack([jnp.arange(n), jnp.zeros(n, jnp.int32),
                      jnp.full(n, -1)], 1).astype(jnp.int32)

  def move(self, p, x):
    return jnp.stack([x[:, 0], x[:, 1] + 1,
                      jnp.full(x.shape[:1], p['id'])], 1).astype(jnp.int32)

  def forward(self, p, x):
    x = x.astype(jnp.int32)
    return p['table'][x[:, 0], x[:, 1]] / p['temperature']

  def evaluate(self, p, x):
    x = x.astype(jnp.int32)
    return p['table'][x[:, 0], x[:, 1]]


def schedule(c, t, L):
  if c['t_schedule'] == 'constant':
    return c['init_temperature']
  if c['t_schedule'] == 'linear':
    return c['init_temperature'] + (
        c['final_temperature'] - c['init_temperature']) * t / L
  v = c['init_temperature'] * c['decay_rate'] ** (t / L)
  return max(v, c['final_temperature']) if c['decay_rate'] < 1 else min(
      v, c['final_temperature'])


def config(name, M, B, L, log, ess, parallel, save, sch, root, extra):
  from discs.common import configs
  from discs.experiment.configs import co_experiment
  cfg = configs.get_config()
  cfg.experiment.update(co_experiment.get_co_default_config())
  with cfg.unlocked():
    cfg.model.name = name
    cfg.model.shape = (3,)
    cfg.model.num_categories = 2
    e = cfg.experiment
    e.num_models, e.batch_size, e.chain_length = M, B, L
    e.log_every_steps, e.ess_ratio, e.run_parallel = log, ess, parallel
    e.save_samples, e.save_root = save, root
    for k, v in sch.items():
      e[k] = v
    for k, v in extra.items():
      e[k] = v
    cfg.sampler.name = 'stub'
  return cfg


def execute(cfg, insts, M, B, L, tables, refs):
  """One full run; returns (trace, results)."""
  from discs.common import experiment_saver
  from discs.evaluators import co_eval
  from discs.experiment import sampling
  G = M * B
  batches = []
  for b in range(0, len(insts), M):
    ent = []
    for i in insts[b:b + M]:
      ent.append((i, dict(id=jnp.int32(i), table=jnp.asarray(
          tables[i], jnp.float32), mask=jnp.asarray([i, 1, 0])), refs[i]))
    while len(ent) < M:
      ent.append((-1, dict(id=jnp.int32(-1), table=jnp.full(
          (G, L + 1), 99.0), mask=jnp.asarray([-1, 1, 0])), 1))
    batches.append(ent)
  trace = stubs.Trace()
  model = Model(batches, G)
  with graphs.quiet():
    exp = getattr(sampling, cfg.experiment.name)(cfg)
    saver = experiment_saver.build_saver(cfg)
    exp.get_results(model, stubs.Sampler(trace), co_eval.build_evaluator(cfg),
                    saver)
    jax.effects_barrier()
  with open(os.path.join(cfg.experiment.save_root, 'results.pkl'), 'rb') as f:
    return trace.rows, pickle.load(f)


def run(chk, name, M, B, L, vals, ni, log, ess, parallel, save, sch, extra,
        thin=1):
  lab = ('%s devices=%d parallel=%s models=%d chains=%d steps=%d log=%d ess=%g '
         'instances=%s values=%s %s %s' % (
             name, DEV, parallel, M, B, L, log, ess, ni, vals, sch, extra))

  def bad(what, key, **kw):
    chk.violation('%s: %s' % (lab, what), key='%s:%s' % (key, lab),
                  replay=dict(case=lab, **kw))

  hist = []
  for c in range(0, len(vals) ** (B * L), thin):
    if ni is not None and len(hist) == ni:
      break
    c = c if ni is None else c + thin // 2 + 1
    h = []
    for _ in range(B * L):
      h.append(vals[c % len(vals)])
      c //= len(vals)
    hist.append(h)
  insts = list(range(len(hist)))
  G = M * B
  refs = {i: (1.0 if name == 'mis' else (1, 2.5, 4)[i % 3]) for i in insts}
  rank = {i: {g: g % B for g in range(G)} for i in insts}
  for attempt in range(2):
    tables = {}
    for i, h in zip(insts, hist):
      h = np.array(h, float).reshape(B, L)
      t = np.full((G, L + 1), 77.0)   # unvisited entries are tempting
      for g, r in rank[i].items():
        t[g, 1:] = h[r]
      tables[i] = t
    with tempfile.TemporaryDirectory(prefix='mc_c17_') as root:
      cfg = config(name, M, B, L, log, ess, parallel, save, sch,
                   os.path.join(root, 'out'), extra)
      rows, res = execute(cfg, insts, M, B, L, tables, refs)
    own = {i: set() for i in insts}
    for r in rows:
      if r['id'] >= 0:
        own[r['id']] |= set(r['x'][:, 0].tolist())
    if any(len(s) != B for s in own.values()):
      i = [len(s) == B for s in own.values()].index(False)
      return bad('instance %d was run on %d of %d chains' % (i, len(own[i]), B),
                 'chains')
    if all(len({rank[i][g] for g in own[i]}) == B for i in insts):
      break
    rank = {i: {g: k for k, g in enumerate(sorted(own[i]))} for i in insts}
  chk.count(states=len(insts), transitions=len(rows), traces=len(insts))
  # the executed schedule
  seen = {}
  for k, r in enumerate(rows):
    t = int(r['x'][0, 1]) + 1
    if (r['x'][:, 1] != t - 1).any() or r['steps'] != t - 1:
      return bad('chains of one model are at different steps %s / state %d' % (
          r['x'][:, 1].tolist(), r['steps']), 'steps')
    if t > 1 and (r['x'][:, 2] != r['id']).any():
      return bad('samples of model %s were continued with model %d' % (
          r['x'][:, 2].tolist(), r['id']), 'mix')
    if abs(r['temp'] - schedule(sch, t, L)) > 1e-5 * (1 + r['temp']):
      return bad('step %d of %d ran at temperature %g, schedule says %g' % (
          t, L, r['temp'], schedule(sch, t, L)), 'temp', step=t)
    if r['id'] >= 0 and r['mask'][0] != r['id']:
      return bad('model %d was given the mask of %s' % (r['id'], r['mask']),
                 'mask')
    b = r['id'] // M if r['id'] >= 0 else (len(insts) - 1) // M
    if (b, r['key']) in seen:
      return bad('two steps of one run used the same random key', 'key')
    seen[(b, r['key'])] = 1
  for i in insts:
    for t in range(L):
      gs = sorted(g for r in rows if r['id'] == i and r['x'][0, 1] == t
                  for g in r['x'][:, 0].tolist()) if len(insts) < 40 else None
      if gs is not None and gs != sorted(own[i]):
        return bad('step %d of instance %d moved chains %s' % (t + 1, i, gs),
                   'moved')
  # the results
  T = [t for t in range(1, L + 1) if t % log == 0]
  V = np.array([[max(tables[i][g, t] for g in own[i]) / refs[i] for i in insts]
                for t in T])
  want = np.maximum.accumulate(V, 0)
  tr = np.asarray(res['trajectory'])
  if tr.shape != want.shape or not np.allclose(tr, want, rtol=1e-5, atol=1e-6):
    d = '' if tr.shape != want.shape else str(np.argwhere(
        ~np.isclose(tr, want, rtol=1e-5, atol=1e-6))[0])
    return bad('saved trajectory of shape %s differs from the running maximum of '
               'shape %s at %s' % (tr.shape, want.shape, d), 'traj',
               saved=tr[:, :6].tolist() if tr.ndim == 2 else None,
               want=want[:, :6].tolist())
  br = np.asarray(res['best_ratio'])
  if br.shape != want[-1].shape or not np.allclose(br, want[-1], rtol=1e-5):
    return bad('best ratios %s, expected %s' % (br[:8], want[-1][:8]), 'best')
  if abs(float(res['best_ratio_mean']) - want[-1].mean()) > 1e-4 * (
      1 + abs(want[-1].mean())):
    return bad('mean of the best ratios %s, expected %s' % (
        res['best_ratio_mean'], want[-1].mean()), 'mean')
  if save or name == 'normcut':
    bs = np.asarray(res.get('best_samples', np.zeros(0)))
    if bs.shape != (len(insts), 3):
      return bad('best samples of shape %s' % (bs.shape,), 'bshape')
    for i, (g, t, m) in zip(insts, bs.astype(int).tolist()):
      if m != i or g not in own[i] or t not in T or abs(
          tables[i][g, t] / refs[i] - want[-1][i]) > 1e-5:
        return bad('best sample of instance %d is chain %d step %d of model %d, '
                   'which does not attain the best ratio %g' % (
                       i, g, t, m, want[-1][i]), 'bsample', history=hist[i])
  chk.cover('%s D=%d' % (name, DEV), len(insts))
  chk.sample(dict(case=lab))


CONST = dict(t_schedule='constant', init_temperature=1.0)
LIN = dict(t_schedule='linear', init_temperature=2.0, final_temperature=0.5)
UP = dict(t_schedule='linear', init_temperature=0.25, final_temperature=3.0)
EXP = dict(t_schedule='exp_decay', init_temperature=1.0, decay_rate=0.05,
           final_temperature=0.2)
EXP2 = dict(t_schedule='exp_decay', init_temperature=2.0, decay_rate=0.1,
            final_temperature=1e-6)


def body(chk):
  q = chk.quick
  jobs = []
  chk.bounds.append('all value histories over 3 values of 2 chains x 3 steps and '
                    '1 chain x 5 steps, 2 values of 4 chains x 2 steps; devices '
                    '1, 2, 4; logging every 1..3 steps; burn-in 0, 1/4, 1/2, 1; '
                    '5 schedules; several batches with placeholders')
  pars = (True, False) if DEV > 1 else (True,)
  for par in pars:
    D = DEV if par else 1
    big = 80 if not q else 40
    # all histories, instances spread over devices
    jobs.append(('maxcut', big, 2, 3, (0.0, 1.0, 2.0), None, 1, 0.5, par, True,
                 LIN, {}))
    jobs.append(('normcut', big, 1, 5, (-3.0, -2.0, -0.5), None, 2, 0.25, par,
                 False, EXP, {}, 1 if not q else 2))
    jobs.append(('maxclique', big, 4, 2, (1.0, 3.0), None, 1, 0.0, par, True,
                 CONST, {}))
    jobs.append(('mis', big, 2, 4, (0.0, 2.0), None, 3, 1.0, par, True, UP, {}))
    # short runs: every batching and layout
    for log in (1, 2, 3):
      for ess in (0.0, 0.25, 0.5, 1.0):
        if q and not par:
          continue
        jobs.append(('maxcut', 4, 4, 4, (0.0, 1.0, 2.0), 9, log, ess, par, True,
                     EXP2, {}, 4001))
    for ni in range(1, 10):
      jobs.append(('maxclique', 4, 4, 3, (1.0, 2.0), ni, 1, 0.5, par, True,
                   (CONST, LIN, EXP)[ni % 3], {}, 97))
    for M, B in ((1, 4), (2, 4), (1, 8), (3, 4), (2, 2), (1, 1), (8, 4),
                 (4, 1)):
      if D > 1 and not (M % D == 0 if M >= D else B % D == 0):
        continue
      for ni in (1, M, M + 1, 2 * M):
        jobs.append(('normcut' if M % 2 else 'maxcut', M, B, 3, (0.0, 1.0, 2.0),
                     ni, 1, 0.5, par, True, LIN, {}, 3 ** (B * 3) // 211 or 1))
    if not q:
      for M, B in ((2, 4), (1, 4)):
        if D > 1 and not (M % D == 0 if M >= D else B % D == 0):
          continue
        jobs.append(('maxcut', M, B, 2, (0.0, 1.0), None, 1, 0.5, par, True,
                     LIN, {}))
    jobs.append(('maxcut', 4, 2, 3, (0.0, 1.0, 2.0), 6, 1, 0.5, par, False, LIN,
                 dict(get_additional_metrics=True), 101))
  for j in jobs:
    if devices.mine(chk, DEVS) and not chk.full():
      guarded(chk, 'run D=%d %s' % (DEV, j), run, chk, *j)


if __name__ == '__main__':
  report.run_main('C17', body, shards=(6, 6))
