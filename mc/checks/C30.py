"""C30: training performs persistent contrastive divergence."""
from mc import devices
DEVS = (1, 2, 4)
DEV = devices.setup(DEVS)
import copy
import itertools
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
from mc import report, torchless
from mc.report import guarded, HarnessError
torchless.install()

D = 4          # visible units; a chain is a D-bit counter
PAT = 3        # data patterns


def bump(x):
  """The scripted move: binary counter plus one."""
  v = (x.astype(jnp.int32) * (2 ** jnp.arange(x.shape[-1]))).sum(-1) + 1
  return (v[..., None] // 2 ** jnp.arange(x.shape[-1])) % 2


def nbump(x, k):
  x = np.asarray(x).astype(int)
  d = x.shape[-1]
  v = (x * 2 ** np.arange(d)).sum(-1) + k
  return (v[..., None] // 2 ** np.arange(d)) % 2


class Scripted:
  """The real sampler's interface with the scripted move; records calls."""

  def __init__(self, real):
    self.real, self.rows = real, []

  def make_init_state(self, rng):
    return self.real.make_init_state(rng)

  def note(self, key, check):
    self.rows.append((tuple(np.asarray(key).ravel().tolist()), float(check)))

  def step(self, model, rng, x, model_param, state, **kw):
    out = self.real.step(model=model, rng=rng, x=x, model_param=model_param,
                         state=state, **kw)
    jax.debug.callback(self.note, rng, weigh(model_param))
    return (bump(x).astype(out[0].dtype),) + tuple(out[1:])


def weigh(p):
  return sum(jnp.sum(l * jnp.sin(1.0 + jnp.arange(l.size).reshape(l.shape)))
             for l in jax.tree_util.tree_leaves(p))


class Logger:

  def __init__(self):
    self.rows = {}

  def write_scalars(self, step, aux):
    self.rows[int(step)] = {k: float(v) for k, v in aux.items()}

  def flush(self):
    pass


# ---- oracle -----------------------------------------------------------------
def rate(c, t):
  lr, T = c['learning_rate'], c['total_train_steps']
  w = int(c['warmup_frac'] * T)
  if c['lr_schedule'] == 'constant':
    return lr
  if c['lr_schedule'] == 'updown':
    if t < w:
      return lr * t / w
    return lr + (0.01 * lr - lr) * min((t - w) / (T - w), 1.0)
  if t < w:
    return lr * t / w
  return max(lr * 0.9 ** ((t - w) / 20000.0), 1e-6)


class Opt:
  """Textbook SGD/Adam/AdamW with global-norm clipping, in double precision."""

  def __init__(self, c, p):
    self.c, self.t = c, 0
    self.m = [np.zeros(a.shape) for a in p]
    self.v = [np.zeros(a.shape) for a in p]

  def step(self, p, g):
    c = self.c
    g = [np.asarray(a, np.float64) for a in g]
    if c['grad_norm'] > 0:
      n = np.sqrt(sum((a ** 2).sum() for a in g))
      if n > c['grad_norm']:
        g = [a * c['grad_norm'] / n for a in g]
    lr = rate(c, self.t)
    self.t += 1
    if c['optimizer'] == 'sgd':
      return [a - lr * b for a, b in zip(p, g)]
    self.m = [0.9 * a + 0.1 * b for a, b in zip(self.m, g)]
    self.v = [0.999 * a + 0.001 * b * b for a, b in zip(self.v, g)]
    out = []
    for a, m, v in zip(p, self.m, self.v):
      u = (m / (1 - 0.9 ** self.t)) / (
          np.sqrt(v / (1 - 0.999 ** self.t)) + 1e-8)
      if c['optimizer'] == 'adamw':
        u = u + c['weight_decay'] * a
      out.append(a - lr * u)
    return out


# ---- one case ---------------------------------------------------------------
def settings(kind, **over):
  from discs.common import configs, train_configs
  cfg = configs.get_config()
  cfg.experiment.update(train_configs.get_common_train_config())
  c = dict(learning_rate=0.1, lr_schedule='constant', optimizer='sgd',
           grad_norm=0.0, weight_decay=0.0, ema_decay=0.5, pcd_steps=1,
           warmup_frac=0.5, total_train_steps=4, batch_size=4,
           log_every_steps=1, plot_every_steps=1, save_every_steps=10 ** 6,
           buffer_size=6, buffer_init='mean', reinit_freq=0.0, p_control=0.0,
           energy_l2=0.0)
  model = dict(name='rbm', num_visible=D, num_hidden=2, num_categories=2,
               shape=(D,))
  if kind == 'resnet':
    model = dict(name='resnet', num_categories=2, n_channels=1,
                 image_shape=(2, 2), shape=(4,), data_mean=[0.5, 0.3, 0.6, 0.2])
  c.update(over)
  with cfg.unlocked():
    for k, v in c.items():
      cfg.experiment[k] = v
    for k, v in model.items():
      cfg.model[k] = v
    if kind == 'rbm':
      cfg.sampler = ml_collections.ConfigDict(
          dict(name='blockgibbs', subclass='rbm'))
    else:
      from discs.samplers.configs import dlmc_config
      cfg.sampler = dlmc_config.get_config()
  return cfg, c


def build(kind, cfg):
  from absl import flags
  mine = 'rbm' if kind == 'rbm' else 'binary_ebm'
  if not any(m.startswith('discs.learning.%s.' % mine) for m in sys.modules):
    for f in ('config', 'seed', 'save_root'):    # both scripts define them
      if f in flags.FLAGS:
        delattr(flags.FLAGS, f)
  if kind == 'rbm':
    import discs.learning.rbm.main_rbm_training as main
    from discs.models import rbm
    from discs.samplers.blockgibbs import RBMBlockGibbsSampler
    model = rbm.build_model(cfg)
    s = Scripted(RBMBlockGibbsSampler(cfg.sampler))
    return main.RBMTrainer(cfg, model, s), model, s
  import discs.learning.binary_ebm.main_binary_training as main
  from discs.samplers import dlmc
  from discs.models import rbm, resnet
  model = (resnet if kind == 'resnet' else rbm).build_model(cfg)
  s = Scripted(dlmc.build_sampler(cfg))
  x_train = np.array(list(itertools.product((0, 1), repeat=D)), np.float32)[:11]
  return main.EBMTrainer(cfg, model, s, x_train), model, s


def batch_of(pat, L, B):
  """Data batch: pattern 0/1/2, a different image per row."""
  i = np.arange(B)
  v = [(3 * i + 1) % 16, (i * i + 7) % 16, np.where(i < B // 2, 15, 2 * i) % 16]
  x = (v[pat][:, None] // 2 ** np.arange(D)) % 2
  return x.reshape(L, B // L, D).astype(np.float32)


class Buffer:
  """Records what the replay buffer hands out."""

  def __enter__(self):
    from discs.learning import replay_buffer
    self.cls = replay_buffer.ReplayBuffer
    self.old = self.cls.sample
    self.out = []
    me = self

    def sample(buf, n):
      before = np.array(buf.buffer)
      x, ind = me.old(buf, n)
      me.out.append((np.array(x), np.array(ind), before, buf))
      return x, ind

    self.cls.sample = sample
    return self

  def __exit__(self, *a):
    self.cls.sample = self.old


def resume(chk, kind, start, total):
  """Training continued from a state of update `start` does the rest."""
  cfg, c = settings(kind, total_train_steps=total)
  L, B = jax.local_device_count(), c['batch_size']
  lab = '%s on %d devices, from update %d to %d' % (kind, L, start, total)
  top = tempfile.mkdtemp(prefix='c30_')
  try:
    with cfg.unlocked():
      cfg.experiment.save_root = top
      cfg.experiment.fig_folder = top
    seen = []
    with torchless.quiet():
      trainer, _, _ = build(kind, cfg)
      g0, l0 = trainer.init_states(jax.random.PRNGKey(5))
      log = Logger()
      final = trainer.train_loop(
          log, jax.random.PRNGKey(9), g0.replace(step=start),
          l0, iter([batch_of(s % PAT, L, B) for s in range(total + 3)]),
          fn_plot=lambda step, shared, local: seen.append(int(step)))
  finally:
    shutil.rmtree(top)
  want = list(range(start + 1, total + 1))
  chk.count(states=len(want), transitions=len(want), traces=1)
  if seen != want or sorted(log.rows) != want or (
      set(np.asarray(final.step).reshape(-1).tolist()) != {max(start, total)}):
    chk.violation('%s: makes updates %s and logs %s, expected %s' % (
        lab, seen, sorted(log.rows), want), key='resume:' + lab,
        replay=dict(case=lab))
  chk.cover('continued training')


def case(chk, kind, over, seqs, ckpt=False):
  cfg, c = settings(kind, **over)
  L, B, K = jax.local_device_count(), c['batch_size'], c['pcd_steps']
  lab = '%s on %d devices %s' % (kind, L, over)
  top = tempfile.mkdtemp(prefix='c30_')
  try:
    with cfg.unlocked():
      cfg.experiment.save_root = top
      cfg.experiment.fig_folder = top
    with torchless.quiet():
      trainer, model, samp = build(kind, cfg)
    g0, l0 = trainer.init_states(jax.random.PRNGKey(5))
    if 'init_scale' in c:            # a model far from its initial state
      far = jax.tree_util.tree_map(
          lambda a: c['init_scale'] * (a + 0.1), g0.params)
      g0 = g0.replace(params=far, ema_params=far)
    for seq in seqs:
      one(chk, lab, kind, c, trainer, model, samp, g0, l0, seq, L, B, K, top,
          ckpt)
  finally:
    shutil.rmtree(top)


def one(chk, lab, kind, c, trainer, model, samp, g0, l0, seq, L, B, K, top,
        ckpt):
  def bad(key, what, **kw):
    chk.violation('%s, batches %s: %s' % (lab, list(seq), what),
                  key='%s:%s' % (key, lab), replay=dict(
                      case=lab, batches=list(seq), **kw))

  leaves = lambda t: [np.asarray(a, np.float64)
                      for a in jax.tree_util.tree_leaves(t)]
  tree = jax.tree_util.tree_structure(g0.params)
  T = min(len(seq), c['total_train_steps'])
  seen = []

  def fn_plot(step, shared, local):
    jax.effects_barrier()
    seen.append(dict(
        step=int(step), params=jax.device_get(shared.params),
        ema=jax.device_get(shared.ema_params),
        count=np.asarray(shared.step), samples=np.asarray(local.samples),
        lstep=np.asarray(local.step), rows=list(samp.rows),
        buf=(np.array(buf.out[-1][3].buffer) if buf.out else None)))
    samp.rows.clear()

  log = Logger()
  samp.rows.clear()
  np.random.seed(3)
  with Buffer() as buf, torchless.quiet():
    final = trainer.train_loop(
        log, jax.random.PRNGKey(9), g0, copy.deepcopy(l0),
        iter([batch_of(s, L, B) for s in seq]), fn_plot=fn_plot)
  chk.count(states=T + 1, transitions=T, traces=1)
  if [s['step'] for s in seen] != list(range(1, T + 1)):
    return bad('steps', 'updates made: %s, expected %d' % (
        [s['step'] for s in seen], T))
  x = np.asarray(l0.samples)
  if x.shape != (L, B // L, D):
    return bad('layout', 'chains have shape %s' % (x.shape,))
  if any(not np.array_equal(a, b) for a, b in zip(
      leaves(g0.params), leaves(g0.ema_params))):
    return bad('ema0', 'averaged parameters do not start at the parameters')
  p = leaves(g0.params)
  opt, ema, keys = Opt(c, p), None, set()
  for t, s in enumerate(seen):
    if kind != 'rbm':
      if len(buf.out) != T:
        return bad('buffer', 'the buffer was read %d times in %d updates' % (
            len(buf.out), T))
      xb, ind, before, _ = buf.out[t]
      x = xb.reshape(L, B // L, D)
    want = nbump(x, K)
    if s['samples'].shape != want.shape or (s['samples'] != want).any():
      return bad('chains', 'update %d: the chains went from %s to %s, not to %s'
                 % (t + 1, x.tolist(), s['samples'].astype(int).tolist(),
                    want.tolist()))
    x = want
    if kind != 'rbm':
      after = before.copy()
      after[ind] = want.reshape(-1, D)
      if (s['buf'] != after).any():
        return bad('writeback', 'update %d: buffer rows %s are %s, expected %s'
                   % (t + 1, ind, s['buf'][ind].tolist(), after[ind].tolist()))
    if len(s['rows']) != K * L:
      return bad('pcd', 'update %d made %d sampler steps on %d devices' % (
          t + 1, len(s['rows']), L))
    ref = float(weigh(jax.tree_util.tree_unflatten(
        tree, [jnp.asarray(a, jnp.float32) for a in p])))
    for k, w in s['rows']:
      if k in keys:
        return bad('key', 'update %d: a sampler step reuses a random key' % (
            t + 1))
      keys.add(k)
      if abs(w - ref) > 1e-3 * (1 + abs(ref)):
        return bad('current', 'update %d: chains were advanced with other '
                   'parameters than the current ones' % (t + 1))
    pos = jnp.asarray(batch_of(seq[t], L, B).reshape(-1, D))
    neg = jnp.asarray(want.reshape(-1, D), jnp.float32)

    def loss(q):
      return jnp.mean(model.forward(q, neg)) - jnp.mean(model.forward(q, pos))

    q = jax.tree_util.tree_unflatten(
        tree, [jnp.asarray(a, jnp.float32) for a in p])
    val, g = jax.value_and_grad(loss)(q)
    lp = float(jnp.mean(model.forward(q, pos)))
    ln = float(jnp.mean(model.forward(q, neg)))
    p = opt.step(p, jax.tree_util.tree_leaves(g))
    ema = p if t == 0 else [c['ema_decay'] * a + (1 - c['ema_decay']) * b
                            for a, b in zip(ema, p)]
    tol = 3e-4 if c['optimizer'] != 'sgd' else 2e-5
    for what, got, ref_ in (('parameters', s['params'], p),
                            ('averaged parameters', s['ema'], ema)):
      for a, b in zip(leaves(got), ref_):
        if a.shape != (L,) + b.shape:
          return bad('replicas', '%s have shape %s' % (what, a.shape))
        e = np.abs(a - b[None]).max()
        if not e < tol * (t + 1):
          return bad('update', '%s after update %d are off by %.3g' % (
              what, t + 1, e), got=a[0].tolist(), expected=b.tolist())
    if (s['count'] != t + 1).any():
      return bad('count', 'update counter is %s after %d updates' % (
          s['count'], t + 1))
    if (s['lstep'] != K * (t + 1)).any():
      return bad('lcount', 'chain step counter is %s after %d updates of %d '
                 'steps' % (s['lstep'], t + 1, K))
    if (t + 1) % c['log_every_steps'] == 0:
      r = log.rows.get(t + 1)
      if r is None:
        return bad('log', 'update %d was not logged' % (t + 1))
      for k, v in (('loss', float(val)), ('ll_pos', lp), ('ll_neg', ln)):
        if not abs(r.get(k, np.nan) - v) < 1e-3 * (1 + abs(v)):
          return bad('logged', 'update %d: logged %s is %s, expected %.5f' % (
              t + 1, k, r.get(k), v))
    elif t + 1 in log.rows:
      return bad('log', 'update %d was logged' % (t + 1))
    p = leaves(jax.tree_util.tree_map(lambda a: a[0], s['params']))
    ema = leaves(jax.tree_util.tree_map(lambda a: a[0], s['ema']))
  last = leaves(jax.tree_util.tree_map(lambda a: np.asarray(a)[0],
                                       final.params))
  if T and any(np.abs(a - b).max() > 1e-6 for a, b in zip(last, p)):
    return bad('final', 'the returned parameters are not the last ones')
  if ckpt:
    from flax.training import checkpoints
    every = c['save_every_steps']
    for t in range(1, T + 1):
      d = os.path.join(top, 'ckpts', 'checkpoint_%d' % t)
      if os.path.exists(d) != (t % every == 0):
        return bad('ckpt', 'checkpoint of update %d %s' % (
            t, 'is missing' if t % every == 0 else 'should not exist'))
      if t % every == 0:
        r = checkpoints.restore_checkpoint(d, None)
        one_ = leaves(jax.tree_util.tree_map(lambda a: a[0],
                                             seen[t - 1]['params']))
        if int(r['step']) != t or any(
            np.abs(a - b).max() > 1e-7 for a, b in zip(
                leaves(r['params']), one_)):
          return bad('ckpt', 'checkpoint of update %d holds other parameters'
                     % t)
    shutil.rmtree(os.path.join(top, 'ckpts'), ignore_errors=True)
  chk.cover('%s updates on %d devices' % (kind, L), T)
  chk.sample(dict(case=lab, batches=list(seq), loss=[
      round(log.rows[k]['loss'], 4) for k in sorted(log.rows)][:4]))


# ---- whole training scripts -------------------------------------------------
def script(chk, which, rel, total):
  """The real main of a training script; its file loads into the model."""
  top = tempfile.mkdtemp(prefix='c30_')
  lab = '%s training script on %d devices%s' % (
      which, DEV, ', relative folder' if rel else '')
  try:
    r = subprocess.run(
        [sys.executable, '-m', 'mc.train_worker', which, top, str(int(rel)),
         str(total)], capture_output=True, text=True, cwd=top,
        env=dict(os.environ))
    chk.count(states=1, transitions=total, traces=1)
    if r.returncode:
      if '/discs/' in r.stderr:
        chk.violation('%s fails: %s' % (lab, r.stderr.strip()[-400:]),
                      key='script:' + lab, replay=dict(
                          case=lab, stderr=r.stderr[-3000:]))
        return
      raise HarnessError(r.stderr[-2000:])
    res = pickle.load(open(os.path.join(top, 'out.pkl'), 'rb'))
  finally:
    shutil.rmtree(top)
  for w in res['bad']:
    chk.violation('%s: %s' % (lab, w), key='script:' + lab,
                  replay=dict(case=lab))
  chk.cover('%s script' % which)


def body(chk):
  q = chk.quick
  chk.bounds.append('%s devices; batches of %s; all sequences of up to %d data '
                    'batches over 3 patterns; 1-3 sampler steps per update' % (
                        DEVS, '4 and 8', 3 if q else 4))
  chk.assumptions.append('torch and tensorflow_datasets are replaced by stand-ins '
                         'that only supply data')
  jobs = []
  allseq = [s for n in range(0, 4 if q else 5)
            for s in itertools.product(range(PAT), repeat=n)]
  six = [(0, 1, 2, 0, 2, 1)]
  for kind in ('rbm', 'ebm'):
    for K in (1, 2, 3):
      jobs.append((kind, dict(pcd_steps=K), allseq if K == 2 else six))
    jobs.append((kind, dict(batch_size=8, pcd_steps=2, buffer_size=8), six))
    jobs.append((kind, dict(total_train_steps=2), six))
    for o in (dict(optimizer='adam', learning_rate=0.03),
              dict(optimizer='adamw', weight_decay=0.3, learning_rate=0.05),
              dict(optimizer='adamw', weight_decay=4.0, learning_rate=0.1,
                   ema_decay=0.9),
              dict(grad_norm=0.05), dict(grad_norm=5.0),
              dict(lr_schedule='updown', total_train_steps=6),
              dict(lr_schedule='up_exp_down', total_train_steps=6),
              dict(ema_decay=0.0), dict(ema_decay=0.9999),
              dict(log_every_steps=2)):
      jobs.append((kind, dict(dict(total_train_steps=6), **o), six))
    for z in (8.0, -8.0):
      jobs.append((kind, dict(init_scale=z, total_train_steps=3), six))
    jobs.append((kind, dict(save_every_steps=2, total_train_steps=5), six, True))
    if not q:
      for o, lr in itertools.product(
          ('sgd', 'adam', 'adamw'), ('constant', 'updown', 'up_exp_down')):
        for g in (0.0, 0.05):
          for K in (1, 2):
            jobs.append((kind, dict(optimizer=o, lr_schedule=lr, grad_norm=g,
                                    pcd_steps=K, weight_decay=0.2,
                                    total_train_steps=12, learning_rate=0.05),
                         [six[0] * 2]))
  for r in (0.5, 1.0):
    jobs.append(('ebm', dict(reinit_freq=r, pcd_steps=2), six))
  jobs.append(('ebm', dict(buffer_size=4), six))
  jobs.append(('resnet', dict(pcd_steps=2, total_train_steps=3), six))
  for j in jobs:
    if devices.mine(chk, DEVS) and not chk.full():
      guarded(chk, '%s %s' % (j[0], j[1]), case, chk, *j)
  for kind in ('rbm', 'ebm'):
    for start in (1, 2, 3):
      if devices.mine(chk, DEVS) and not chk.full():
        guarded(chk, '%s from update %d' % (kind, start), resume, chk, kind,
                start, 3)
  for which, rel in (('rbm', False), ('ebm', True), ('rbm', True),
                     ('ebm', False)):
    if q and DEV == 4:
      continue
    if devices.mine(chk, DEVS) and not chk.full():
      script(chk, which, rel, 4)


if __name__ == '__main__':
  report.run_main('C30', body, shards=(6, 6))
