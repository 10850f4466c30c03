"""C32: a converted PyTorch checkpoint defines the same energy model."""
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import jax
import ml_collections
import numpy as np
from mc import report, torchless
from mc.report import guarded, HarnessError
torchless.install()


class Tensor:
  """The only part of torch.Tensor a state dict needs."""

  def __init__(self, a):
    self.a = np.asarray(a, np.float32)
    self.shape = self.a.shape

  def numpy(self):
    return self.a

  def detach(self):
    return self

  def cpu(self):
    return self


def checkpoint(ch, shape, seed):
  """A checkpoint whose energies depend visibly on the image."""
  hw = shape[0] * shape[1]
  x = np.array(list(itertools.product((0, 1), repeat=hw)))[::5]
  for k in range(200):
    sd = state_dict(ch, hw, seed + 100 * k)
    if 0.2 < np.ptp(energy(sd, x, shape)[0]) < 50:
      return sd
  raise HarnessError('no informative checkpoint')


def state_dict(ch, hw, seed):
  """State dict of the PyTorch network (layout O, I, H, W)."""
  r = np.random.RandomState(seed)
  t = lambda *s: r.uniform(-1.3, 1.3, s).astype(np.float32)
  sd = {'mean': r.uniform(0.1, 0.9, hw).astype(np.float32)}
  sd['net.proj.weight'], sd['net.proj.bias'] = t(ch, 1, 3, 3), t(ch)
  for i in range(8):
    for c in ('conv1', 'conv2'):
      sd['net.net.%d.%s.weight' % (i, c)] = t(ch, ch, 3, 3)
      sd['net.net.%d.%s.bias' % (i, c)] = t(ch)
    if i < 2:
      sd['net.net.%d.shortcut_conv.weight' % i] = t(ch, ch, 1, 1)
      sd['net.net.%d.shortcut_conv.bias' % i] = t(ch)
  sd['net.energy_linear.weight'] = t(1, ch)
  sd['net.energy_linear.bias'] = t(1)
  return sd


def conv(x, w, b, stride, pad):
  """torch.nn.functional.conv2d, x [N, I, H, W]."""
  x = np.pad(x, ((0, 0), (0, 0), (pad, pad), (pad, pad)))
  k = w.shape[2]
  H = (x.shape[2] - k) // stride + 1
  W = (x.shape[3] - k) // stride + 1
  out = np.zeros((len(x), w.shape[0], H, W))
  for i, j in itertools.product(range(H), range(W)):
    p = x[:, :, i * stride:i * stride + k, j * stride:j * stride + k]
    out[:, :, i, j] = np.einsum('nchw,ochw->no', p, w) + b
  return out


def energy(sd, x, shape):
  """The network of the checkpoint plus its Bernoulli base measure."""
  sd = {k: np.asarray(v, np.float64) for k, v in sd.items()}
  swish = lambda a: a / (1 + np.exp(-a))
  w = lambda n: (sd[n + '.weight'], sd[n + '.bias'])
  h = conv(x.reshape((len(x), 1) + shape).astype(float), *w('net.proj'), 1, 1)
  for i in range(8):
    s = 2 if i < 2 else 1
    o = swish(conv(h, *w('net.net.%d.conv1' % i), s, 1))
    o = conv(o, *w('net.net.%d.conv2' % i), 1, 1)
    sc = conv(h, *w('net.net.%d.shortcut_conv' % i), s, 0) if i < 2 else h
    h = swish(o + sc)
  e = h.mean((2, 3)) @ sd['net.energy_linear.weight'].T + sd[
      'net.energy_linear.bias']
  m = sd['mean']
  base = (x * np.log(m) + (1 - x) * np.log(1 - m)).sum(-1)
  return e[:, 0], base


def case(chk, shape, ch, seed):
  from absl import flags
  hw = shape[0] * shape[1]
  lab = '%dx%d images, %d channels, checkpoint %d' % (shape + (ch, seed))
  sd = checkpoint(ch, shape, seed)
  order = list(sd)
  np.random.RandomState(seed).shuffle(order)
  import torch
  torch.load = lambda *a, **kw: {'ema_model': {k: Tensor(sd[k]) for k in order}}
  torch.device = lambda *a, **kw: 'cpu'
  F = flags.FLAGS
  top = tempfile.mkdtemp(prefix='c32_')

  def bad(what, key, **kw):
    chk.violation('%s: %s' % (lab, what), key='%s:%s' % (key, lab),
                  replay=dict(case=lab, **kw))

  try:
    import discs.learning.binary_ebm.pt2params as main
    cfgfile = os.path.join(os.path.dirname(main.__file__), 'exp_config.py')
    argv = ['convert', '--config=%s:static_mnist-%d' % (cfgfile, ch),
            '--config.model.image_shape=(%d, %d)' % shape,
            '--config.model.shape=(%d,)' % hw, '--pt_path=x.pt',
            '--save_root=' + top]
    old = sys.argv
    if F.is_parsed():
      F.unparse_flags()
    for n in [n for n in F if n.startswith('config.')]:
      delattr(F, n)
    sys.argv = argv
    F(argv)
    try:
      with torchless.quiet():
        main.main(['convert'])
    finally:
      sys.argv = old
    res = pickle.load(open(os.path.join(top, 'params.pkl'), 'rb'))
    from discs.models import resnet
    cfg = ml_collections.ConfigDict(dict(model=dict(
        name='resnet', data_path=top, num_categories=2)))
    with torchless.quiet():
      model = resnet.build_model(cfg)
      p = model.make_init_params(jax.random.PRNGKey(0))
  finally:
    shutil.rmtree(top)
  if not np.allclose(res['params']['data_mean'], sd['mean'], atol=1e-6):
    return bad('the base mean is not the stored one', 'mean')
  x = np.array(list(itertools.product((0, 1), repeat=hw)))
  net, base = energy(sd, x, shape)
  got = np.asarray(jax.jit(model.forward)(p, x.astype(np.int32)), np.float64)
  chk.count(states=len(x), transitions=len(x), traces=len(x))
  e = np.abs(got - net - base)
  if not (e <= 2e-4 * (1 + np.abs(net + base))).all():
    i = int(np.argmax(np.where(np.isfinite(e), e, np.inf)))
    return bad('image %s has energy %.6f, the checkpoint gives %.6f' % (
        x[i].tolist(), got[i], net[i] + base[i]), 'energy', image=x[i].tolist())
  for T in (0.0, 0.3, 1.0):
    got = np.asarray(jax.jit(model.forward)(
        dict(p, temperature=T), x.astype(np.int32)), np.float64)
    e = np.abs(got - T * net - base)
    if not (e <= 2e-4 * (1 + np.abs(net + base))).all():
      return bad('energies at temperature %s are wrong' % T, 'temp')
  chk.cover('%dx%d images, %d channels' % (shape + (ch,)), len(x))
  chk.sample(dict(case=lab, spread=float(np.ptp(net))))


def body(chk):
  q = chk.quick
  shapes = ((2, 2), (2, 3), (3, 3)) + (() if q else ((3, 4), (4, 3), (1, 5)))
  chk.bounds.append('every binary image of sizes %s, 1-%d channels, %d '
                    'checkpoints each' % (shapes, 3 if q else 4, 2 if q else 6))
  chk.assumptions.append('torch.load is a stand-in returning the state dict; the '
                         'reference network is an independent double-precision '
                         'implementation in PyTorch layout')
  for shape in shapes:
    for ch in range(1, 4 if q else 5):
      for seed in range(2 if q else 6):
        if chk.mine() and not chk.full():
          guarded(chk, '%s %d %d' % (shape, ch, seed), case, chk, shape, ch,
                  seed)


if __name__ == '__main__':
  report.run_main('C32', body, shards=(4, 8))
