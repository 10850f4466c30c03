"""Runs a real training script with stand-in data sets.

usage: python -m mc.train_worker rbm|ebm TOP RELATIVE STEPS  -> TOP/out.pkl
"""
import os
import pickle
import sys
import numpy as np
from mc import torchless


def images():
  r = np.random.RandomState(0)
  x = r.randint(0, 256, (230, 28, 28, 1)).astype(np.uint8)
  x[:, 0, 0] = 0        # constant pixels
  x[:, 1, 0] = 255
  return x


def tfds(name, split=None, **kw):
  import tensorflow as tf
  return tf.data.Dataset.from_tensor_slices({'image': images()})


def main(which, top, rel, total):
  torchless.install(tfds)
  from absl import flags
  import jax
  import ml_collections
  if rel:
    os.chdir(top)
  root = './work' if rel else os.path.join(top, 'work')
  here = os.path.dirname(os.path.abspath(__import__('discs.common').__file__))
  if which == 'rbm':
    import discs.learning.rbm.main_rbm_training as m
    folder, name = 'rbm/exp_config.py:mnist-2-25', 'mnist-2-25'
    from discs.models import rbm as mod
    mean = np.clip(images().reshape(230, -1).mean(0) / 255.0, 0.01, 0.99)
    extra = []
  else:
    import discs.learning.binary_ebm.main_binary_training as m
    from discs.learning import train
    data = (images().reshape(230, -1) > 150).astype(np.float32)
    train.load_numpyds = lambda name, folder: data
    folder, name = 'binary_ebm/exp_config.py:static_mnist-1', 'static_mnist-1'
    from discs.models import resnet as mod
    mean = data.mean(0)
    extra = ['--config.experiment.buffer_size=120']
  argv = ['train', '--config=%s/learning/%s' % (here, folder),
          '--save_root=' + root,
          '--config.experiment.total_train_steps=%d' % total,
          '--config.experiment.save_every_steps=2',
          '--config.experiment.plot_every_steps=2',
          '--config.experiment.pcd_steps=2'] + extra
  sys.argv = argv
  flags.FLAGS(argv)
  with torchless.quiet():
    m.main(['train'])
  bad = []
  d = os.path.join(root, name)
  from flax.training import checkpoints
  done = total if which == 'ebm' else min(total, 230 // 100)
  step = done // 2 * 2
  ck = checkpoints.restore_checkpoint(
      os.path.abspath(os.path.join(d, 'ckpts', 'checkpoint_%d' % step)), None)
  if int(ck['step']) != step:
    bad.append('checkpoint of update %d has step %s' % (step, ck['step']))
  cfg = ml_collections.ConfigDict(dict(model=dict(
      name=which, data_path=d, num_categories=2)))
  with torchless.quiet():
    model = mod.build_model(cfg)
    params = dict(model.make_init_params(jax.random.PRNGKey(0)))
  got = np.asarray(params.pop('data_mean', np.nan), np.float64).reshape(-1)
  if got.shape != mean.shape or not np.abs(got - mean).max() < 1e-5:
    bad.append('the stored data mean is not the mean of the data (%s)' % (
        got[:4]))
  if done == step:
    a = jax.tree_util.tree_leaves_with_path(params)
    b = jax.tree_util.tree_leaves_with_path(ck['params'])
    if [p for p, _ in a] != [p for p, _ in b] or any(
        np.shape(x) != np.shape(y) or np.abs(
            np.asarray(x) - np.asarray(y)).max() > 1e-6
        for (_, x), (_, y) in zip(a, b)):
      bad.append('the parameter file does not hold the trained parameters')
  x = (np.arange(784 * 3).reshape(3, 784) % 5 == 0).astype(np.int32)
  v = np.asarray(model.forward(model.make_init_params(jax.random.PRNGKey(0)), x))
  if v.shape != (3,) or not np.isfinite(v).all():
    bad.append('the trained model gives %s' % v)
  if not [f for f in os.listdir(os.path.join(d, 'logs', 'figures'))
          if f.startswith('chain-2')]:
    bad.append('no picture of the chains')
  with open(os.path.join(top, 'out.pkl'), 'wb') as f:
    pickle.dump(dict(bad=bad), f)


if __name__ == '__main__':
  main(sys.argv[1], sys.argv[2], sys.argv[3] == '1', int(sys.argv[4]))
