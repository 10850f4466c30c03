"""C31: the training data pipeline delivers every image, intact, once."""
from mc import devices
DEVS = (1, 2, 4)
DEV = devices.setup(DEVS)
import argparse
import itertools
import os
import pickle
import shutil
import sys
import tempfile
import jax
import ml_collections
import numpy as np
from mc import report, torchless
from mc.report import guarded
torchless.install()
import tensorflow as tf


class Hosts:
  """This process plays host `i` of `n` hosts with DEV devices each."""

  def __init__(self, i, n):
    self.v = dict(process_index=i, process_count=n,
                  device_count=n * jax.local_device_count())

  def __enter__(self):
    self.old = {k: getattr(jax, k) for k in self.v}
    for k, v in self.v.items():
      setattr(jax, k, lambda *a, v=v, **kw: v)

  def __exit__(self, *a):
    for k, v in self.old.items():
      setattr(jax, k, v)


def data(n):
  return dict(id=np.arange(n, dtype=np.int32),
              x=np.arange(n * 2, dtype=np.float32).reshape(n, 2) * 0.5)


def pre(e):
  return dict(id=e['id'], x=e['x'] * 2.0 + tf.cast(e['id'], tf.float32))


def loader(chk, n, per, hosts, shuffle, repeat, prep, raw):
  from discs.common import data_loader
  L = jax.local_device_count()
  B = per * L * hosts
  lab = '%d examples, batch %d, %d hosts x %d devices%s%s%s' % (
      n, B, hosts, L, ', shuffle %d' % shuffle if shuffle else '',
      ', repeat' if repeat else '', ', preprocess' if prep else '')

  def bad(what, key):
    chk.violation('%s: %s' % (lab, what), key='%s:%s' % (key, lab),
                  replay=dict(case=lab))

  c = dict(batch_size=B)
  if shuffle:
    c['shuffle_buffer_size'] = shuffle
  cfg = ml_collections.ConfigDict(c)
  full = data(n)
  got = []
  for h in range(hosts):
    with Hosts(h, hosts):
      ds = tf.data.Dataset.from_tensor_slices(full['x'] if raw else full)
      it = data_loader.numpy_iter(data_loader.prepare_dataloader(
          ds, cfg, fn_preprocess=pre if prep else None, drop_remainder=True,
          repeat=repeat))
      mine = -(-max(n - h, 0) // hosts)        # examples of this host
      want = mine // (per * L) if not repeat else (
          2 * mine // (per * L) + 2 if mine else 0)
      out = list(itertools.islice(it, want + 1 if not repeat else want))
      if len(out) != want:
        return bad('host %d yields %d batches, not %d' % (h, len(out), want),
                   'batches')
      ids = []
      for b in out:
        x = b if raw else b['x']
        if np.shape(x) != (L, per, 2):
          return bad('host %d: a batch has shape %s, not %s' % (
              h, np.shape(x), (L, per, 2)), 'shape')
        x = np.asarray(x).reshape(-1, 2)
        i = (np.round(x[:, 0]).astype(int) if raw else
             np.asarray(b['id']).reshape(-1))
        ref = full['x'][i]
        if prep:
          ref = ref * 2.0 + i[:, None]
        if (x != ref).any():
          return bad('host %d: an example is delivered changed' % h, 'value')
        ids += i.tolist()
      if repeat and not shuffle:
        base = list(range(h, n, hosts))
        if ids != [base[k % len(base)] for k in range(len(ids))]:
          return bad('host %d: repeated order is %s' % (h, ids), 'order')
      if not repeat:
        if len(set(ids)) != len(ids):
          return bad('host %d delivers an example twice in one epoch: %s' % (
              h, ids), 'twice')
        if not shuffle and ids != list(range(h, n, hosts))[:len(ids)]:
          return bad('host %d: order is %s' % (h, ids), 'order')
      chk.count(states=len(out), transitions=len(ids), traces=1)
      got.append(set(ids))
  for a, b in itertools.combinations(range(hosts), 2):
    if got[a] & got[b]:
      return bad('hosts %d and %d both deliver examples %s' % (
          a, b, sorted(got[a] & got[b])), 'overlap')
  if repeat and not shuffle and set().union(*got) != set(range(n)) and all(
      n > h for h in range(hosts)):
    return bad('examples never delivered: %s' % (
        set(range(n)) - set().union(*got)), 'lost')
  chk.cover('loader, %d hosts x %d devices' % (hosts, L))


def binarise(chk):
  """Every pixel value against a grid of the uniform noise."""
  import discs.learning.rbm.main_rbm_training as main
  vals = np.arange(256, dtype=np.uint8).reshape(16, 16, 1)
  old = tf.random.uniform
  n = 0
  for k in range(256):
    u = k / 256.0 + 1e-4

    def uniform(shape=None, minval=0, maxval=None, dtype=tf.float32, **kw):
      hi = 1 if maxval is None else maxval
      return tf.fill(tf.convert_to_tensor(shape, tf.int32), tf.cast(
          minval + u * (hi - minval), dtype))

    tf.random.uniform = uniform
    try:
      x = main.data_preprocess({'image': tf.constant(vals)})
    finally:
      tf.random.uniform = old
    x = np.asarray(x).astype(int)
    want = (np.arange(256) / 255.0 > u).astype(int)
    n += 256
    if x.shape != (256,) or (x != want).any():
      i = int(np.argmax(x != want)) if x.shape == (256,) else -1
      chk.violation('a pixel of value %d becomes %s for the uniform draw %.4f' % (
          i, x.shape if i < 0 else x[i], u), key='binarise',
          replay=dict(pixel=i, uniform=u))
      return
  # the noise is drawn independently for every pixel
  seen = []

  def record(shape=None, *a, **kw):
    seen.append(tuple(int(s) for s in shape))
    return old(shape, *a, **kw)

  tf.random.uniform = record
  try:
    main.data_preprocess({'image': tf.constant(vals)})
  finally:
    tf.random.uniform = old
  if seen and max(int(np.prod(s)) for s in seen) < 256:
    chk.violation('noise of shape %s is shared by the pixels' % seen,
                  key='noise', replay=dict(shapes=seen))
  chk.count(states=256, transitions=n, traces=256)
  chk.cover('binarisation', n)


def mean(chk):
  from discs.learning import train
  for n in range(1, 5):
    for pat in itertools.product((0, 1, 128, 255), repeat=n):
      img = np.zeros((n, 2, 3, 1), np.uint8)
      img[:, 0, 0, 0] = pat
      img[:, 1, 2, 0] = np.arange(n) * 7
      ds = tf.data.Dataset.from_tensor_slices({'image': img})
      m = np.asarray(train.get_data_mean(ds), np.float64)
      want = np.clip(img.reshape(n, -1).astype(np.float64).mean(0) / 255.0,
                     0.01, 0.99)
      chk.count(states=1, transitions=n)
      if m.shape != want.shape or not np.abs(m - want).max() < 1e-5:
        chk.violation('the mean of pixels %s is %s, not %s' % (
            pat, m.tolist(), want.tolist()), key='mean:%s' % (pat,),
            replay=dict(pixels=pat))
        return
  for n in (255, 256, 257, 300, 511, 1025):          # many examples
    img = ((np.arange(n * 6) * 37) % 256).astype(np.uint8).reshape(n, 2, 3, 1)
    ds = tf.data.Dataset.from_tensor_slices({'image': img})
    m = np.asarray(train.get_data_mean(ds), np.float64)
    want = img.reshape(n, -1).astype(np.float64).mean(0) / 255.0
    chk.count(states=1, transitions=n)
    if m.shape != want.shape or not np.abs(m - want).max() < 2e-4:
      chk.violation('the mean of %d examples is %s, not %s' % (
          n, m.tolist(), want.tolist()), key='mean:n', replay=dict(examples=n))
      return
  chk.cover('data mean')


def img_rows(a):
  return sorted(map(bytes, np.ascontiguousarray(
      np.round(np.asarray(a, np.float64), 6)).reshape(len(a), -1)))


def raw(chk, name, sizes, seed):
  """A raw data set on disk -> the three splits."""
  from scipy.io import savemat
  from discs.learning import raw_torch_dataset as rd
  rng = np.random.RandomState(seed)
  top = tempfile.mkdtemp(prefix='c31_')
  lab = '%s %s' % (name, sizes)

  def bad(what, key):
    chk.violation('%s: %s' % (lab, what), key='%s:%s' % (key, lab),
                  replay=dict(case=lab))

  def images(n, shape=(28, 28)):
    x = np.zeros((n,) + shape)
    x[:] = rng.randint(0, 2, x.shape)
    for i in range(n):                 # make images distinct
      x[i, 0, :8] = [(i >> k) & 1 for k in range(8)]
    return x

  try:
    p = os.path.join(top, {'static_mnist': 'MNIST_static',
                           'omniglot': 'OMNIGLOT',
                           'caltech': 'Caltech101Silhouettes',
                           'histopathology': 'HistopathologyGray',
                           'freyfaces': 'Freyfaces'}[name])
    os.makedirs(p)
    if name == 'static_mnist':
      parts = [images(n) for n in sizes]
      for t, x in zip(('train', 'valid', 'test'), parts):
        with open(os.path.join(p, 'binarized_mnist_%s.amat' % t), 'w') as f:
          for r in x.reshape(len(x), -1).astype(int):
            f.write(' '.join(map(str, r)) + '\n')
    elif name == 'omniglot':
      tr, te = images(sizes[0] + 1345), images(sizes[2])
      col = lambda x: x.transpose(0, 2, 1).reshape(len(x), -1).T
      savemat(os.path.join(p, 'chardata.mat'),
              dict(data=col(tr), testdata=col(te)))
      parts = [tr, None, te]
    elif name == 'caltech':
      parts = [images(n) for n in sizes]
      savemat(os.path.join(p, 'caltech101_silhouettes_28_split1.mat'), {
          k + '_data': 1 - x.transpose(0, 2, 1).reshape(len(x), -1)
          for k, x in zip(('train', 'val', 'test'), parts)})
    elif name == 'histopathology':
      parts = [images(n) * 0.5 + 0.25 for n in sizes]
      pickle.dump(dict(zip(('training', 'validation', 'test'), parts)),
                  open(os.path.join(p, 'histopathology.pkl'), 'wb'))
    else:
      x = np.floor(rng.uniform(0, 256, (1965, 28 * 20)))
      savemat(os.path.join(p, 'frey_rawface.mat'), dict(ff=x.T))
      parts = [x / 256.0, None, None]
    np.random.seed(seed)
    with torchless.quiet():
      out = rd.load_raw_dataset(argparse.Namespace(
          dataset_name=name, data_dir=top))
  finally:
    shutil.rmtree(top)
  chk.count(states=1, transitions=sum(len(o) for o in out), traces=1)
  width = 28 * 20 if name == 'freyfaces' else 784
  if len(out) != 3 or any(np.shape(o)[1:] != (width,) for o in out):
    return bad('splits have shapes %s' % [np.shape(o) for o in out], 'shape')
  if name == 'freyfaces':
    if [len(o) for o in out] != [1565, 200, 200]:
      return bad('split sizes %s' % [len(o) for o in out], 'sizes')
    if img_rows(np.concatenate([np.asarray(o, np.float32) for o in out])
                ) != img_rows(np.asarray(parts[0], np.float32)):
      return bad('the splits are not a partition of the images', 'partition')
  elif name == 'omniglot':
    if [len(o) for o in out] != [sizes[0], 1345, sizes[2]]:
      return bad('split sizes %s' % [len(o) for o in out], 'sizes')
    if img_rows(np.concatenate(out[:2])) != img_rows(
        parts[0].reshape(len(parts[0]), -1)) or img_rows(out[2]) != img_rows(
            parts[2].reshape(len(parts[2]), -1)):
      return bad('the splits are not a partition of the images', 'partition')
  else:
    for o, x, n in zip(out, parts, ('training', 'validation', 'test')):
      if img_rows(np.asarray(o, np.float32)) != img_rows(
          np.asarray(x.reshape(len(x), -1), np.float32)):
        return bad('the %s images are not the stored ones' % n, 'images')
  chk.cover('raw ' + name)


def tile(chk, n, h, w, c, col, pad):
  """Every image appears once, in order, in the tiled picture."""
  from discs.plot_results import plot
  lab = '%d images %dx%dx%d, %d columns, padding %d' % (n, h, w, c, col, pad)
  r = np.random.RandomState(n * 7 + h)
  img = r.randint(0, 255, (n, h, w, c)).astype(np.uint8)
  out = plot.np_tile_imgs(img, pad_pixels=pad, num_col=col)
  cols = col if col > 0 else int(np.ceil(np.sqrt(n)))
  rows = n // col if col > 0 else cols
  H, W = h + 2 * pad, w + 2 * pad
  want = np.full((rows * H, cols * W, c), 255, np.uint8)
  for i in range(rows * cols):
    y, x = (i // cols) * H + pad, (i % cols) * W + pad
    if i < n:
      want[y:y + h, x:x + w] = img[i]
  if pad:
    want = want[pad:-pad, pad:-pad]
  if c == 1:
    want = want[..., 0]
  chk.count(states=1, transitions=n)
  if out.shape != want.shape or (out != want).any():
    chk.violation('%s: the tiled picture is wrong' % lab, key='tile:' + lab,
                  replay=dict(case=lab))
  chk.cover('tiling')


def body(chk):
  q = chk.quick
  N = 9 if q else 18
  chk.bounds.append('loader: all sizes 0..%d, 1-3 hosts x %s devices, 1-3 '
                    'examples per device, shuffled or not, repeated or not; 30 and 45 '
                    'examples behind shuffle buffers of 1-3' % (
                        N, DEVS))
  chk.bounds.append('binarisation: all 256 pixel values x 256 noise values')
  jobs = []
  for n in range(0, N + 1):
    for per, hosts in itertools.product((1, 2, 3), (1, 2, 3)):
      for sh, rep in ((0, False), (5, False), (0, True), (5, True)):
        if rep and n < hosts:
          continue               # a host without examples repeats nothing
        jobs.append((loader, n, per, hosts, sh, rep, n % 2 == 0, n % 3 == 2 and
                     n % 2 == 1))
  for n, per, hosts, sh, rep in itertools.product(
      (30, 45), (1, 2), (1, 2), (1, 2, 3), (False, True)):
    jobs.append((loader, n, per, hosts, sh, rep, True, False))
  for name in ('static_mnist', 'omniglot', 'caltech', 'histopathology',
               'freyfaces'):
    for sz in ((5, 3, 4), (1, 1, 1), (9, 2, 7)):
      jobs.append((raw, name, sz, 11))
  for n, (h, w), c, pad in itertools.product(
      range(1, 10 if q else 20), ((2, 3), (1, 1)), (1, 3), (0, 1, 2)):
    for col in (0,) + tuple(k for k in range(1, n + 1) if n % k == 0):
      jobs.append((tile, n, h, w, c, col, pad))
  jobs += [(mean,), (binarise,)]
  for j in jobs:
    if chk.mine() if j[0] is not loader else devices.mine(chk, DEVS):
      if not chk.full():
        guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C31', body, shards=(6, 6))
