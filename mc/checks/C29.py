"""C29: the text-infilling target is the masked-language-model likelihood.

The real model class runs the repository's customised BERT on a tiny
checkpoint; the oracle is the unmodified BERT of the transformers library, with
the same weights, on the completed sentence.
"""
import itertools
import json
import os
import pickle
import shutil
import tempfile
import types
import warnings

os.environ.setdefault('TRANSFORMERS_VERBOSITY', 'error')
os.environ.setdefault('HF_HUB_OFFLINE', '1')
from mc import engine
engine.install()
from mc import report, law, graphs
from mc.report import guarded
import jax
import jax.numpy as jnp
import numpy as np
import ml_collections
from jax.experimental import io_callback
import transformers
from transformers import BertConfig, BertTokenizer
from discs.common import configs
from discs.common import customized_huggingface_flax_bert as bert
from discs.common import experiment_saver
from discs.experiment import sampling
from discs.experiment.configs import lm_experiment
from discs.models import text_infilling
from discs.models.configs import text_infilling_config

warnings.filterwarnings('ignore')
V, MASK = 104, 103
WORDS = ['the', 'a', 'cat', 'dog', 'sat', 'ran', 'on', 'in', 'mat', 'sun', '.',
         'and', '##s', '##ing']


def vocab():
  v = ['[PAD]'] + WORDS + ['w%d' % i for i in range(100)]
  v = v[:100] + ['[UNK]', '[CLS]', '[SEP]', '[MASK]']
  assert len(v) == V and v[MASK] == '[MASK]'
  return v


class World:
  """Checkpoint, tokenizer files and task file in a scratch directory."""

  def __init__(self, tasks, size=V, layers=1, hidden=4, seed=1):
    self.size = size
    self.d = tempfile.mkdtemp(prefix='c29_')
    voc = vocab() + ['x%d' % i for i in range(size - V)]
    with open(os.path.join(self.d, 'vocab.txt'), 'w') as f:
      f.write('\n'.join(voc) + '\n')
    with open(os.path.join(self.d, 'infilling_task.json'), 'w') as f:
      json.dump(tasks, f)
    cfg = BertConfig(vocab_size=size, hidden_size=hidden,
                     num_hidden_layers=layers, num_attention_heads=2,
                     intermediate_size=6, initializer_range=0.9,
                     max_position_embeddings=32)
    self.ref = transformers.FlaxBertForMaskedLM(cfg, seed=seed)
    p = jax.tree_util.tree_map(np.array, self.ref.params)
    rng = np.random.RandomState(seed)     # biases and scales are trained too
    p = jax.tree_util.tree_map(
        lambda a: a + (0.4 * rng.randn(*a.shape)).astype(np.float32)
        if a.ndim == 1 else a, p)
    self.ref.params = p
    self.ref.save_pretrained(self.d)
    BertTokenizer(os.path.join(self.d, 'vocab.txt')).save_pretrained(self.d)

  def model(self, random_init=False):
    cfg = text_infilling_config.get_config()
    with cfg.unlocked():
      cfg.num_categories = self.size
      cfg.bert_model = self.d
      cfg.data_root = self.d
      cfg.random_init_sample = random_init
    with tiny(self.size), graphs.quiet():
      return text_infilling.build_model(ml_collections.ConfigDict(
          dict(model=cfg)))

  def close(self):
    shutil.rmtree(self.d)


class tiny:
  """Weight initialisation for a vocabulary other than BERT's 30522 words.

  The checkpoint loader only asks for the shapes; the values come from the
  checkpoint.
  """

  def __init__(self, size):
    self.size = size

  def __enter__(self):
    self.old = bert.FlaxBertPreTrainedModel.init_weights
    if self.size == 30522:
      return

    def init_weights(m, rng, input_shape, params=None):
      ids = jnp.zeros(input_shape, 'i4')
      return m.module.init(
          {'params': rng, 'dropout': rng}, ids,
          jnp.zeros((input_shape[0], 1, self.size)), None, jnp.ones_like(ids),
          jnp.zeros_like(ids), ids, return_dict=False)['params']

    bert.FlaxBertPreTrainedModel.init_weights = init_weights

  def __exit__(self, *a):
    bert.FlaxBertPreTrainedModel.init_weights = self.old


def ids_of(w, sentence):
  tok = BertTokenizer(os.path.join(w.d, 'vocab.txt'))
  return np.array(tok(sentence)['input_ids'])


def ref_logp(w, rows):
  """Log-probabilities [N, L, V] of the library's BERT on complete sentences."""
  out = []
  fn = jax.jit(lambda r: jax.nn.log_softmax(w.ref(input_ids=r).logits, -1))
  for i in range(0, len(rows), 512):
    r = rows[i:i + 512]
    pad = 512 - len(r) if len(rows) > 512 else 0
    out.append(np.asarray(fn(np.pad(r, ((0, pad), (0, 0)), 'edge')))[:len(r)])
  return np.concatenate(out)


def oracle(w, ids, pos, fills):
  """Sum over positions of log p(token | rest, [MASK] at the position)."""
  total = np.zeros(len(fills))
  for i, p in enumerate(pos):
    ctx = np.array(fills)
    ctx[:, i] = MASK
    uniq, inv = np.unique(ctx, axis=0, return_inverse=True)
    rows = np.tile(ids, (len(uniq), 1))
    rows[:, list(pos)] = uniq
    lp = ref_logp(w, rows)[:, p]
    total += lp[np.ravel(inv), np.array(fills)[:, i]]
  return total


def load(m):
  with graphs.quiet():
    return m.make_init_params(jax.random.PRNGKey(0))


def energy(chk, label, sentence, pos, fills, layers, seed):
  """forward on every fill, all representations; gradients on some."""
  task = dict(sentence=sentence, infill_pos=list(pos))
  w = World([task], layers=layers, seed=seed)
  try:
    m = w.model()
    params = load(m)
    ids = ids_of(w, sentence)
    fills = np.array(fills, np.int32).reshape(-1, len(pos))
    want = oracle(w, ids, pos, fills)
    with graphs.quiet():
      fwd = jax.jit(m.forward)
      for rep in ('int', 'float', 'one-hot'):
        got = []
        n = 256
        for i in range(0, len(fills), n):
          x = fills[i:i + n]
          k = len(x)
          if len(fills) > n and k < n:
            x = np.concatenate([x, np.repeat(x[:1], n - k, 0)])
          x = jnp.asarray(x)
          if rep == 'float':
            x = x.astype(jnp.float32)
          elif rep == 'one-hot':
            x = jax.nn.one_hot(x, V)
          got.append(np.asarray(fwd(params, x))[:k])
        got = np.concatenate(got)
        chk.count(states=len(fills), transitions=len(fills), traces=len(fills))
        err = np.abs(got - want)
        if got.shape != want.shape or not (err < 2e-3 +
                                           1e-4 * np.abs(want)).all():
          j = int(np.argmax(np.where(np.isfinite(err), err, 1e9)))
          chk.violation(
              '%s (%s input): fill %s of positions %s in "%s" has log-likelihood '
              '%.5f, the masked language model gives %.5f' % (
                  label, rep, fills[j].tolist(), list(pos), sentence,
                  float(got[j]), float(want[j])), key='energy:%s:%s' % (
                      label, rep), replay=dict(task=task,
                                               fill=fills[j].tolist()))
          return
      # value and gradient
      some = fills[:: max(1, len(fills) // 12)][:12]
      x = jax.nn.one_hot(jnp.asarray(some), V)
      val, grad = m.get_value_and_grad(params, x)
      auto = jax.grad(lambda z: m.forward(params, z).sum())(x)
      wv = oracle(w, ids, pos, some)
    chk.count(states=len(some), transitions=len(some), traces=len(some))
    if np.shape(val) != wv.shape or not np.allclose(val, wv, atol=2e-3,
                                                    rtol=1e-4):
      chk.violation('%s: get_value_and_grad reports %s, should be %s' % (
          label, np.asarray(val).ravel()[:4], wv[:4]), key='value:' + label,
          replay=dict(task=task))
      return
    if np.shape(grad) != x.shape or not np.allclose(grad, auto, atol=2e-3,
                                                    rtol=1e-3):
      chk.violation('%s: the reported gradient is not the gradient of the '
                    'log-likelihood' % label, key='grad:' + label,
                    replay=dict(task=task))
      return
    # the derivative along each single-token change, by central differences
    e = 1e-2
    for s in some[:3]:
      x1 = np.asarray(jax.nn.one_hot(jnp.asarray(s), V))
      pert = []
      dirs = []
      for i in range(len(pos)):
        for t in (0, 3, 7, MASK, int(s[i])):
          d = np.zeros_like(x1)
          d[i, t] = 1
          dirs.append(d)
          pert += [x1 + e * d, x1 - e * d]
      with graphs.quiet():
        f = np.asarray(fwd(params, jnp.asarray(np.array(pert))))
        g = np.asarray(m.get_value_and_grad(params, jnp.asarray(x1)[None])[1])[0]
      num = (f[0::2] - f[1::2]) / (2 * e)
      ana = np.array([(g * d).sum() for d in dirs])
      chk.count(states=len(dirs), transitions=len(dirs))
      if not np.allclose(num, ana, atol=0.08, rtol=0.08):
        j = int(np.argmax(np.abs(num - ana)))
        chk.violation('%s: the gradient gives %.4f where the log-likelihood '
                      'changes at rate %.4f' % (label, ana[j], num[j]),
                      key='num:' + label, replay=dict(task=task))
        return
  finally:
    w.close()
  chk.cover(label, len(fills))


def init_law(chk, sentence, pos, random_init):
  label = 'initial %s, %d positions' % (
      'uniform' if random_init else 'from the model', len(pos))
  w = World([dict(sentence=sentence, infill_pos=list(pos))])
  try:
    m = w.model(random_init)
    load(m)
    ids = ids_of(w, sentence)
    with graphs.quiet():
      out, prob, tol = law.worlds(
          lambda: m.get_init_samples(jnp.asarray(engine.KEY), 1).astype(
              jnp.int32))
    out = np.asarray(out).reshape(len(prob), -1)
    chk.count(states=len(prob), transitions=len(prob), traces=len(prob))
    if out.shape[1] != len(pos) or out.min() < 0 or out.max() >= V:
      chk.violation('%s: initial sample of shape %s, values %d..%d' % (
          label, out.shape, out.min(), out.max()), key='init-shape:' + label,
          replay=dict(positions=list(pos)))
      return
    ids2 = ids.copy()
    ids2[list(pos)] = MASK
    lp = ref_logp(w, ids2[None])[0]
    want = np.ones(1)
    for p in pos:
      f = np.full(V, 1.0 / V) if random_init else np.exp(lp[p])
      want = np.multiply.outer(want, f)
    want = want.reshape(-1)
    got = np.zeros(V ** len(pos))
    code = np.zeros(len(out), np.int64)
    for i in range(len(pos)):
      code = code * V + out[:, i]
    np.add.at(got, code, prob)
    if not np.allclose(got, want, atol=max(tol, 1e-4)):
      j = int(np.argmax(np.abs(got - want)))
      chk.violation('%s: fill %s has probability %.5f, should be %.5f' % (
          label, np.unravel_index(j, (V,) * len(pos)), got[j], want[j]),
          key='init:' + label, replay=dict(positions=list(pos)))
      return
  finally:
    w.close()
  chk.cover(label)


def decode(chk, tasks, fills):
  """Tasks in order, once each; the fill goes to its positions only."""
  w = World(tasks)
  try:
    m = w.model()
    tok = BertTokenizer(os.path.join(w.d, 'vocab.txt'))
    for n, t in enumerate(tasks):
      params = load(m)
      ids = ids_of(w, t['sentence'])
      pos = t['infill_pos']
      if params is None:
        chk.violation('only %d of %d tasks are served' % (n, len(tasks)),
                      key='served', replay=dict(tasks=tasks))
        return
      if tuple(m.shape) != (len(pos),):
        chk.violation('task with %d positions gives samples of shape %s' % (
            len(pos), m.shape), key='shape', replay=dict(task=t))
        return
      for f in itertools.product(fills, repeat=len(pos)):
        want = ids.copy()
        want[pos] = f
        text = tok.decode(want[1:-1].tolist())
        for dt in (jnp.int32, jnp.float32):
          with graphs.quiet():
            got = m.decode(jnp.asarray([f], dt), params)
          chk.count(states=1, transitions=1, traces=1)
          if got != text:
            chk.violation('fill %s of task %s is decoded as "%s", should be '
                          '"%s"' % (f, t, got, text), key='decode',
                          replay=dict(task=t, fill=f))
            return
    for _ in range(2):
      if load(m) is not None:
        chk.violation('more tasks served than the file holds', key='more',
                      replay=dict(tasks=tasks))
        return
  finally:
    w.close()
  chk.cover('decoding', len(tasks))


class Pick:
  """Sampler stub: the r-th chain of task t ends in a scripted fill."""

  def __init__(self, script, steps):
    self.script, self.steps = script, steps
    self.n = 0

  def make_init_state(self, rng):
    return dict(steps=jnp.zeros((), jnp.int32),
                num_ll_calls=jnp.zeros((), jnp.int32))

  def host(self, x):
    r = self.n // self.steps
    self.n += 1
    return np.array(self.script[r], np.int32).reshape(np.shape(x))

  def step(self, model, rng, x, model_param, state, x_mask=None):
    new = io_callback(self.host, jax.ShapeDtypeStruct(x.shape, jnp.int32), x,
                      ordered=True)
    return new, dict(state, steps=state['steps'] + 1), jnp.ones((x.shape[0],))


class Record:
  def __init__(self):
    self.calls = []

  def evaluate(self, sents, root):
    self.calls.append(list(sents))
    return dict(infill_sents=list(sents))


def pipeline(chk, label, tasks, fills, k, size):
  """Real experiment and model: kept fills are the likeliest under BERT."""
  w = World(tasks, size=size)
  top = tempfile.mkdtemp(prefix='c29_')
  try:
    R = len(fills[0])
    cfg = configs.get_config()
    cfg.update(lm_experiment.get_config())
    with cfg.unlocked():
      cfg.model.update(text_infilling_config.get_config())
      cfg.model.num_categories, cfg.model.bert_model = size, w.d
      cfg.model.data_root = w.d
      cfg.model.shape = (len(tasks[0]['infill_pos']),)
      e = cfg.experiment
      e.num_same_resample, e.topk_num, e.use_topk = R, k, True
      e.chain_length = 2
      e.save_root = os.path.join(top, 'out')
      cfg.sampler.name = 'stub'
    os.makedirs(cfg.experiment.save_root)
    m = w.model()
    rec = Record()
    with graphs.quiet():
      sampling.Text_Infilling_Experiment(cfg).get_results(
          m, Pick([f for fs in fills for f in fs], 2), rec,
          experiment_saver.build_saver(cfg))
    tok = BertTokenizer(os.path.join(w.d, 'vocab.txt'))
    sents, kept = [], []
    for t, fs in zip(tasks, fills):
      ids = ids_of(w, t['sentence'])
      texts = []
      for f in fs:
        c = ids.copy()
        c[t['infill_pos']] = f
        texts.append(tok.decode(c[1:-1].tolist()))
      sents += texts
      like = oracle(w, ids, t['infill_pos'], np.array(fs))
      cut = np.sort(like)[-k]
      sure = [texts[j] for j in range(R) if like[j] > cut + 5e-3]
      maybe = [texts[j] for j in range(R) if abs(like[j] - cut) <= 5e-3]
      kept.append((sure, maybe))
    chk.count(states=len(sents), transitions=2 * len(sents), traces=len(tasks))
    if not rec.calls or rec.calls[0] != sents:
      chk.violation('%s: sentences %s evaluated, sampled %s' % (
          label, rec.calls[:1], sents), key='pipe:' + label,
          replay=dict(tasks=tasks, fills=fills))
    elif len(rec.calls) < 2 or len(rec.calls[1]) != k * len(tasks) or any(
        set(sure) - set(rec.calls[1][i * k:(i + 1) * k]) or
        set(rec.calls[1][i * k:(i + 1) * k]) - set(sure + maybe)
        for i, (sure, maybe) in enumerate(kept)):
      chk.violation('%s: of the fills of each task those kept are %s, the %d '
                    'likeliest (certain, tied) are %s' % (
                        label, rec.calls[1:2], k, kept),
                    key='pipe-top:' + label,
                    replay=dict(tasks=tasks, fills=fills))
  finally:
    w.close()
    shutil.rmtree(top)
  chk.cover('pipeline ' + label)


SENT = 'the [MASK] sat on [MASK] mat and [MASK] .'   # positions 2, 5, 8


def body(chk):
  q = chk.quick
  jobs = []
  all1 = [(t,) for t in range(V)]
  s1 = 'the cat sat on mat'
  for p in range(1, 6):
    jobs.append((energy, 'one position', s1, (p,), all1, 1, 1))
  all2 = list(itertools.product(range(V), repeat=2))
  sub = (0, 1, 3, 12, 50, 99, 100, 101, 102, 103)
  jobs.append((energy, 'two positions, all fills', 'a [MASK] [MASK] cats ran',
               (2, 3), all2, 1, 2))
  pairs = list(itertools.permutations(range(1, 6), 2))
  for a, b in pairs if not q else pairs[::4]:
    jobs.append((energy, 'two positions', s1, (a, b), list(itertools.product(
        sub, repeat=2)), 2, 3))
  jobs.append((energy, 'three positions', SENT, (2, 5, 8), list(
      itertools.product(sub[:6] if q else sub, repeat=3)), 2, 4))
  if not q:
    for c in itertools.combinations(range(1, 6), 3):
      jobs.append((energy, 'three positions', s1, c, list(itertools.product(
          sub, repeat=3)), 1, 5))
    jobs.append((energy, 'four positions', SENT, (1, 2, 5, 8), list(
        itertools.product(sub[:6], repeat=4)), 1, 6))
    for p in range(1, 11):
      jobs.append((energy, 'one position, long', SENT, (p,), all1, 3, 7))
  for ri in (False, True):
    jobs.append((init_law, s1, (2,), ri))
    jobs.append((init_law, s1, (4, 1), ri))
  tasks = [dict(sentence=SENT, infill_pos=[2, 5, 8]),
           dict(sentence='cats [MASK]', infill_pos=[3]),
           dict(sentence='[MASK] dogs running [MASK] sun', infill_pos=[1, 6]),
           dict(sentence='the [MASK] [MASK] .', infill_pos=[2, 3])]
  for perm in list(itertools.permutations(tasks))[::6 if q else 1]:
    jobs.append((decode, list(perm), (1, 4, 13, 100, 103)))
  fl = [[(3, 5), (5, 3), (12, 60), (61, 9)], [(7, 8), (70, 71), (8, 7), (3, 5)],
        [(12, 60), (3, 5), (9, 61), (40, 41)]]
  same = [dict(sentence='the [MASK] sat [MASK] mat', infill_pos=[2, 4]),
          dict(sentence='[MASK] cat [MASK] on mat', infill_pos=[1, 3]),
          dict(sentence='the cat sat [MASK] [MASK]', infill_pos=[4, 5])]
  diff = [dict(sentence='the [MASK] [MASK]', infill_pos=[2, 3]),
          dict(sentence='[MASK] cat sat on the mat and [MASK] .',
               infill_pos=[1, 8]),
          dict(sentence='[MASK] [MASK] sun', infill_pos=[1, 2])]
  for k in (1, 2, 3):
    jobs.append((pipeline, 'equal lengths', same, fl, k, V))
    jobs.append((pipeline, 'other lengths', diff, fl, k, V))
  jobs.append((pipeline, 'full vocabulary', same, fl, 2, 30522))
  chk.bounds.append(
      'vocabulary of 104 tokens ([MASK] is 103), BERT of 1..%d layers; all '
      'fills of one and of two positions, all fills from %d tokens of three '
      'positions; all position sets of sentences of five words' % (
          2 if q else 3, 6 if q else 10))
  chk.assumptions.append(
      'the transformers library BERT with the same weights is the reference; '
      'gradient compared at one-hot points')
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, str(j[1:4])[:120]), j[0], chk,
              *j[1:])


if __name__ == '__main__':
  report.run_main('C29', body, shards=(7, 8))
