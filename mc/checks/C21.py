"""C21: text metrics equal their definitions; top-k keeps the likeliest."""
import collections
import itertools
import math
import os
import pickle
import shutil
import tempfile
import warnings
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
from jax.experimental import io_callback
from discs.common import configs, experiment_saver
from discs.evaluators import lm_eval
from discs.experiment import sampling
from discs.experiment.configs import lm_experiment
from mc import graphs, report
from mc.report import guarded

warnings.filterwarnings('ignore')

# ---------------------------------------------------------------- metrics


def grams(sent, n):
  return [tuple(sent[i:i + n]) for i in range(len(sent) - n + 1)]


def bleu4(cands, refs_of):
  """Corpus BLEU-4, uniform weights, by definition."""
  num, den = [0] * 5, [0] * 5
  c_len = r_len = 0
  for cand, refs in zip(cands, refs_of):
    for n in range(1, 5):
      cnt = collections.Counter(grams(cand, n))
      best = collections.Counter()
      for r in refs:
        rc = collections.Counter(grams(r, n))
        for g in cnt:
          best[g] = max(best[g], rc[g])
      num[n] += sum(min(c, best[g]) for g, c in cnt.items())
      den[n] += max(1, sum(cnt.values()))
    c_len += len(cand)
    r_len += min((abs(len(r) - len(cand)), len(r)) for r in refs)[1]
  if any(num[n] == 0 for n in range(1, 5)):
    return 0.0
  bp = 1.0 if c_len > r_len else math.exp(1 - r_len / c_len)
  return bp * math.exp(sum(math.log(num[n] / den[n]) for n in range(1, 5)) / 4)


def prep(lines, which):
  rep = {'wiki': {'@@unknown@@': '[UNK]'}, 'tbc': {'``': '"', "''": '"'}}[which]
  return [[rep.get(t.lower(), t.lower()) for t in l.split()] for l in lines]


def oracle(sents, wiki, tbc, max_n):
  p = [s.split() for s in sents]
  w, t = prep(wiki, 'wiki'), prep(tbc, 'tbc')
  out = {'tbc_bleu': bleu4(p, [t] * len(p)), 'wiki_bleu': bleu4(p, [w] * len(p)),
         'tbc_wiki_bleu': bleu4(p, [t + w] * len(p))}
  if len(p) > 1:
    out['self_bleu'] = bleu4(p, [[q for j, q in enumerate(p) if j != i]
                                 for i in range(len(p))])
  for n in range(1, max_n + 1):
    mine = [g for s in p for g in grams(s, n)]
    cnt = collections.Counter(mine)
    for nm, ref in (('wiki', w), ('tbc', t)):
      have = set(g for s in ref for g in grams(s, n))
      out['unique_%s_%d_grams' % (nm, n)] = len(set(mine) - have) / len(mine)
    out['unique_self_%d_grams' % n] = sum(
        v == 1 for v in cnt.values()) / len(mine)
  return out


class Corpus:
  """Scratch reference files."""

  def __enter__(self):
    self.d = tempfile.mkdtemp(prefix='c21_')
    return self

  def put(self, wiki, tbc):
    for fn, ls in (('wiki103_remove_infill.5k.txt', wiki),
                   ('tbc_remove_infill.5k.txt', tbc)):
      with open(os.path.join(self.d, fn), 'w') as f:
        f.write(''.join(l + '\n' for l in ls))

  def __exit__(self, *a):
    shutil.rmtree(self.d)


def metric_cases(chk, label, preds_list, refs_list, max_n):
  """All predictions x all reference corpora."""
  cfg = ml_collections.ConfigDict(dict(experiment=dict(max_n_grams=max_n)))
  ev = lm_eval.build_evaluator(cfg)
  with Corpus() as c:
    for wiki, tbc in refs_list:
      c.put(wiki, tbc)
      for preds in preds_list:
        with graphs.quiet():
          got = ev.evaluate(list(preds), c.d)
        chk.count(states=1, transitions=1, traces=1)
        want = oracle(preds, wiki, tbc, max_n)
        rep = dict(sentences=preds, wiki=wiki, tbc=tbc, max_n=max_n)
        if list(got.get('infill_sents', [])) != list(preds):
          chk.violation('%s: the evaluated sentences %s are reported as %s' % (
              label, preds, got.get('infill_sents')), key='sents:' + label,
              replay=rep)
          return
        if set(got) - {'infill_sents'} != set(want):
          chk.violation('%s: metrics reported %s, expected %s' % (
              label, sorted(got), sorted(want)), key='names:' + label,
              replay=rep)
          return
        for k, v in want.items():
          if not abs(float(got[k]) - v) < 1e-9:
            chk.violation('%s: %s is %.6f, should be %.6f for sentences %s, '
                          'wiki %s, tbc %s' % (label, k, got[k], v, preds, wiki,
                                               tbc), key=k + ':' + label,
                          replay=rep)
            return
  chk.cover(label, len(preds_list) * len(refs_list))


def words(lens, voc='ab'):
  return [' '.join(w) for n in lens for w in itertools.product(voc, repeat=n)]

# ------------------------------------------------------------- experiment


class Script:
  """Model, sampler and evaluator whose every value is scripted."""

  def __init__(self, tasks, steps):
    self.tasks, self.steps = tasks, steps   # [(likelihoods, sentences)]
    self.t, self.r, self.s = -1, 0, 0
    self.keys, self.bad = [], None
    self.shape = (2,)
    self.evaluated = []

  # model
  def make_init_params(self, rng):
    if self.t >= 0 and self.r != self.need and self.bad is None:
      self.bad = 'task %d was resampled %d times, not %d' % (
          self.t, self.r, self.need)
    self.t += 1
    self.r = self.s = 0
    if self.t >= len(self.tasks):
      return None
    return dict(like=jnp.asarray(self.tasks[self.t][0], jnp.float32),
                task=jnp.int32(self.t))

  def get_init_samples(self, rng, n):
    return jnp.zeros((n, 2), jnp.int32)

  def forward(self, params, x):
    return params['like'][x.reshape(x.shape[0], -1)[:, 0].astype(jnp.int32)]

  def decode(self, x, params):
    v = np.asarray(x).reshape(-1)
    return self.tasks[int(params['task'])][1][int(v[0])]

  # sampler
  def make_init_state(self, rng):
    return dict(steps=jnp.zeros((), jnp.int32),
                num_ll_calls=jnp.zeros((), jnp.int32))

  def host(self, x, key, steps):
    self.keys.append(tuple(np.asarray(key).reshape(-1).tolist()))
    self.s += 1
    done = self.s == self.steps
    out = np.array([self.r, self.s], np.int32)
    if done:
      self.r += 1
      self.s = 0
    return out.reshape(np.shape(x))

  def step(self, model, rng, x, model_param, state, x_mask=None):
    new = io_callback(self.host, jax.ShapeDtypeStruct(x.shape, jnp.int32), x,
                      rng, state['steps'], ordered=True)
    return new, dict(state, steps=state['steps'] + 1), jnp.ones((x.shape[0],))

  # evaluator
  def evaluate(self, sentences, data_root):
    self.evaluated.append((list(sentences), data_root))
    return dict(infill_sents=list(sentences), n=len(sentences))


def topk(chk, tasks, R, k, use, steps, ratio):
  lab = 'resamples=%d topk=%s steps=%d' % (R, k if use else 'off', steps)
  sc = Script(tasks, steps)
  sc.need = R
  top = tempfile.mkdtemp(prefix='c21_')
  try:
    cfg = configs.get_config()
    cfg.update(lm_experiment.get_config())
    with cfg.unlocked():
      cfg.model.name, cfg.model.shape = 'text_infilling', (2,)
      cfg.model.data_root = os.path.join(top, 'data')
      cfg.model.save_dir_name = 'text_infilling'
      e = cfg.experiment
      e.num_same_resample, e.topk_num, e.use_topk = R, k, use
      e.chain_length, e.ess_ratio = steps, ratio
      e.save_root = os.path.join(top, 'out')
      cfg.sampler.name = 'stub'
    os.makedirs(cfg.experiment.save_root)
    with graphs.quiet():
      exp = sampling.Text_Infilling_Experiment(cfg)
      saver = experiment_saver.build_saver(cfg)
      exp.get_results(sc, sc, sc, saver)
    files = {}
    for d, _, fs in os.walk(top):
      for f in fs:
        if f.endswith('.pkl'):
          files[f] = pickle.load(open(os.path.join(d, f), 'rb'))
  finally:
    shutil.rmtree(top)
  chk.count(states=len(tasks) * R, transitions=len(sc.keys), traces=len(tasks))
  rep = dict(tasks=tasks, resamples=R, k=k, use_topk=use)

  def bad(w, key):
    chk.violation('%s: %s' % (lab, w), key='%s:%s' % (key, lab), replay=rep)

  if sc.bad:
    return bad(sc.bad, 'resample')
  if len(set(sc.keys)) != len(sc.keys):
    return bad('two steps (of different sentences or tasks) use the same '
               'random key', 'key')
  if not sc.evaluated or 'results.pkl' not in files:
    return bad('no results saved', 'none')
  want = [s for _, ss in tasks for s in ss]
  got = list(files['results.pkl'].get('infill_sents', []))
  if got != want or sc.evaluated[0][0] != want:
    return bad('sentences evaluated %s, sampled %s' % (got, want), 'all')
  if not use:
    if 'results_topk.pkl' in files:
      return bad('a top-k result without top-k selection', 'off')
    chk.cover('without top-k')
    return
  if 'results_topk.pkl' not in files:
    return bad('top-k results not saved', 'topk')
  kept = list(files['results_topk.pkl'].get('infill_sents', []))
  kk = min(k, R)
  if len(kept) != kk * len(tasks):
    return bad('%d sentences kept for %d tasks' % (len(kept), len(tasks)),
               'count')
  for i, (like, ss) in enumerate(tasks):
    mine = collections.Counter(kept[i * kk:(i + 1) * kk])
    # some choice of kk resamples with the largest likelihoods gives `mine`
    order = sorted(like, reverse=True)[:kk]
    ok = any(collections.Counter(ss[j] for j in c) == mine
             for c in itertools.combinations(range(R), kk)
             if sorted((like[j] for j in c), reverse=True) == order)
    if not ok:
      return bad('of sentences %s with log-likelihoods %s the %d kept are %s' %
                 (ss, like, kk, sorted(mine.elements())), 'pick')
  chk.cover('R=%d k=%d' % (R, k), len(tasks))


def weak_orders(R):
  for f in itertools.product(range(R), repeat=R):
    if set(f) == set(range(max(f) + 1)):
      yield f


def patterns(R, t):
  """Sentence texts of one task's resamples."""
  return {
      'distinct': ['t%d s%d x' % (t, r) for r in range(R)],
      'same': ['t%d same' % t] * R,
      'odd': [('%d 7 9' % r, ' lead %d' % t, '', 'tail ', 'one')[r % 5]
              for r in range(R)],
  }


SCALE = (-12.5, -3.0, 0.25, 2.0, 10.0, 100.0)


def batches(items, n):
  for i in range(0, len(items), n):
    yield items[i:i + n]


def end_to_end(chk):
  """Scripted sampling, real evaluator and saver."""
  top = tempfile.mkdtemp(prefix='c21_')
  tasks = [([0.0, 1.0, 0.5], ['a b a b b', 'b b a b a', 'a a a a b']),
           ([2.0, 2.5, -1.0], ['b a b a', 'a b b b a', 'b b b b'])]
  sc = Script(tasks, 2)
  sc.need = 3
  try:
    data = os.path.join(top, 'data')
    os.makedirs(data)
    wiki, tbc = ['a b a b a', 'b b b a'], ['a a b b a b', 'b a b a']
    for fn, ls in (('wiki103_remove_infill.5k.txt', wiki),
                   ('tbc_remove_infill.5k.txt', tbc)):
      with open(os.path.join(data, fn), 'w') as f:
        f.write('\n'.join(ls) + '\n')
    cfg = configs.get_config()
    cfg.update(lm_experiment.get_config())
    with cfg.unlocked():
      cfg.model.name, cfg.model.shape = 'text_infilling', (2,)
      cfg.model.data_root = data
      e = cfg.experiment
      e.num_same_resample, e.topk_num, e.use_topk = 3, 2, True
      e.chain_length = 2
      e.save_root = os.path.join(top, 'out')
      cfg.sampler.name = 'stub'
    os.makedirs(cfg.experiment.save_root)
    with graphs.quiet():
      sampling.Text_Infilling_Experiment(cfg).get_results(
          sc, sc, lm_eval.build_evaluator(cfg),
          experiment_saver.build_saver(cfg))
    res = {}
    for d, _, fs in os.walk(os.path.join(top, 'out')):
      for f in fs:
        if f.endswith('.pkl'):
          res[f] = pickle.load(open(os.path.join(d, f), 'rb'))
  finally:
    shutil.rmtree(top)
  kept = ['a a a a b', 'b b a b a', 'b a b a', 'a b b b a']
  for fn, sents in (('results.pkl', [s for _, ss in tasks for s in ss]),
                    ('results_topk.pkl', kept)):
    got = res.get(fn, {})
    want = oracle(sents, wiki, tbc, 4)
    chk.count(states=1, transitions=1, traces=1)
    if sorted(got.get('infill_sents', [])) != sorted(sents):
      chk.violation('end to end: %s holds sentences %s, should be %s' % (
          fn, got.get('infill_sents'), sents), key='e2e:' + fn,
          replay=dict(file=fn))
      return
    for k, v in want.items():
      if not abs(float(got.get(k, -1)) - v) < 1e-9:
        chk.violation('end to end: %s in %s is %s, should be %.6f' % (
            k, fn, got.get(k), v), key='e2e:%s:%s' % (fn, k),
            replay=dict(file=fn))
        return
  chk.cover('end to end')


def body(chk):
  q = chk.quick
  jobs = []
  short = words((2, 3))
  singles = [(s,) for s in short]
  pairs = list(itertools.combinations_with_replacement(short, 2))
  refs1 = [([w], [t]) for w in short for t in short]
  for i, chunk in enumerate(batches(refs1, 6 if q else 12)):
    jobs.append((metric_cases, 'pairs of 2-3 words, n-grams to 2',
                 singles + pairs, chunk, 2))
  # long enough for BLEU-4 to be positive
  lens = (4, 5)
  longs = words(lens)
  refs2 = [([w], [t]) for w in words((4,)) for t in words((5,))[::(4 if q else 1)]]
  for chunk in batches(refs2, 8):
    jobs.append((metric_cases, 'one sentence of 4-5 words',
                 [(s,) for s in longs], chunk, 4))
  fours = words((4,))
  jobs.append((metric_cases, 'two sentences of 4 words',
               list(itertools.product(fours, repeat=2)),
               [(['a b a b', 'b b b a a'], ['a a a a', 'b a b b'])], 4))
  # corpora of unequal sizes, sentences repeated across and within them
  pool = ['a b a b', 'b b b a a', 'a a a a', 'b a b b b']
  uneven = [(pool[:i], pool[4 - j:]) for i, j in itertools.product(
      range(1, 5), repeat=2) if i != j]
  jobs.append((metric_cases, 'corpora of unequal sizes',
               [(s,) for s in longs], uneven[:6], 4))
  jobs.append((metric_cases, 'corpora of unequal sizes',
               [(s,) for s in longs], uneven[6:], 4))
  if not q:
    for chunk in batches(list(itertools.combinations_with_replacement(
        longs, 2)), 300):
      jobs.append((metric_cases, 'two sentences of 4-5 words', chunk,
                   [(['a b a b', 'b b b a a'], ['a a a a', 'b a b b'])], 4))
    jobs.append((metric_cases, 'three sentences of 4 words',
                 list(itertools.product(fours, repeat=3)),
                 [(['a b a b', 'b b b a a'], ['a a a a', 'b a b b'])], 3))
  # case folding and replaced tokens
  toks = ('a', 'A', '@@unknown@@', '@@UNKNOWN@@', '``', "''", '"', '[UNK]')
  special = [' '.join(p) for p in itertools.product(toks, repeat=2)]
  sp_refs = [([w], [t]) for w in special for t in
             special]
  preds = [(s,) for s in ('a "', '" "', '[UNK] a', 'a A', '`` a',
                          '@@unknown@@ [UNK]', "'' \"")]
  for chunk in batches(sp_refs, 120):
    jobs.append((metric_cases, 'case and replaced tokens', preds, chunk, 2))
  # selection
  maxr = 4 if q else 5
  for R in range(1, maxr + 1):
    orders = [tuple(SCALE[i] for i in o) for o in weak_orders(R)]
    for pat in ('distinct', 'same', 'odd'):
      for k in range(1, R + 2):
        if R >= 4 and (pat == 'same' or (q and k in (1, R + 1) and
                                         pat == 'odd')):
          continue
        tasks = [(o, patterns(R, t)[pat]) for t, o in enumerate(orders)]
        for c in batches(tasks, 25):
          jobs.append((topk, c, R, k, True, 1 if R > 2 else 2, 0.5))
    jobs.append((topk, [(o, patterns(R, t)['distinct']) for t, o in
                        enumerate(orders[:5])], R, 1, False, 3, 0.5))
  long = [tuple(float((r + i) % 12) * (1 - 2 * v) for r in range(12))
          for i in range(12) for v in range(2)]      # two-digit resample numbers
  for pat in ('distinct', 'same', 'odd'):
    for k in (1, 3, 11):
      jobs.append((topk, [(o, patterns(12, t)[pat]) for t, o in
                          enumerate(long)], 12, k, True, 1, 0.5))
  jobs.append((end_to_end,))
  chk.bounds.append(
      'metrics: all one- and two-sentence outputs of 2..3 words and all of 4..5 '
      'words over two words, against one-sentence reference corpora of the same kind (all of 2..3 words, a fixed set of 4..5 words in the quick tier), n-grams to 4; '
      'selection: all likelihood orders (ties included) of up to %d resamples, '
      'all k, and rotations of 12 resamples; distinct, equal and oddly spaced '
      'sentences' % maxr)
  chk.assumptions.append(
      'at least one sentence is long enough for each n-gram size; BLEU without '
      'smoothing (zero when some n-gram order has no match); among equally '
      'likely sentences any may be kept')
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, str(j[1:2])[:120]), j[0], chk,
              *j[1:])


if __name__ == '__main__':
  report.run_main('C21', body, shards=(7, 8))
