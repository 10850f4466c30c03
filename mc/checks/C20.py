"""C20: infilling data never leaks the answers into the reference corpus."""
import collections
import itertools
import json
import math
import os
import random as pyrandom
import tempfile
import numpy as np
from mc import graphs, report
from mc.report import guarded, HarnessError


class Oracle:
  """Enumerates the outcomes of numpy.random calls by depth-first search."""

  def __init__(self):
    self.prefix, self.pos, self.sizes = [], 0, []

  def pick(self, n):
    i = self.pos
    self.pos += 1
    if i == len(self.prefix):
      self.prefix.append(0)
    self.sizes[i:] = [n]
    return self.prefix[i]

  def next(self):
    """Moves to the next script; False when all were explored."""
    while self.prefix:
      if self.prefix[-1] + 1 < self.sizes[len(self.prefix) - 1]:
        self.prefix[-1] += 1
        return True
      self.prefix.pop()
    return False

  def restart(self):
    self.pos, self.sizes = 0, []


ORC = Oracle()


def nth_perm(seq, k, r=None):
  """k-th ordered r-selection of seq without replacement."""
  pool, out = list(seq), []
  r = len(pool) if r is None else r
  for _ in range(r):
    k, j = divmod(k, len(pool))
    out.append(pool.pop(j))
  return out


def shuffle(x, *a, **k):
  y = list(x)
  x[:] = nth_perm(y, ORC.pick(math.factorial(len(y))))


def permutation(x):
  y = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
  return np.array(nth_perm(y, ORC.pick(math.factorial(len(y)))))


def choice(a, size=None, replace=True, p=None):
  pool = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
  n = 1 if size is None else int(np.prod(size))
  if replace:
    out = [pool[ORC.pick(len(pool))] for _ in range(n)]
  else:
    if n > len(pool):
      raise ValueError('Cannot take a larger sample than population when '
                       'replace is False')
    out = nth_perm(pool, ORC.pick(math.perm(len(pool), n)), n)
  return out[0] if size is None else np.array(out)


def sample(pool, k):
  return nth_perm(list(pool), ORC.pick(math.perm(len(pool), k)), k)


def install():
  np.random.shuffle, np.random.choice = shuffle, choice
  np.random.permutation = permutation
  pyrandom.shuffle, pyrandom.sample = shuffle, sample


class Tokenizer:
  """Splits words of more than three letters into pieces."""

  def tokenize(self, s):
    out = []
    for w in s.split():
      if w in ('[MASK]', '[UNK]') or len(w) <= 3:
        out.append(w)
      else:
        out += [w[:3]] + ['##' + c for c in w[3:]]
    return out


def clean_tbc(l):
  return l.replace('``', '').replace("''", '').replace('\n', '')


def clean_wiki(l):
  return l.replace('@@unknown@@', '[UNK]').replace(
      '@@UNKNOWN@@', '[UNK]').replace('@-@', '-').replace('\n', '')


def verify(tasks, files, corpora, masks, num, lo, hi):
  """None or the first discrepancy."""
  used = 0
  for (lines, clean, ref), which in zip(
      ((corpora[0], clean_tbc, files[0]), (corpora[1], clean_wiki, files[1])),
      ('tbc', 'wiki')):
    cl = [clean(l) for l in lines]
    mine = [t for t in tasks if t['gt_sentence'] in cl]
    used += len(mine)
    left = collections.Counter(lines)
    left.subtract(collections.Counter(ref))
    if min(left.values(), default=0) < 0:
      return '%s: the reference file has a line %r more often than the corpus' % (
          which, min(left, key=left.get))
    taken = collections.Counter()
    for l, c in left.items():
      taken[clean(l)] += c
    want = collections.Counter(t['gt_sentence'] for t in mine)
    if +taken != want:
      return ('%s: lines %s are missing from the reference corpus, tasks were '
              'made of %s' % (which, dict(+taken), dict(want)))
    ok = [lo <= len(c.split(' ')) <= hi for c in cl]
    n = len(mine)
    if which == 'tbc':
      need = min(num, sum(ok))
      if n != need:
        return 'tbc: %d tasks, expected %d' % (n, need)
      full = n == num
    elif full and n != min(num, sum(ok)):
      return 'wiki: %d tasks, expected %d' % (n, min(num, sum(ok)))
    for t in mine:
      g, s = t['gt_sentence'].split(' '), t['sentence'].split(' ')
      if not lo <= len(g) <= hi:
        return '%s: task of %d words' % (which, len(g))
      if len(g) != len(s):
        return '%s: sentence %r became %r' % (which, t['gt_sentence'],
                                              t['sentence'])
      diff = [i for i in range(len(g)) if g[i] != s[i]]
      if len(diff) != masks or any(s[i] != '[MASK]' for i in diff) or any(
          i in (0, len(g) - 1) for i in diff):
        return '%s: %d masks requested, %r became %r' % (
            which, masks, t['gt_sentence'], t['sentence'])
      tok = Tokenizer().tokenize(t['sentence'])
      if list(t['infill_pos']) != [i + 1 for i, w in enumerate(tok)
                                   if w == '[MASK]']:
        return '%s: mask positions %s recorded for %s' % (
            which, t['infill_pos'], ['[CLS]'] + tok)
  if used != len(tasks):
    return 'tasks not made from a corpus line: %s' % tasks
  return None


def run(chk, name, tbc, wiki, masks, num, lo, hi):
  from discs.common import utils
  install()
  lab = '%s masks=%d sentences=%d length %d..%d' % (name, masks, num, lo, hi)
  ORC.__init__()
  n = 0
  with tempfile.TemporaryDirectory(prefix='mc_c20_') as root:
    def put(f, ls):
      with open(os.path.join(root, f), 'w') as o:
        o.writelines(ls)
    put('tbc.5k.txt', tbc)
    put('wiki103.5k.txt', wiki)
    while True:
      ORC.restart()
      with graphs.quiet():
        utils.create_infill_dataset(root, Tokenizer(), masks,
                                    num_of_sentences=num, min_length=lo,
                                    max_length=hi)
      n += 1
      with open(os.path.join(root, 'infilling_task.json')) as f:
        tasks = json.load(f)
      files = []
      for f in ('tbc_remove_infill.5k.txt', 'wiki103_remove_infill.5k.txt'):
        with open(os.path.join(root, f)) as o:
          files.append(o.readlines())
      src = []
      for f in ('tbc.5k.txt', 'wiki103.5k.txt'):
        with open(os.path.join(root, f)) as o:
          src.append(o.readlines())
      w = verify(tasks, files, (tbc, wiki), masks, num, lo, hi)
      if src != [tbc, wiki]:
        w = 'the source corpora were changed'
      if w:
        chk.violation('%s: %s' % (lab, w), key=lab, replay=dict(
            case=lab, script=list(ORC.prefix), tbc=tbc, wiki=wiki, tasks=tasks))
        return
      if n > 60000:
        chk.exhaustive = False
        break
      if not ORC.next():
        break
  chk.count(states=n, transitions=n * max(1, len(ORC.sizes)), traces=n)
  chk.cover(lab, n)
  chk.sample(dict(case=lab, outcomes=n))


A = ['one two tri four\n', 'five six sevn\n', "eight nine ``ten'' elev twlv\n",
     'one two tri four\n', 'xx yy\n']
W = ['aa bbbb cc ddd\n', 'ee @@unknown@@ ff gggg\n', 'hh ii jjj\n',
     'kk @-@ ll mm nn\n', 'oo\n']


def body(chk):
  q = chk.quick
  chk.bounds.append('corpora of up to %d lines each: all shuffles of both corpora '
                    'and all mask position draws' % (3 if q else 4))
  jobs = []
  for masks in (1, 2):
    for num in (0, 1, 2, 3):
      for t in ((0, 1), (1, 3), (0, 1, 4), (0, 3, 1), (2, 4)):
        for w in ((0,), (0, 1), (2, 4, 3), (1, 4)):
          for lo, hi in ((masks + 2, 5), (masks + 2, 4), (4, 4)):
            jobs.append(('tbc%s wiki%s' % (t, w), [A[i] for i in t],
                         [W[i] for i in w], masks, num, lo, hi))
  if not q:
    for masks in (1, 2):
      jobs.append(('four lines', A[:4], W[:3], masks, 1, 4, 5))
      jobs.append(('four wiki lines', A[:2], W[:4], masks, 1, masks + 2, 5))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s masks=%d n=%d' % (j[0], j[3], j[4]), run, chk, *j)


if __name__ == '__main__':
  report.run_main('C20', body, shards=(6, 8))
