"""C22: weighted index sampling follows its law and reports its likelihood."""
import collections
import itertools
import math
from mc import engine
engine.install()
import jax
import jax.numpy as jnp
import numpy as np
from discs.common import math_util
from mc import report
from mc.report import guarded, HarnessError

TOL, TOL_GRID = 2e-4, 8e-3


def worlds(fn, budget):
  """All discrete outcomes x a grid over the continuous draws of fn()."""
  with engine.scripted(engine.Ctx()) as c:
    fn()
  specs = c.found
  if len(set(c.keys)) != len(c.keys):
    return None
  codes = engine.n_codes(specs)
  conts = [s for s in specs if s[0] == 'c']
  g = sum(s[2] for s in conts)
  pts = 1
  if g:
    pts = int((budget / codes) ** (1.0 / g))
    if pts < 4:
      raise HarnessError('too many continuous draws: %s' % specs)
  # different point counts per axis: no two coordinates ever tie
  axes = [(np.arange(pts + k) + 0.5 + 0.0117 * k) / (pts + k)
          for k in range(g)]
  cells = (np.stack(np.meshgrid(*axes, indexing='ij'), -1).reshape(-1, g)
           if g else np.zeros((1, 0)))
  W = codes * len(cells)
  if W > 1500000:
    raise HarnessError('too many worlds: %d' % W)
  C = np.repeat(np.arange(codes), len(cells))
  G = np.tile(np.arange(len(cells)), codes)
  us, off = [], 0
  for s in conts:
    us.append(cells[G][:, off:off + s[2]])
    off += s[2]
  out, lp = engine.run_worlds(lambda _: fn(), np.zeros((W, 1)), C, us, specs,
                              chunk=60000)
  return out, np.exp(lp) / len(cells), (max(TOL_GRID, 0.4 / pts) if g else TOL)


def seq_ll(p, idx):
  """log-probability of each index given the ones before it."""
  out, left = [], 1.0
  for i in idx:
    out.append(math.log(p[i]) - math.log(left) if left > 1e-12 else 0.0)
    left -= p[i]
  return out


def norm(w):
  return np.asarray(w, float) / np.sum(w)


def table(w, rows):
  """One weight vector per row: row r has the weights rotated by r."""
  return np.stack([np.roll(norm(w), r) for r in range(math.prod(rows))])


def logs(P, rows, shift=0.0):
  return jnp.log(jnp.asarray(P, jnp.float32)).reshape(rows + (-1,)) + shift


WEIGHTS = {
    2: [(1, 1), (3, 1), (1, 19)],
    3: [(1, 1, 1), (5, 3, 2), (1, 2, 17), (8, 1, 1)],
    4: [(1, 1, 1, 1), (4, 3, 2, 1)],
}
SHIFT = (0.0, 2.5, -4.0)


def law(chk, lab, got, want, tol):
  keys = set(got) | set(want)
  e, k = max((abs(got.get(k, 0.0) - want.get(k, 0.0)), k) for k in keys)
  if not e < tol:
    chk.violation('%s: outcome %s has probability %.5f, should be %.5f' % (
        lab, k, got.get(k, 0.0), want.get(k, 0.0)), key='law:' + lab,
        replay=dict(case=lab, outcome=str(k)))
    return False
  return True


def shared(chk, lab):
  chk.violation('%s: two draws use the same random key' % lab,
                key='keys:' + lab, replay=dict(case=lab))


def tally(rows, prob):
  """Probability of each distinct row (integer array [W, n])."""
  rows = np.asarray(rows).reshape(len(prob), -1)
  u, inv = np.unique(rows, axis=0, return_inverse=True)
  w = np.bincount(inv.reshape(-1), weights=prob, minlength=len(u))
  return {tuple(int(v) for v in r): float(x) for r, x in zip(u, w) if x > 1e-12}


def fixed_repl(chk, w, k, shift, rows, budget):
  P = table(w, rows)
  K = len(w)
  lab = 'fixed, with replacement w=%s k=%d shift=%g rows=%s' % (
      w, k, shift, rows)
  lp = logs(P, rows, shift)

  def fn():
    return math_util.multinomial(engine.KEY, lp, k, return_ll=True)

  r = worlds(fn, budget)
  if r is None:
    return shared(chk, lab)
  (idx, ll), prob, tol = r
  n = math.prod(rows)
  if idx.shape[1:] != rows + (k,) or ll.shape[1:] != rows + (k,):
    chk.violation('%s: shapes %s %s' % (lab, idx.shape[1:], ll.shape[1:]),
                  key='shape:' + lab, replay=dict(case=lab))
    return
  if idx.min() < 0 or idx.max() >= K:
    chk.violation('%s: index out of range' % lab, key='range:' + lab,
                  replay=dict(case=lab))
    return
  want = {t: float(np.prod([P[j // k, v] for j, v in enumerate(t)]))
          for t in itertools.product(range(K), repeat=n * k)}
  if not law(chk, lab, tally(idx, prob), want, tol):
    return
  if not shift and not np.allclose(
      np.reshape(ll, (-1, n, k)), np.log(P)[np.arange(n)[:, None], np.reshape(
          idx, (-1, n, k))], atol=TOL):
    chk.violation('%s: reported likelihood differs from log p' % lab,
                  key='ll:' + lab, replay=dict(case=lab))
    return
  idx2 = worlds(lambda: math_util.multinomial(engine.KEY, lp, k), budget)
  if not (idx2[0] == idx).all():
    chk.violation('%s: asking for the likelihood changes the draw' % lab,
                  key='noll:' + lab, replay=dict(case=lab))
    return
  chk.count(states=len(want), transitions=2 * len(prob), traces=2 * len(prob))
  chk.cover('fixed-replacement')


def order_one(p, k):
  return {t: math.exp(sum(seq_ll(p, t)))
          for t in itertools.permutations(range(len(p)), k)}


def order_law(P, k):
  one = [order_one(p, k) for p in P]
  out = {}
  for ts in itertools.product(*one):
    out[sum(ts, ())] = math.prod(o[t] for o, t in zip(one, ts))
  return out


def fixed_norepl(chk, w, k, shift, rows, budget, masked=0):
  P = table(w, rows)
  K = len(w) + masked
  lab = 'fixed, without replacement w=%s k=%d shift=%g rows=%s masked=%d' % (
      w, k, shift, rows, masked)
  base = np.concatenate([np.log(P) + shift, np.full((len(P), masked), -1e9)], 1)
  lp = jnp.asarray(base, jnp.float32).reshape(rows + (K,))

  def fn():
    return math_util.multinomial(engine.KEY, lp, k, replacement=False,
                                 return_ll=True)

  r = worlds(fn, budget)
  if r is None:
    return shared(chk, lab)
  (idx, ll), prob, tol = r
  n = math.prod(rows)
  if idx.shape[1:] != rows + (k,) or ll.shape[1:] != rows + (k,):
    chk.violation('%s: shapes %s %s' % (lab, idx.shape[1:], ll.shape[1:]),
                  key='shape:' + lab, replay=dict(case=lab))
    return
  got = tally(idx, prob)
  if not law(chk, lab, got, order_law(P, k), tol):
    return
  for row in range(n if not shift else 0):
    flat = idx.reshape(-1, n, k)[:, row]
    fll = np.asarray(ll, float).reshape(-1, n, k)[:, row]
    u, inv = np.unique(flat, axis=0, return_inverse=True)
    inv = inv.reshape(-1)
    for i, t in enumerate(u):
      if max(t) >= len(w):
        continue
      want = seq_ll(P[row], t)
      e = np.abs(fll[inv == i] - want)
      if not (e < 3e-3).all():
        chk.violation('%s: draw %s reports log-likelihoods %s, should be %s' % (
            lab, t.tolist(), fll[inv == i][0].tolist(), want), key='ll:' + lab,
            replay=dict(case=lab, draw=t.tolist()))
        return
  idx2 = worlds(lambda: math_util.multinomial(engine.KEY, lp, k,
                                              replacement=False), budget)
  if not (idx2[0] == idx).all():
    chk.violation('%s: asking for the likelihood changes the draw' % lab,
                  key='noll:' + lab, replay=dict(case=lab))
    return
  chk.count(states=len(got), transitions=2 * len(prob), traces=2 * len(prob))
  chk.cover('fixed-no-replacement')


def run_repl(chk, w, k, batch, rows, budget):
  P = table(w, rows)
  K = len(w)
  lab = 'run-time count, with replacement w=%s k=%d batch=%d rows=%s' % (
      w, k, batch, rows)
  lp = logs(P, rows)

  def fn():
    return math_util.multinomial(
        engine.KEY, lp, jnp.int32(k), replacement=True, is_nsample_const=False,
        batch_size=batch, return_ll=True)

  r = worlds(fn, budget)
  if r is None:
    return shared(chk, lab)
  (cnt, ll), prob, tol = r
  n = math.prod(rows)
  if cnt.shape[1:] != rows + (K,) or ll.shape[1:] != rows + (K,):
    chk.violation('%s: shapes %s %s' % (lab, cnt.shape[1:], ll.shape[1:]),
                  key='shape:' + lab, replay=dict(case=lab))
    return
  want = collections.defaultdict(float)
  for t in itertools.product(range(K), repeat=n * k):
    c = np.zeros((n, K), int)
    for j, v in enumerate(t):
      c[j // k, v] += 1
    want[tuple(c.reshape(-1).tolist())] += float(np.prod(
        [P[j // k, v] for j, v in enumerate(t)]))
  if not law(chk, lab, tally(cnt, prob), want, tol):
    return
  if not np.allclose(np.reshape(ll, (-1, n, K)), np.reshape(
      cnt, (-1, n, K)) * np.log(P), atol=TOL * max(k, 1)):
    chk.violation('%s: reported likelihood differs from count * log p' % lab,
                  key='ll:' + lab, replay=dict(case=lab))
    return
  chk.count(states=len(want), transitions=len(prob), traces=len(prob))
  chk.cover('runtime-replacement')


def run_norepl(chk, w, k, order, shift, rows, budget):
  P = table(w, rows)
  K = len(w)
  lab = ('run-time count, without replacement w=%s k=%d order=%s shift=%g '
         'rows=%s' % (w, k, order, shift, rows))
  lp = logs(P, rows, shift)

  def fn():
    return math_util.multinomial(
        engine.KEY, lp, jnp.int32(k), replacement=False, return_ll=True,
        is_nsample_const=False, need_ordering_info=order)

  r = worlds(fn, budget)
  if r is None:
    return shared(chk, lab)
  (sel, ll), prob, tol = r
  n = math.prod(rows)
  if order:
    mask = np.asarray(sel['selected_mask']).reshape(-1, K)
    pert = np.asarray(sel['perturbed_ll']).reshape(-1, K)
  else:
    mask = np.asarray(sel).reshape(-1, K)
  fll = np.asarray(ll, float).reshape(-1, K)
  if not np.isin(mask, (0, 1)).all() or not (mask.sum(-1) == k).all():
    chk.violation('%s: selects %s sites' % (
        lab, sorted(set(mask.sum(-1).tolist()))), key='num:' + lab,
        replay=dict(case=lab))
    return
  one = [order_one(p, k) for p in P]
  if order:
    o = np.argsort(-np.where(mask == 1, pert, -np.inf), axis=-1,
                   kind='stable')[:, :k]
    want = order_law(P, k)
    got = tally(o.reshape(len(prob), -1), prob)
    if not law(chk, lab, got, want, tol):
      return
  else:
    want = collections.defaultdict(float)
    for ts in itertools.product(*one):
      m = np.zeros((n, K), int)
      for i, t in enumerate(ts):
        m[i, list(t)] = 1
      want[tuple(m.reshape(-1).tolist())] += math.prod(
          o1[t] for o1, t in zip(one, ts))
    got = tally(mask.reshape(len(prob), -1), prob)
    if not law(chk, lab, got, want, tol):
      return
  if not (fll[mask == 0] == 0).all():
    chk.violation('%s: likelihood reported for an index not drawn' % lab,
                  key='zero:' + lab, replay=dict(case=lab))
    return
  if not shift:
    best = np.full(len(mask), np.inf)
    row = np.arange(len(mask)) % n
    for r, t in itertools.product(range(n), one[0]):
      sll = np.array(seq_ll(P[r], t))
      if order:
        here = (o == np.array(t)).all(-1)
      else:
        here = (mask[:, list(t)] == 1).all(-1)
      here = here & (row == r)
      e = np.abs(fll[:, list(t)] - sll).max(-1)
      best = np.where(here, np.minimum(best, e), best)
    if not (best < 3e-3).all():
      i = int(np.argmax(best))
      chk.violation('%s: draw %s reports log-likelihoods %s, off by %.3g' % (
          lab, (o[i] if order else mask[i]).tolist(), fll[i].tolist(),
          best[i]), key='ll:' + lab, replay=dict(case=lab))
      return
  chk.count(states=len(want), transitions=len(prob), traces=len(prob))
  chk.cover('runtime-no-replacement')


def compiled(chk, w, keys):
  """Run-time counts passed as arguments of compiled code, real randomness."""
  p = norm(w)
  K = len(w)
  lp = jnp.broadcast_to(jnp.log(jnp.asarray(p, jnp.float32)), (3, K))
  lab = 'compiled w=%s' % (w,)
  for repl, order in ((True, False), (False, False), (False, True)):
    def call(rng, k):
      return math_util.multinomial(rng, lp, k, replacement=repl,
                                   is_nsample_const=False, return_ll=True,
                                   need_ordering_info=order)
    jit = jax.jit(call)
    for key in keys:
      for k in range(1, K + 1):
        rng = jax.random.PRNGKey(key)
        a = jax.tree_util.tree_leaves(call(rng, jnp.int32(k)))
        b = jax.tree_util.tree_leaves(jit(rng, jnp.int32(k)))
        if any(not np.allclose(u, v, atol=1e-5) for u, v in zip(a, b)):
          chk.violation('%s k=%d replacement=%s: compiled and eager draws '
                        'differ' % (lab, k, repl), key='jit:' + lab,
                        replay=dict(case=lab, k=k))
          return
        chk.count(transitions=2, traces=2)
  chk.cover('compiled')


def accept(chk, shape, n_x):
  """mh_step accepts chain i with probability min(1, exp(log_prob_i))."""
  ps = [0.0, 1e-3, 0.125, 0.5, 0.9, 1.0, 3.0]
  lab = 'mh_step sample shape %s' % (shape,)
  vals = np.array([-np.inf if q == 0 else math.log(q) for q in ps])
  B = len(ps)
  cur = jnp.arange(B * math.prod(shape)).reshape((B,) + shape)
  new = cur + 1000

  def fn():
    return math_util.mh_step(engine.KEY, jnp.asarray(vals, jnp.float32), cur,
                             new)

  with engine.scripted(engine.Ctx()) as c:
    fn()
  specs = c.found
  if [s[0] for s in specs] == ['d'] and engine.n_codes(specs) == 2 ** B:
    out, lp = engine.run_worlds(lambda _: fn(), np.zeros((2 ** B, 1)),
                                np.arange(2 ** B), [], specs)
    prob = np.exp(lp)
    est = (prob[:, None] * out[1]).sum(0)
    y, acc = out
    W = 2 ** B
  else:
    if [s[0] for s in specs] != ['c'] or specs[0][2] != B:
      raise HarnessError('mh_step draws %s' % specs)
    u = (np.arange(n_x)) / n_x
    W = n_x
    rows = []
    for i in range(B):
      us = np.full((n_x, B), 0.5)
      us[:, i] = u
      (y, acc), _ = engine.run_worlds(lambda _: fn(), np.zeros((n_x, 1)),
                                      np.zeros(n_x, int), [us], specs)
      rows.append(acc[:, i].mean())
      want = np.where(acc.reshape((n_x, B) + (1,) * len(shape)), np.array(new),
                      np.array(cur))
      if not (y == want).all():
        chk.violation('%s: the returned sample does not match the decision'
                      % lab, key='pick:' + lab, replay=dict(case=lab))
        return
      rest = np.delete(acc, i, axis=1)
      if not (rest == rest[:1]).all():
        chk.violation('%s: the draw of chain %d decides another chain' % (
            lab, i), key='row:' + lab, replay=dict(case=lab))
        return
    est = np.array(rows)
  e = np.abs(est - np.clip(ps, 0, 1))
  if not e.max() <= 2.0 / n_x:
    i = int(np.argmax(e))
    chk.violation('%s: ratio %g accepted with probability %g' % (
        lab, ps[i], est[i]), key='acc:' + lab, replay=dict(case=lab))
    return
  if est[0] != 0:
    chk.violation('%s: an impossible proposal is accepted' % lab,
                  key='acc0:' + lab, replay=dict(case=lab))
    return
  chk.count(states=B, transitions=W * B, traces=W * B)
  chk.cover('mh_step')


def body(chk):
  q = chk.quick
  B = 120000 if q else 900000
  chk.bounds.append(
      'up to 4 categories, 4 draws, 2 rows; discrete draws enumerated '
      'exactly, Gumbel draws on a full grid of %d points (probabilities to '
      '%g)' % (B, TOL_GRID))
  chk.assumptions.append('log-weights are normalised where likelihoods are '
                         'compared; the draw law is also checked unnormalised')
  jobs = []
  for K, ws in WEIGHTS.items():
    for w in ws:
      for k in range(1, 5 if K < 4 else 4):
        for sh in (SHIFT if k == 2 else (0.0,)):
          jobs.append((fixed_repl, w, k, sh, (1,), B))
      jobs.append((fixed_repl, w, 2, 0.0, (2,), B))
      if K < 4:
        jobs.append((fixed_repl, w, 1, 0.0, (2, 2), B))
      for k in range(1, K + 1):
        for sh in (SHIFT if k == 2 else (0.0,)):
          jobs.append((fixed_norepl, w, k, sh, (1,), B))
          for o in (True, False):
            jobs.append((run_norepl, w, k, o, sh, (1,), B))
      for k in range(0, 4):
        for b in (1, 2, 3):
          if K ** (-(-k // b) * b) <= 20000:
            jobs.append((run_repl, w, k, b, (1,), B))
      jobs.append((run_repl, w, 2, 1, (2,), B))
      jobs.append((compiled, w, range(3 if q else 20)))
      if K == 2:
        for k in (1, 2):
          jobs.append((fixed_norepl, w, k, 0.0, (2,), B))
          for o in (True, False):
            jobs.append((run_norepl, w, k, o, 0.0, (2,), B))
      if K == 3:
        for k in (1, 2, 3):
          jobs.append((fixed_norepl, w, k, 0.0, (1,), B, 1))
  for shape in ((), (1,), (3,), (2, 2)):
    jobs.append((accept, shape, 4096 if q else 65536))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C22', body, shards=(4, 8))
