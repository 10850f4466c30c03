"""Outcome plumbing shared by all checks: evidence, violations, replays."""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Broken(Exception):
  """The code under test broke a contract that the check relies on."""


class HarnessError(Exception):
  """The harness itself cannot decide (never reported as a violation)."""


class Check:
  """Collects coverage counters and violations of one property."""

  def __init__(self, prop, tier):
    self.prop = prop
    self.tier = tier
    self.t0 = time.time()
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.auto = []
    self.bounds = []
    self.assumptions = []
    self.violations = []
    self.known_hit = []
    self.notes = []
    self.exhaustive = True
    self.covered = {}
    self.known = []
    self.shard = (0, 1)
    self._case = -1
    if os.path.exists(KNOWN):
      for e in json.load(open(KNOWN)):
        if e.get('property') == prop and e.get('status') == 'known':
          self.known.append(e)

  @property
  def quick(self):
    return self.tier == 'quick'

  def count(self, states=0, transitions=0, traces=0):
    self.states += int(states)
    self.transitions += int(transitions)
    self.traces += int(traces)
    if len(self.auto) < 3:
      # the case being counted, as its function sees it
      fr = sys._getframe(1)
      case = {k: v if isinstance(v, (int, float, bool, str)) else repr(v)
              for k, v in fr.f_locals.items()
              if k not in ('chk', 'self') and isinstance(
                  v, (int, float, bool, str, tuple, list, dict)) and
              len(repr(v)) < 160}
      if case:
        self.auto.append(dict(case, explored_by=fr.f_code.co_name))

  def cover(self, key, n=1):
    self.covered[key] = self.covered.get(key, 0) + n

  def sample(self, s):
    if len(self.samples) < 12:
      self.samples.append(s if isinstance(s, (dict, list)) else str(s))

  def violation(self, what, key=None, replay=None):
    """Records a violation unless `key` identifies a listed known finding."""
    for e in self.known:
      if key is not None and e['key'] == key:
        if key not in self.known_hit:
          self.known_hit.append(key)
        return
    self.violations.append(
        {'what': str(what)[:2000], 'key': key, 'replay': replay})
    print('  violation:', str(what)[:600], flush=True)
    if os.environ.get('MC_FAILFAST'):  # development only: stop at once
      os._exit(9)

  def mine(self):
    """Round-robin case distribution over shard processes."""
    self._case += 1
    return self._case % self.shard[1] == self.shard[0]

  def full(self):
    return len(self.violations) >= 25

  def finish(self, level='model_checking'):
    os.makedirs(EVID, exist_ok=True)
    for e in self.known:
      if e['key'] in self.known_hit:
        print('KNOWN-FINDING: property=%s %s' % (self.prop, e['what']))
    ev = {
        'property': self.prop,
        'tier': self.tier,
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': level,
        'coverage': {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces or self.transitions,
            'samples': self.samples or self.auto or ['none'],
            'exhaustive': self.exhaustive and not self.violations,
            'bounds': self.bounds,
            'covered': self.covered,
            'notes': self.notes,
        },
        'assumptions': self.assumptions,
        'wall_s': round(time.time() - self.t0, 2),
        'violations': len(self.violations),
    }
    with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
      json.dump(ev, f, indent=1, default=str)
    if self.violations:
      rp = os.path.join(EVID, 'replay_%s.json' % self.prop)
      with open(rp, 'w') as f:
        json.dump(self.violations, f, indent=1, default=str)
      print('VIOLATION property=%s replay=%s' % (self.prop, rp))
      sys.stdout.flush()
      return 1
    print('OK property=%s tier=%s states=%d transitions=%d wall=%.1fs' % (
        self.prop, self.tier, self.states, self.transitions,
        time.time() - self.t0))
    sys.stdout.flush()
    return 0


def from_repo(exc):
  """True when the exception was raised by (or below) code of /repo."""
  if isinstance(exc, HarnessError):
    return False
  tb = exc.__traceback__
  while tb is not None:
    fn = tb.tb_frame.f_code.co_filename
    if '/discs/' in fn and not fn.startswith(VERIF):
      return True
    tb = tb.tb_next
  return False


def guarded(chk, label, fn, *a, key=None, **kw):
  """Runs one case; an exception out of the code under test is a violation."""
  try:
    return fn(*a, **kw)
  except HarnessError:
    raise
  except Broken as e:
    chk.violation('%s: %s' % (label, e), key=key or ('broken:' + label),
                  replay={'case': label, 'what': str(e)})
    return None
  except Exception as e:  # pylint: disable=broad-except
    if from_repo(e):
      tb = traceback.format_exc().strip().splitlines()
      chk.violation('%s: the code raised %s: %s' % (
          label, type(e).__name__, str(e)[:300]),
          key=key or ('raise:' + label), replay={'case': label, 'traceback': tb[-12:]})
      return None
    raise


def _dump(chk, path):
  json.dump({k: getattr(chk, k) for k in (
      'states', 'transitions', 'traces', 'samples', 'bounds', 'assumptions',
      'violations', 'known_hit', 'notes', 'exhaustive', 'covered', 'auto')},
      open(path, 'w'), default=str)


def _merge(chk, path):
  d = json.load(open(path))
  for k in ('states', 'transitions', 'traces'):
    setattr(chk, k, getattr(chk, k) + d[k])
  for s in d['samples']:
    chk.sample(s)
  chk.auto = (chk.auto + d['auto'])[:6]
  for k in ('bounds', 'assumptions', 'notes', 'known_hit'):
    for v in d[k]:
      if v not in getattr(chk, k):
        getattr(chk, k).append(v)
  chk.violations += d['violations']
  chk.exhaustive = chk.exhaustive and d['exhaustive']
  for k, v in d['covered'].items():
    chk.cover(k, v)


def _one(prop, body, chk):
  """Runs body; returns 0 when a verdict was reached, 2 otherwise."""
  try:
    body(chk)
    return 0
  except HarnessError as e:
    print('HARNESS-ERROR', prop, e)
    traceback.print_exc(file=sys.stdout)
    return 2
  except Exception as e:  # pylint: disable=broad-except
    traceback.print_exc(file=sys.stdout)
    if from_repo(e):
      chk.violation('the code raised %s: %s' % (type(e).__name__, e),
                    key='raise', replay={'traceback': traceback.format_exc()})
      return 0
    return 2


def run_main(prop, body, shards=(1, 1)):
  """Entry point; shards = processes used in (quick, thorough)."""
  ap = argparse.ArgumentParser()
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--shard', default=None)
  ap.add_argument('--out', default=None)
  args = ap.parse_args()
  chk = Check(prop, args.tier)
  n = shards[0] if args.tier == 'quick' else shards[1]
  if os.environ.get('MC_SHARDS'):
    n = int(os.environ['MC_SHARDS'])
  if args.shard is not None:
    chk.shard = tuple(int(v) for v in args.shard.split('/'))
    rc = _one(prop, body, chk)
    _dump(chk, args.out)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
  if n <= 1:
    rc = _one(prop, body, chk)
  else:
    rc = 0
    with tempfile.TemporaryDirectory(prefix='mc_%s_' % prop) as tmp:
      procs = []
      for i in range(n):
        out = os.path.join(tmp, '%d.json' % i)
        log = open(os.path.join(tmp, '%d.log' % i), 'w')
        procs.append((out, log.name, subprocess.Popen(
            [sys.executable, sys.argv[0] if sys.argv[0].endswith('.py') else
             sys.argv[0], '--tier', args.tier, '--shard', '%d/%d' % (i, n),
             '--out', out], stdout=log, stderr=subprocess.STDOUT)))
      for out, log, pr in procs:
        r = pr.wait()
        txt = open(log).read()
        if r != 0 or os.environ.get('MC_VERBOSE'):
          sys.stdout.write('\n'.join(l for l in txt.splitlines() if
                                     'warn' not in l.lower() and 'it/s' not in l
                                     and 'cuda' not in l)[-3000:] + '\n')
        if os.path.exists(out):
          _merge(chk, out)
        if r != 0:
          rc = 2
    for v in chk.violations[:8]:
      print('  violation:', v['what'][:600])
  if rc and not chk.violations:
    print('HARNESS-ERROR', prop)
    sys.stdout.flush()
    os._exit(2)
  rc = chk.finish()
  sys.stdout.flush()
  os._exit(rc)
