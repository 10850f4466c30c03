"""Writes known_findings.json (fixed entries only; they suppress nothing)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True,
                     capture_output=True).stdout.splitlines()
PROP = {'Ising energy': 'C10', 'categorical GWG': 'C02', 'Hamming ball': 'C01',
        'non-adaptive categorical PAS': 'C03', 'DLMC/DMALA step': 'C08',
        'DLMC and DMALA acceptance': 'C08', 'DLMC/DMALA adaptation': 'C08',
        'random walk': 'C06', 'Gibbs, block': 'C06', 'categorical FHMM took': 'C11',
        'categorical FHMM tran': 'C11', 'Bernoulli.logratio': 'C14',
        'MIS.logratio': 'C14', 'normcut node degrees': 'C13',
        'normcut balance': 'C13', 'normcut log-ratios': 'C14',
        'CO runs with fewer': 'C17', 'CO runs kept': 'C17',
        'sampling runs with fewer': 'C18', 'Bernoulli estimation': 'C18',
        'text infilling could not be': 'C29', 'text infilling could not ev': 'C21', 'text infilling energy': 'C29', 'every text infilling': 'C21', 'categorical RBM': 'C12', 'saver labelled': 'C18',
        'Potts energy': 'C10', 'ESS evaluation': 'C18',
        'normcut evaluation': 'C24',
        'optsicom sweep': 'C25', 'training scripts': 'C30',
        'RBM training could': 'C30', 'training failed at': 'C30',
        'image energy was': 'C12', 'curves over time': 'C33',
        'ESS figures cut': 'C33', 'ESS figures showed': 'C33',
        'ESS figures by': 'C33'}
EXTRA = []
out = list(EXTRA)
for l in reversed(log):
  h, s = l.split(' ', 1)
  if not s.startswith('fix: '):
    continue
  s = s[5:]
  p = [v for k, v in PROP.items() if s.startswith(k)]
  assert len(p) == 1, s
  out.append(dict(property=p[0], status='fixed', commit=h, what=s,
                  entry='fixed: property=%s %s %s' % (p[0], h, s)))
json.dump(out, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(out))
