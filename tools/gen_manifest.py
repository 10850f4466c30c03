"""Writes MANIFEST.json from properties.jsonl and the checks present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
DIRECT = ('exhaustive enumeration of the real code (stateless model checking): '
          'every state and every outcome of every random draw of the step is '
          'executed under a controlled draw oracle')
TECH = {
    'C01': DIRECT + '; exact transition matrix, pi P = pi',
    'C02': DIRECT + '; exact transition matrix, pi P = pi',
    'C03': DIRECT + '; exact transition matrix, pi P = pi',
    'C04': DIRECT + '; exact transition matrix, pi P = pi',
    'C05': DIRECT + '; reachability over the explicit state graph',
    'C06': DIRECT + '; closure, purity and acceptance on all call sequences',
    'C07': DIRECT + '; all joint states and joint draws of two chains',
    'C08': 'explicit-state exploration of all acceptance histories of the real '
           'adaptation code up to a depth bound',
    'C09': 'exhaustive enumeration of sampler settings and bounded runs of the '
           'real code with an instrumented target',
    'C10': 'exhaustive state enumeration of the real energies against the '
           'definition',
    'C11': 'exhaustive state enumeration of the real energies against the '
           'generative process; all draws of the generator',
    'C12': 'exhaustive enumeration of visible x hidden states and of all block '
           'step outcomes of the real code',
    'C13': 'exhaustive enumeration of graphs x assignments through the real '
           'loaders and objectives',
    'C14': 'exhaustive enumeration of graphs x assignments x neighbours on the '
           'real code',
    'C15': 'exhaustive enumeration of dataset sizes, batch sizes and worker '
           'counts on the real iterator',
    'C16': 'exhaustive enumeration of bounded formulas through the real loader',
    'C17': 'exhaustive enumeration of value histories, batchings and device '
           'layouts driven through the real experiment loop',
    'C18': 'exhaustive enumeration of sample histories and device layouts '
           'driven through the real experiment loop',
    'C19': 'exhaustive enumeration of transition outcomes of the real annealing '
           'loop; exact expectation of the weights',
    'C20': 'exhaustive enumeration of shuffles and mask draws of the real '
           'dataset builder',
    'C21': 'exhaustive enumeration of bounded corpora and likelihood orders on '
           'the real evaluator and experiment loop',
    'C22': DIRECT + '; exact law of the drawn indices and likelihoods',
    'C23': 'exhaustive enumeration of the product of documented configurations, '
           'each run end to end on the real code',
    'C24': 'exhaustive enumeration of graphs x partitions on the real code',
    'C25': 'exhaustive enumeration of sweep descriptions through the real '
           'launcher and folder parser',
    'C26': DIRECT + '; exact law of the initial samples',
    'C27': 'exhaustive enumeration of sample arrays on the real evaluator',
    'C28': 'explicit-state exploration of all operation sequences of the real '
           'buffer up to a depth bound',
    'C29': 'exhaustive enumeration of fills and infill positions on the real '
           'model and language model; ' + DIRECT,
    'C30': 'exhaustive enumeration of training histories x settings x device '
           'layouts on the real trainers, replayed by a reference model',
    'C31': 'exhaustive enumeration of data set sizes, batchings, hosts and '
           'devices through the real loader',
    'C32': 'exhaustive enumeration of images x network sizes through the real '
           'conversion',
    'C33': 'exhaustive enumeration of result-folder states through the real '
           'saver and plotting scripts',
}
NOTE = {
    'stoch': 'Exhaustive within the stated bounds (small shapes, category '
             'counts, targets). Trusts that jax.random draws are independent '
             'and follow the law requested; float32 tolerance.',
    'enum': 'Exhaustive within the stated bounds, on the real code; oracle is '
            'an independent numpy/networkx definition.',
}
STOCH = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C12', 'C22', 'C26',
         'C19', 'C11'}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(HERE, 'mc/checks/%s.py' % i)):
    checks.append(dict(
        property=i, quick_cmd='bash /verif/run.sh %s quick' % i,
        thorough_cmd='bash /verif/run.sh %s thorough' % i,
        evidence_file='evidence/%s.json' % i, technique=TECH[i],
        level='model_checking',
        level_note=NOTE['stoch' if i in STOCH else 'enum']))
  else:
    na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bash /verif/setup.sh', checks=checks,
         not_applicable=na,
         notes='No hooks in /repo; the repairs there are unguarded fix: commits '
               'listed in known_findings.json. The checks import the code from '
               '/repo at run time, nothing is cached.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
