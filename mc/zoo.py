"""The documented samplers in the settings a user can select."""
from mc import cfgs

FAMILY = {'gibbs': 'sweep', 'blockgibbs': 'sweep', 'hammingball': 'sweep',
          'randomwalk': 'mh', 'gwg': 'mh', 'path_auxiliary': 'mh',
          'dlmc': 'mh', 'dmala': 'mh'}


def settings(n, full=True):
  """(sampler name, overrides, co flag) for an n-category target."""
  out = [('gibbs', {}, False),
         ('blockgibbs', dict(block_size=1), False),
         ('blockgibbs', {}, False),
         ('hammingball', dict(block_size=1), False),
         ('hammingball', dict(block_size=2), False),
         ('hammingball', {}, False),
         ('randomwalk', {}, False),
         ('randomwalk', dict(adaptive=False), False),
         ('gwg', {}, False),
         ('path_auxiliary', {}, False),
         ('path_auxiliary', dict(adaptive=False), False),
         ('path_auxiliary', dict(adaptive=False, num_flips=2), False),
         ('dlmc', {}, False),
         ('dlmc', dict(solver='euler_forward'), False),
         ('dlmc', dict(adaptive=False), False),
         ('dlmc', {}, True),
         ('dmala', {}, False),
         ('dmala', dict(adaptive=False), False),
         ('dmala', {}, True)]
  if n == 2:
    out += [('gwg', dict(adaptive=False), False),
            ('gwg', dict(adaptive=False, num_flips=2), False)]
  if full:
    for lb in cfgs.LB[1:]:
      for nm in ('gwg', 'path_auxiliary', 'dlmc', 'dmala'):
        out.append((nm, dict(balancing_fn_type=lb), False))
    out.append(('path_auxiliary', dict(approx_with_grad=False), False))
  return out


def label(nm, n, shape, over, co):
  return '%s n=%d shape=%s%s %s' % (nm, n, tuple(shape), ' co' if co else '',
                                    over)
