"""C12: RBM and image energy models against their joint distribution."""
from mc import engine
engine.install()
import importlib
import itertools
import os
import pickle
import tempfile
import flax
import jax
import jax.numpy as jnp
import ml_collections
import numpy as np
from mc import report
from mc.report import guarded, HarnessError

rbm = importlib.import_module('discs.models.rbm')
resnet = importlib.import_module('discs.models.resnet')
blockgibbs = importlib.import_module('discs.samplers.blockgibbs')


def raw(nv, nh, n, k, mean):
  rs = np.random.RandomState(11 * k + nv + 3 * nh + n)
  if n == 2:
    p = dict(b_v=rs.uniform(-1, 1, nv), b_h=rs.uniform(-1, 1, nh),
             w=rs.uniform(-1.5, 1.5, (nv, nh)))
    dm = rs.uniform(.2, .8, nv)
  else:
    p = dict(b_v=rs.uniform(-1, 1, (nv, n)), b_h=rs.uniform(-1, 1, nh),
             w=rs.uniform(-1.5, 1.5, (nh, nv, n)))
    dm = rs.dirichlet(np.ones(n) * 3, nv)
  p = {a: v.astype(np.float32) for a, v in p.items()}
  if mean:
    p['data_mean'] = dm.astype(np.float32)
  return p


def machine(nv, nh, n, k, how):
  """(model, params, oracle weights) built fresh / with loaded parameters."""
  cfg = ml_collections.ConfigDict(dict(
      name='rbm', num_visible=nv, num_hidden=nh, num_categories=n,
      shape=(nv,)))
  if how == 'given':
    m = rbm.build_model(ml_collections.ConfigDict(dict(model=cfg)))
    p = {a: jnp.asarray(v) for a, v in raw(nv, nh, n, k, False).items()}
  elif how == 'fresh':
    m = rbm.build_model(ml_collections.ConfigDict(dict(model=cfg)))
    p = m.make_init_params(jax.random.PRNGKey(k))
  else:
    with tempfile.TemporaryDirectory(prefix='mc_c12_') as d:
      pickle.dump({'params': raw(nv, nh, n, k, True)},
                  open(os.path.join(d, 'params.pkl'), 'wb'))
      saved = ml_collections.ConfigDict(dict(model=cfg))
      open(os.path.join(d, 'config.yaml'), 'w').write(saved.to_yaml())
      user = ml_collections.ConfigDict(dict(
          name='rbm', visualize=False, num_categories=n, data_path=d,
          num_visible=0, num_hidden=0, shape=()))
      m = rbm.build_model(ml_collections.ConfigDict(dict(model=user)))
      p = m.make_init_params(jax.random.PRNGKey(k))
    for a, v in raw(nv, nh, n, k, True).items():
      if a not in p or not np.allclose(p[a], v):
        return m, p, 'loaded parameter %s differs from the file' % a
  return m, p, {a: np.asarray(p[a], np.float64) for a in ('b_v', 'b_h', 'w')}


def joint(o, vs, nh, n):
  """log joint weight [V, H]."""
  hs = np.array(list(itertools.product((0, 1), repeat=nh)))
  if n == 2:
    act = vs @ o['w']
    vis = vs @ o['b_v']
  else:
    oh = np.eye(n)[vs]
    act = np.einsum('vic,hic->vh', oh, o['w'])
    vis = (oh * o['b_v']).sum((1, 2))
  return hs, vis[:, None] + (act @ hs.T) + (hs @ o['b_h'])[None]


def lse(a, ax):
  mx = a.max(ax, keepdims=True)
  return (mx + np.log(np.exp(a - mx).sum(ax, keepdims=True))).squeeze(ax)


def restricted(chk, nv, nh, n, k, how):
  lab = 'rbm nv=%d nh=%d n=%d #%d %s' % (nv, nh, n, k, how)
  m, p, o = machine(nv, nh, n, k, how)
  if isinstance(o, str):
    chk.violation('%s: %s' % (lab, o), key='load:' + lab,
                  replay=dict(case=lab))
    return
  vs = engine.all_states((nv,), n)
  hs, J = joint(o, vs, nh, n)
  want = lse(J, 1)
  forms = [('int', jnp.asarray(vs, jnp.int32))]
  if n == 2:
    forms.append(('float', jnp.asarray(vs, jnp.float32)))
  else:
    forms.append(('one-hot', jnp.asarray(np.eye(n)[vs], jnp.float32)))
  for form, x in forms:
    outs = [('batch', np.asarray(m.forward(p, x))),
            ('jit', np.asarray(jax.jit(m.forward)(p, x))),
            ('alone', np.array([float(np.asarray(
                m.forward(p, x[i:i + 1]))[0]) for i in range(len(vs))]))]
    if not (n > 2 and form == 'int'):
      ll, g = m.get_value_and_grad(p, x)
      outs.append(('with gradient', np.asarray(ll)))
      act = vs @ o['w'] if n == 2 else np.einsum('vic,hic->vh', np.eye(n)[vs],
                                                 o['w'])
      sg = 1 / (1 + np.exp(-(act + o['b_h'])))
      gw = o['b_v'] + (sg @ o['w'].T if n == 2 else np.einsum(
          'vh,hic->vic', sg, o['w']))
      if not np.allclose(g, gw, atol=1e-3):
        chk.violation('%s: gradient wrong' % lab, key='grad:' + lab,
                      replay=dict(case=lab))
        return
    for mode, got in outs:
      chk.count(states=len(vs), transitions=len(vs) * len(hs), traces=len(vs))
      if got.shape != want.shape or not np.allclose(got, want, atol=5e-4):
        chk.violation('%s %s %s: log-density is not the log-sum over hidden '
                      'configurations (%s vs %s)' % (
                          lab, form, mode, got.reshape(-1)[:4].tolist(),
                          want[:4].tolist()), key='free:' + lab,
                      replay=dict(case=lab))
        return
  if n == 2:
    # exact conditionals from all draws
    pj = np.exp(J - J.max())
    key = jnp.asarray(engine.KEY)
    ph = pj / pj.sum(1, keepdims=True)
    pv = pj / pj.sum(0, keepdims=True)
    for what, src, cond, dim, fn in (
        ('hidden', vs, ph, nh, lambda r: m.step_h(p, key, r)),
        ('visible', hs, pv.T, nv, lambda r: m.step_v(p, key, r))):
      for i, r in enumerate(src):
        _, out, pr = engine.outcomes(
            lambda: fn(jnp.asarray(r[None], jnp.int32)))
        code = (np.asarray(out).reshape(len(pr), dim).astype(int) *
                2 ** np.arange(dim - 1, -1, -1)).sum(1)
        law = np.bincount(code, pr, 2 ** dim)
        chk.count(transitions=len(pr), traces=len(pr))
        if np.abs(law - cond[i]).max() > 1e-4:
          chk.violation('%s: %s units given %s follow %s, joint gives %s' % (
              lab, what, r.tolist(), law.tolist(), cond[i].tolist()),
              key='cond:%s:%s' % (what, lab), replay=dict(case=lab))
          return
    # alternating step on a batch of two, marginal law of each row
    s = blockgibbs.RBMBlockGibbsSampler(None)
    st = s.make_init_state(key)
    P = np.zeros((len(vs), len(vs)))
    ch = jnp.asarray(np.array([1, 5], np.uint32))
    for i, r in enumerate(vs):
      _, out, pr = engine.outcomes(lambda: s.step(
          model=m, rng=ch, x=jnp.asarray(r[None], jnp.int32), model_param=p,
          state=st)[0])
      code = (np.asarray(out).reshape(len(pr), nv).astype(int) *
              2 ** np.arange(nv - 1, -1, -1)).sum(1)
      P[i] = np.bincount(code, pr, len(vs))
      chk.count(transitions=len(pr), traces=len(pr))
    pi = np.exp(want - want.max())
    pi /= pi.sum()
    e = np.abs(pi @ P - pi).max()
    if e > 1e-4 or np.abs(P.sum(1) - 1).max() > 1e-3:
      chk.violation('%s: alternating the conditionals changes the visible '
                    'distribution by %.4g' % (lab, e), key='inv:' + lab,
                    replay=dict(case=lab))
      return
    _, ctx_ = None, engine.Ctx()
    with engine.scripted(ctx_):
      s.step(model=m, rng=ch, x=jnp.asarray(vs[:1], jnp.int32), model_param=p,
             state=st)
    if len(set(ctx_.keys)) != len(ctx_.keys):
      chk.violation('%s: hidden and visible draws share a random key' % lab,
                    key='key:' + lab, replay=dict(case=lab))
  chk.cover('rbm n=%d %s' % (n, how))
  chk.sample(dict(case=lab, visible=len(vs), hidden=len(hs)))


def image(chk, ishape, k, how):
  lab = 'resnet %s #%d data_mean=%s' % (ishape, k, how)
  d = ishape[0] * ishape[1]
  rs = np.random.RandomState(k)
  dm = rs.uniform(.1, .9, d).astype(np.float32)
  cfg = dict(name='resnet', num_categories=2, shape=(d,), image_shape=ishape,
             n_channels=2)
  if how == 'config':
    cfg['data_mean'] = tuple(float(v) for v in dm)
  m = resnet.build_model(ml_collections.ConfigDict(dict(model=cfg)))
  params = jax.tree_util.tree_map(
      lambda a: a + 0.1 * jnp.asarray(rs.randn(*a.shape), jnp.float32),
      dict(m.make_init_params(jax.random.PRNGKey(k))))
  if how == 'params':
    cfg['params'] = flax.core.frozen_dict.freeze(dict(params, data_mean=dm))
    m = resnet.build_model(ml_collections.ConfigDict(dict(model=cfg)))
    params = m.make_init_params(jax.random.PRNGKey(k))
  xs = engine.all_states((d,), 2)
  if len(xs) > 512:
    xs = xs[::len(xs) // 512]
  plain = {a: v for a, v in cfg.items() if a not in ('data_mean', 'params')}
  bare = resnet.build_model(ml_collections.ConfigDict(dict(model=plain)))
  net = np.asarray(bare.forward(params, jnp.asarray(xs, jnp.float32)),
                   np.float64)
  if np.ptp(net) < 1e-4:
    raise HarnessError('degenerate network')
  dm64 = dm.astype(np.float64)
  base = (xs * np.log(dm64) + (1 - xs) * np.log(1 - dm64)).sum(1)
  if how == 'none':
    base = np.zeros(len(xs))
  scale = 1 + np.abs(net).max() + np.abs(base).max()
  for beta in (None, 0.0, 0.25, 0.5, 0.8, 1.0):
    pr = dict(params)
    if beta is not None:
      pr['temperature'] = jnp.asarray(beta, jnp.float32)
    want = base + (1.0 if beta is None or how == 'none' else beta) * net
    for form, x in (('int', jnp.asarray(xs, jnp.int32)),
                    ('float', jnp.asarray(xs, jnp.float32))):
      outs = [('batch', np.asarray(m.forward(pr, x)))]
      if form == 'float':
        ll, g = m.get_value_and_grad(pr, x)
        outs.append(('with gradient', np.asarray(ll)))
        rows = list(range(0, len(xs), max(1, len(xs) // 6)))
        outs.append(('alone', np.array([float(np.asarray(m.forward(
            pr, x[i:i + 1]))[0]) for i in rows])))
      for mode, got in outs:
        w = want[rows] if mode == 'alone' else want
        chk.count(states=len(w), transitions=len(w), traces=len(w))
        if got.shape != w.shape or np.abs(got - w).max() > 1e-4 * scale:
          chk.violation('%s temperature=%s %s %s: energy %s, interpolation '
                        'gives %s' % (lab, beta, form, mode,
                                      got.reshape(-1)[:3].tolist(),
                                      w[:3].tolist()),
                        key='image:' + lab, replay=dict(case=lab, beta=beta))
          return
  chk.cover('resnet ' + how)


def certain(chk, ishape, k, how, sure):
  """Pixels every data image agrees on: the energy stays finite."""
  lab = 'resnet %s #%d data_mean=%s certain pixels %s' % (ishape, k, how, sure)
  d = ishape[0] * ishape[1]
  rs = np.random.RandomState(k)
  dm = rs.uniform(.1, .9, d).astype(np.float32)
  for pix, v in sure:
    dm[pix] = v
  cfg = dict(name='resnet', num_categories=2, shape=(d,), image_shape=ishape,
             n_channels=2)
  bare = resnet.build_model(ml_collections.ConfigDict(dict(model=dict(cfg))))
  params = jax.tree_util.tree_map(
      lambda a: a + 0.1 * jnp.asarray(rs.randn(*a.shape), jnp.float32),
      dict(bare.make_init_params(jax.random.PRNGKey(k))))
  if how == 'config':
    m = resnet.build_model(ml_collections.ConfigDict(dict(model=dict(
        cfg, data_mean=tuple(float(v) for v in dm)))))
  else:
    m = resnet.build_model(ml_collections.ConfigDict(dict(model=dict(
        cfg, params=flax.core.frozen_dict.freeze(dict(params, data_mean=dm))))))
    params = m.make_init_params(jax.random.PRNGKey(k))
  xs = engine.all_states((d,), 2)
  net = np.asarray(bare.forward(params, jnp.asarray(xs, jnp.float32)),
                   np.float64)
  ll, g = m.get_value_and_grad(dict(params), jnp.asarray(xs, jnp.float32))
  got = np.asarray(ll, np.float64)
  free = [i for i in range(d) if i not in dict(sure)]
  p = dm.astype(np.float64)[free]
  base = (xs[:, free] * np.log(p) + (1 - xs[:, free]) * np.log(1 - p)).sum(1)
  want = base + net
  agree = np.all([xs[:, pix] == v for pix, v in sure], axis=0)
  chk.count(states=len(xs), transitions=len(xs), traces=1)
  scale = 1 + np.abs(want).max()
  if (not np.isfinite(got).all() or not np.isfinite(np.asarray(g)).all() or
      np.abs(got - want)[agree].max() > 1e-4 * scale or
      (got > want - 15)[~agree].any()):
    chk.violation('%s: energies %s, the images agreeing with the data in these '
                  'pixels should have %s and all others at least 15 less' % (
                      lab, got[:4].tolist(), want[:4].tolist()),
                  key='certain:' + lab, replay=dict(case=lab))
    return
  chk.cover('resnet certain pixels')


def body(chk):
  q = chk.quick
  chk.bounds.append('all visible x hidden configurations of machines with '
                    '<= 4 visible and <= 4 hidden units; images of <= 9 pixels')
  jobs = []
  for k in range(2 if q else 5):
    for how in ('given', 'fresh', 'loaded'):
      for nv, nh in ((1, 1), (3, 2), (2, 3), (4, 4)):
        jobs.append((restricted, nv, nh, 2, k, how))
      for nv, nh, n in ((1, 2, 3), (2, 2, 3), (3, 2, 3), (2, 3, 4),
                        (3, 3, 3)):
        jobs.append((restricted, nv, nh, n, k, how))
    for how in ('none', 'config', 'params'):
      jobs.append((image, (2, 2), k, how))
      jobs.append((image, (3, 2), k, how))
      if how != 'none':
        for sure in (((0, 1.0),), ((1, 0.0),), ((0, 1.0), (2, 0.0)),
                     ((0, 1.0), (1, 1.0), (3, 0.0))):
          jobs.append((certain, (2, 2), k, how, sure))
      if not q:
        jobs.append((image, (3, 3), k, how))
        jobs.append((image, (4, 2), k, how))
  for j in jobs:
    if chk.mine() and not chk.full():
      guarded(chk, '%s %s' % (j[0].__name__, j[1:]), j[0], chk, *j[1:])


if __name__ == '__main__':
  report.run_main('C12', body, shards=(5, 8))
