"""Sampler configurations, built the way users build them."""
import importlib
import math

import ml_collections

LB = ('SQRT', 'RATIO', 'MAX', 'MIN')


def make(sampler_name, shape, n, co_opt=False, **over):
  """The config a user would assemble for `sampler_name`."""
  mod = importlib.import_module(
      'discs.samplers.configs.%s_config' % sampler_name)
  cfg = ml_collections.ConfigDict(dict(
      model=dict(shape=tuple(shape), num_categories=n),
      experiment=dict(co_opt_prob=co_opt),
      sampler=mod.get_config().to_dict()))
  for k, v in over.items():
    cfg.sampler[k.rstrip('_')] = v
  return cfg


def build(sampler_name, shape, n, co_opt=False, **over):
  cfg = make(sampler_name, shape, n, co_opt, **over)
  mod = importlib.import_module('discs.samplers.' + sampler_name)
  return mod.build_sampler(cfg)
