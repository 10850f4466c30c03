"""Replays launched jobs on the real main script's flags and merge.

usage: python -m mc.merge_worker JOBS.pkl OUT.pkl
JOBS: list of argument dicts; OUT: list of (final config as dict | error text).
"""
import pickle
import sys
import traceback
from absl import flags


def main(src, dst):
  sys.argv = ['main_sampling']
  from discs.experiment import main_sampling as ms
  F = flags.FLAGS
  base = set(F)
  out = []
  for args in pickle.load(open(src, 'rb')):
    argv = ['main_sampling'] + ['--%s=%s' % kv for kv in args.items()]
    try:
      if F.is_parsed():
        F.unparse_flags()
      for name in [x for x in F if x not in base and '.' in x]:
        delattr(F, name)
      sys.argv = list(argv)
      F(argv)
      cfg = ms.get_main_config()
      ms.update_save_dir(cfg)
      out.append(('ok', cfg.to_dict()))
    except BaseException as e:  # pylint: disable=broad-except
      out.append(('error', '%s: %s' % (type(e).__name__, e),
                  traceback.format_exc()))
  pickle.dump(out, open(dst, 'wb'))


if __name__ == '__main__':
  main(sys.argv[1], sys.argv[2])
