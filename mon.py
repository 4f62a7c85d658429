#!/usr/bin/env python3
"""mon.py ID [quick|thorough]  -- run the check that decides property ID on /repo's working tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from monitor import core

MODULES = ['hashes', 'fields', 'sharing', 'ratchet', 'memory']


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    for m in MODULES:
        if not os.path.exists(os.path.join(core.VERIF, 'monitor', m + '.py')):
            continue
        mod = importlib.import_module('monitor.' + m)
        if pid in mod.CHECKS:
            cx = core.Ctx(pid, tier)
            try:
                return mod.CHECKS[pid](cx)
            except core.Inconclusive as e:
                cx.incon.append(str(e))
                return cx.finish()
    sys.stderr.write('no check for %s\n' % pid)
    return 2


sys.exit(main())
