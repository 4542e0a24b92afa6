#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property on the current source of the repository"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'sa'), HERE]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import rule
    from prog import BrokenAnalysis, Prog
    chk = rule.Check(pid, tier, int(os.environ.get('VERIF_SEED', '1')))
    mod = importlib.import_module('rules.' + pid)
    try:
        prog = Prog(mod.TUS)
        mod.check(chk, prog)
        # functions of other rules that this property's statement rests on
        for dep, names in getattr(mod, 'USES', ()):
            chk.subset, chk.taken = set(names), set()
            part = importlib.import_module('rules.' + dep)
            part.check(chk, Prog(part.TUS))
            if chk.subset - chk.taken:
                raise BrokenAnalysis('rule %s has no obligation for %s' % (dep, ', '.join(sorted(chk.subset - chk.taken))))
            chk.subset = None
    except BrokenAnalysis as b:
        print('BROKEN property=%s %s' % (pid, b))
        return 2
    if not chk.obs:
        print('BROKEN property=%s no obligation was generated' % pid)
        return 2
    return chk.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
