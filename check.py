#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property from /repo's sources."""
import argparse, importlib, os, resource, signal, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'rules')]
sys.setrecursionlimit(20000)
import ctx as C
import front

RULES = {}
def rules():
    for f in sorted(os.listdir(os.path.join(HERE, 'rules'))):
        if f.endswith('.py') and not f.startswith('_'):
            m = importlib.import_module(f[:-3])
            for k, v in getattr(m, 'PROPS', {}).items():
                RULES.setdefault(k, []).extend(v if isinstance(v, (list, tuple)) else [v])
    return RULES

def late(*a):
    raise TimeoutError('out of time')

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    rs = rules().get(a.property)
    if not rs:
        print('no rules for ' + a.property)
        return 3
    c = C.Ctx(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1), a.v)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('VERIF_LIMIT', '760')))
    try:
        for r in rs:
            try:
                r(c)
            except (front.FrontError, C.AnchorLost):
                raise
            except Exception as e:
                # the analysis meets something it does not understand: nothing is claimed about it
                traceback.print_exc()
                c.undecided('analysis', r.__name__, '%s: %s' % (type(e).__name__, e))
        c.floors()
    except (front.FrontError, C.AnchorLost) as e:
        print('ERROR property=%s %s' % (a.property, e))
        return 4
    return c.finish()

if __name__ == '__main__':
    sys.exit(main())
