#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree.
exit 0: held; exit 1 + VIOLATION line: broken."""
import os, sys
os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('_VP_REEXEC') != '1':
    os.environ['_VP_REEXEC'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
VERIF = os.path.dirname(os.path.abspath(__file__))
os.chdir(VERIF)
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import facts
from report import Report

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from rules import REGISTRY
    meta = REGISTRY[prop]
    r = Report(prop, tier)
    if meta.get('mir', True) and not os.environ.get('VP_NO_EXTRACT'):
        facts.extract()
    try:
        meta['run'](r)
    except Exception as e:   # the analysed construct changed beyond what the rule understands
        import traceback
        traceback.print_exc()
        if os.environ.get('VP_DEBUG'):
            raise
        r.bad('analysis:' + type(e).__name__, 'the analysis could not interpret the current source (%s: %s)' % (type(e).__name__, e))
    return r.finish(meta)

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
