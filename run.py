#!/usr/bin/env python3
"""run.py check <property> [quick|thorough]   -- entry point of every registered check
   run.py replay <file>                       -- run the command stored in a replay file again (after a check built the programs)"""
import os, sys, json, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
import vrun, checks
def main():
    if sys.argv[1] == 'replay':
        d = json.load(open(sys.argv[2])); rc, o = vrun.sh(d['command'], 600, cwd=d['cwd']); print(o); return rc or 0
    if sys.argv[1] == 'setup': import vbuild; print('tools:', *sorted({c[0] for c in vbuild.CONFIGS.values()})); return 0
    prop = sys.argv[2]; tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
    ctx = vrun.Ctx(prop, tier, int(os.environ.get('VERIF_SEED', '1')))
    try: return checks.CHECKS[prop](ctx)
    except vrun.Harness as e: print('HARNESS ERROR: %s' % e); return 2
    except Exception: traceback.print_exc(); return 2
sys.exit(main())
