"""check PROPERTY [quick|thorough]"""
import collections
import json
import os
import sys
import time
import traceback

import checks
import engine
from engine import Machinery, Scratch


def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(engine.EVID, exist_ok=True)
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage, 'wall_s': round(wall, 2),
         'assumptions': assumptions, 'violations': violations}
    tmp = os.path.join(engine.EVID, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(engine.EVID, prop + '.json'))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(engine.EVID, exist_ok=True)
    for n in os.listdir(engine.EVID):
        if n.startswith('replay-%s-' % prop):
            os.unlink(os.path.join(engine.EVID, n))
    with Scratch() as scratch:
        run = checks.Run(prop, tier, seed, scratch)
        try:
            run.execute()
        except Machinery as e:
            print('ERROR machinery: %s' % e)
            return 2
    viol = []
    for k, v in enumerate(run.violations[:20]):
        path = os.path.join(engine.EVID, 'replay-%s-%d.json' % (prop, k + 1))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  ' + '; '.join(v['clauses'])[:400])
        viol.append({'replay': path, 'clauses': v['clauses']})
    for n, c in sorted(run.notes.items())[:20]:
        print('NOTE %s x%d' % (n, c))
    write_evidence(prop, tier, seed, run.level, run.coverage(), time.time() - t0, len(viol), run.assumptions())
    print('%s %s: %s in %.1f s' % (prop, tier, 'VIOLATED' if viol else 'held', time.time() - t0))
    print('  ' + run.summary())
    return 1 if viol else 0


try:
    rc = main()
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
