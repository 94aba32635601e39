import sys, importlib, time, os
os.environ['VERIF_DEBUG'] = '1'
sys.dont_write_bytecode = True
import os; sys.path.insert(0, os.environ.get('VERIF_REPO','/repo')); sys.path.insert(0, '/verif')
sys.setrecursionlimit(10000)
from pyvc import harness
mod = importlib.import_module('specs.' + sys.argv[1])
from specs.common import base_registry
only = sys.argv[2:] 
import check, multiprocessing
ms = [m for m in harness.MODES if m.run.__module__ == 'specs.' + sys.argv[1] and (not only or m.name in only)]
def go(x):
    m, i = x
    m = next(k for k in harness.MODES if k.key == m)
    return harness.run_mode(m, m.registry or base_registry, debug=True, part=i, parts=m.parts, timeout_s=float(os.environ.get('T', 300)))
pool = multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1)
jobs = [(m, [pool.apply_async(go, ((m.key, i),)) for i in range(m.parts)]) for m in ms]
for m, js in jobs:
    rs = [j.get() for j in js]
    r = check.merge(m, rs)
    print([x['wall_s'] for x in rs])
    print('==', m.name, m.prop, 'err:', r['error'], 'missing:', r['missing_covers'], 'paths', r.get('stats', {}).get('paths'), 'checks', r.get('stats', {}).get('checks'), r['wall_s'])
    for o in r['obligations']:
        print('   ', o['status'], o['n'], o['name'])
        for x in o['fails'][:1]:
            print('        ', x.get('line'), x.get('info'), x.get('trace'))
            print('        ', x.get('model'))
