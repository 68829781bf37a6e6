import sys, importlib, time
from pyvc import core
sys.setrecursionlimit(20000)
m = importlib.import_module('specs.' + sys.argv[1].lower())
from pyvc.unit import UNITS
pat = sys.argv[2] if len(sys.argv) > 2 else ''
for u in UNITS[sys.argv[1].upper()]:
    if pat not in u.name: continue
    r = u.run()
    bad = [o for o in r['obls'] if o.status != 'proved']
    print('%-60s %s obls=%d paths=%d q=%d solver=%.1fs wall=%.1fs tries=%d' % (u.name, 'OK' if not bad else 'FAIL', len(r['obls']), r['paths'], r['queries'], r['solver_s'], r['wall'], r['tries']))
    for o in bad[:6]: print('    ', o.name, o.status, '|', o.why[:1500], '|', o.model, o.path[-30:])
    if '-v' in sys.argv:
        for o in r['obls']: print('    ', o.name, o.status, o.why)
