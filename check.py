#!/usr/bin/env python3
"""check.py PROPERTY [--thorough | --replay FILE]: decide one property of the code in /repo."""
import sys, os, time, json, subprocess, signal, tempfile, shutil
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'; sys.dont_write_bytecode = True
if __name__ == '__main__' and os.environ.get('PYTHONHASHSEED') != '0': os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))   # the same run every time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
PY = sys.executable
def say(*a): print(*a); sys.stdout.flush()

def run_unit(i, prop, path, limit):
    """child process: one unit"""
    import pickle, traceback, resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        import importlib
        importlib.import_module('specs.' + prop.lower())
        from pyvc.unit import UNITS
        u = UNITS[prop][i]
        u.time = min(u.time, limit)
        r = u.run()
        r['obls'] = [(o.name, o.status, str(o.why)[:1500], plain(o.model), list(o.path or [])[:60]) for o in r['obls']]
    except BaseException as e:
        r = dict(error=traceback.format_exc()[-3000:])
    with open(path, 'wb') as f: pickle.dump(r, f)
def plain(m):
    if not m: return None
    return {k: v for k, v in m.items() if isinstance(v, (int, bytes, str, bool, list))}

def prove(prop, limit, tmp, jobs=8):
    import pickle, importlib
    try:
        importlib.import_module('specs.' + prop.lower())
    except BaseException as e:
        import traceback
        return [dict(unit=prop + '/specification', obls=[('the code under contract can be loaded', 'failed', traceback.format_exc()[-1500:], None, [])],
            paths=0, solver_s=0, queries=0, covered=[], trust=[], bounded='', wall=0, tries=0)]
    from pyvc.unit import UNITS
    us = UNITS.get(prop, [])
    todo = list(range(len(us))); run = {}; out = {}
    todo.sort(key=lambda i: -us[i].opts.get('cost', 1))
    while todo or run:
        while todo and len(run) < jobs:
            i = todo.pop(0); path = os.path.join(tmp, 'u%d' % i)
            pid = os.fork()
            if pid == 0:
                try: run_unit(i, prop, path, limit)
                finally: os._exit(0)
            run[pid] = (i, path, time.time())
        time.sleep(0.02)
        for pid in list(run):
            i, path, t = run[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            late = time.time() - t > limit + 90
            if p == 0 and not late: continue
            if p == 0: os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0)
            del run[pid]
            try: r = pickle.load(open(path, 'rb'))
            except Exception: r = dict(error='the verifier process was stopped (time or memory)')
            if 'error' in r:
                r = dict(unit=us[i].name, obls=[('verifier run', 'unknown', r['error'], None, [])], paths=0, solver_s=0, queries=0, covered=[], trust=[], bounded='', wall=time.time() - t, tries=0)
            r['unit'] = us[i].name
            out[i] = r
    return [out[i] for i in sorted(out)]

def test(prop, budget, seed, hints, tmp, extra=()):
    out = os.path.join(tmp, 'test.json'); hf = '-'
    if hints:
        hf = os.path.join(tmp, 'hints'); open(hf, 'w').write(repr(hints))
    if os.path.exists(out): os.remove(out)
    if not os.path.exists(os.path.join(HERE, 'testers', prop.lower() + '.py')): return None
    try:
        p = subprocess.run([PY, '-m', 'testers.base', prop, str(budget), str(seed), hf, out] + list(extra), cwd=HERE, timeout=budget + 120,
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED='0'))
    except subprocess.TimeoutExpired: return dict(error='tester timed out', n=0)
    try: return json.load(open(out))
    except Exception: return dict(error='tester died: ' + p.stderr.decode('latin-1')[-800:], n=0)

def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == prop: out.append(k)
    return out

def main():
    prop = sys.argv[1].upper(); t0 = time.time()
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try: return check(prop, tier, seed, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, seed, tmp, t0):
    if '--replay' in sys.argv:
        f = sys.argv[sys.argv.index('--replay') + 1]
        r = test(prop, 60, seed, None, tmp, [os.path.abspath(f)])
        say(json.dumps(r, indent=1)); return 1 if r and r.get('failure') else 0
    sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
    limit = 200 if tier == 'quick' else 600
    try: import asyncore
    except ImportError:
        from pyvc import stubs; stubs.install()
    units = prove(prop, limit, tmp)
    obls = [(u['unit'], o) for u in units for o in u['obls']]
    bad = [(un, o) for un, o in obls if o[1] != 'proved']
    nproved = sum(1 for _, o in obls if o[1] == 'proved')
    if not obls: bad = [(prop, ('obligations were generated', 'failed', 'no obligation', None, []))]
    hints = [o[3] for _, o in bad if o[3]]
    budget = (12 if tier == 'quick' else 120) if not bad else (90 if tier == 'quick' else 300)
    t = test(prop, budget, seed, hints, tmp)
    failure = t.get('failure') if t else None
    terr = t.get('error') if t else None
    viol = bool(bad or failure)
    kf = [k for k in known(prop)]
    byback = {}
    for _, o in obls:
        if o[1] == 'proved': byback[o[2] if len(o[2]) < 40 else 'other'] = byback.get(o[2] if len(o[2]) < 40 else 'other', 0) + 1
    funcs = sorted(set(f for u in units for f in u['covered']))
    trust = sorted(set(x for u in units for x in u['trust']))
    bounded = sorted(set('%s: %s' % (u['unit'], u['bounded']) for u in units if u['bounded']))
    from pyvc.assumptions import BASE, PROP
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=dict(
            obligations=len(obls), discharged=nproved, checker_cmd='python3-vt check.py %s' % prop,
            trusted_base=BASE + PROP.get(prop, []) + trust,
            units=[dict(name=u['unit'], obligations=len(u['obls']), discharged=sum(1 for o in u['obls'] if o[1] == 'proved'), paths=u['paths'],
                        solver_queries=u['queries'], solver_s=round(u['solver_s'], 2), wall_s=round(u['wall'], 2), bounded=u['bounded']) for u in units],
            functions_under_contract=funcs, back_ends=byback, solver_s=round(sum(u['solver_s'] for u in units), 2),
            bounded_units=bounded,
            contract_cross_check=dict(note='concrete executions of the real code against the contracts; not counted as proof', **{k: t[k] for k in ('n', 'distinct', 'samples', 'wall', 'error') if t and k in t}) if t else {}),
        assumptions=BASE + PROP.get(prop, []) + trust + bounded, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    say('%s: %d obligations, %d discharged, %d functions, %d units, solver %.1fs, cross-check %s cases, wall %.1fs' % (prop, len(obls), nproved, len(funcs),
        len(units), ev['coverage']['solver_s'], t.get('n') if t else 0, time.time() - t0))
    for k in kf: say('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if terr:
        say('cross-check error: ' + terr[-600:])
        if not viol: return 2
    if not viol: return 0
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    rp = os.path.join(HERE, 'replays', '%s.json' % prop)
    json.dump(dict(property=prop, failed_obligations=[dict(unit=un, obligation=o[0], status=o[1], detail=o[2], countermodel=repr(o[3])[:1500], path=o[4]) for un, o in bad[:20]],
        input=failure, command='python3-vt %s/check.py %s --replay <this file>' % (HERE, prop)), open(rp, 'w'), indent=1)
    for un, o in bad[:5]: say('  undischarged: %s: %s [%s] %s' % (un, o[0], o[1], o[2][:300].replace('\n', ' ')))
    if failure:
        say('  failing input: %s%s -> %s' % (failure['case'], failure['args'][:300], failure['what'][:300]))
        say('VIOLATION property=%s replay=%s' % (prop, rp))
    else: say('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    return 1
if __name__ == '__main__': sys.exit(main())
