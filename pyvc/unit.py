"""Verification units: contracts on functions of /repo, explored on every path."""
import os, time, traceback, sys
from . import core, interp as IT
from .core import *
from .rope import *
from .interp import *

class Unit(object):
    def __init__(self, name, fn, prop=None, loops=(), contracts=None, reach=(), funcs=(), **opts):
        self.name, self.fn, self.prop = name, fn, prop
        self.loops = list(loops)
        self.contracts = contracts or {}
        self.reach_ = list(reach)
        self.funcs = list(funcs)
        self.opts = opts
        self.max_steps = opts.get('max_steps', 200000)
        self.unroll = opts.get('unroll', 600)
        self.max_forks = opts.get('max_forks', 40)
        self.max_paths = opts.get('max_paths', 3000)
        self.time = opts.get('time', 300)
        self.inline = opts.get('inline', ())
        self.frozen = opts.get('frozen', ('Curve', 'CurveFp'))
        self.spec_concrete_for = opts.get('spec_concrete_for', False)
        self.comp_rule = opts.get('comp_rule'); self.join_rule = opts.get('join_rule'); self.sum_rule = opts.get('sum_rule')
        self.reduce_rule = opts.get('reduce_rule'); self.split_rule = opts.get('split_rule')
        self.number_rule = opts.get('number_rule'); self.powmod_hook = opts.get('powmod_hook')
        self.shared = opts.get('shared', ()); self.shared_ids = set()
        self.bounded = opts.get('bounded', '')
        self.frames = {}; self.angel = {}; self.angel_order = []; self.peel = set(); self.undefs = set()
    def explore(self):
        """all paths under the current loop bindings -> dict"""
        t0 = time.time()
        work = [((), None, 0)]; obls = []; reached = set(); npaths = 0; cov = set(); trust = set()
        bad = None; solver_s = 0.0; nq = 0; inputs = None
        self.shared_ids = IT.shared_ids(self.shared); saved = self.save()
        while work:
            pre = work.pop(); self.restore(saved)
            npaths += 1
            if npaths > self.max_paths or time.time() - t0 > self.time:
                obls.append(Obl(self.name, 'exploration', 'unknown', 'path or time limit (%d paths, %.0fs)' % (npaths, time.time() - t0), None, [])); break
            c = Ctx(self.name, pre[0], self.opts, *pre[1:]); core.CUR = c
            it = Interp(c, self)
            for f, h in self.contracts.items(): it.contracts[f] = h
            self.it = it
            try:
                self.fn(it)
                c.reach('end')
            except PathEnd: pass
            except RestartUnit: raise
            except ProgExc as e:
                try: c.oblige_by('no unexpected exception', False, 'path', 'escaping %s: %s' % (type(e.exc).__name__, str(e.exc)[:200]))
                except PathEnd: pass
            except Unsupported as e:
                # an infeasible path may have stumbled over a construct
                if c.feasible(): c.obls.append(Obl(self.name, 'within the verified subset', 'unknown', 'unsupported: %s' % (e,), None, list(c.trace)))
            except RecursionError as e:
                c.obls.append(Obl(self.name, 'within the verified subset', 'unknown', 'recursion', None, list(c.trace)))
            except (AttributeError, KeyError, TypeError, IndexError, ValueError, AssertionError) as e:     # a rule of the verifier does not fit this program
                c.obls.append(Obl(self.name, 'within the verified subset', 'unknown', 'rule: %s: %s' % (type(e).__name__, str(e)[:200]), None, list(c.trace)))
            except z3.Z3Exception as e:
                c.obls.append(Obl(self.name, 'within the verified subset', 'unknown', 'z3: %s' % e, None, list(c.trace)))
            work.extend(c.pending)
            obls += c.obls; reached |= c.reached; cov |= it.covered; trust |= c.assumed
            solver_s += c.solver_s; nq += c.nq
            if any(o.status != 'proved' for o in c.obls) and self.opts.get('fast_fail', True): break
        self.restore(saved)
        for r in self.reach_:
            ok = r in reached
            obls.append(Obl(self.name, 'reachable: %s' % r, 'proved' if ok else 'unknown', 'path' if ok else 'label never reached', None, []))
        if not any(o.status == 'proved' for o in obls) :
            obls.append(Obl(self.name, 'non-vacuous', 'unknown', 'no obligation generated', None, []))
        return dict(unit=self.name, obls=obls, paths=npaths, solver_s=solver_s, queries=nq, covered=sorted(cov), trust=sorted(trust), bounded=self.bounded)
    def save(self):
        """the state of the modules a unit may write to"""
        cp = lambda v: type(v)(v) if type(v) in (dict, list, set) else v
        return [(m, {k: (v, cp(v)) for k, v in vars(sys.modules[m]).items()}) for m in self.shared]
    def restore(self, saved):
        for m, d in saved:
            g = vars(sys.modules[m])
            for k in list(g):
                if k not in d: del g[k]
            for k, (v, w) in d.items():
                g[k] = v
                if type(v) is list: v[:] = w
                elif type(v) in (dict, set): v.clear(); v.update(w)
    def run(self):
        t0 = time.time()
        best = None; tries = 0
        self.frames = {}; self.angel = {}; self.angel_order = []; self.inside = {}; self.peel = set(); self.undefs = set()
        while True:
            tries += 1
            try: r = self.explore()
            except RestartUnit:
                self.angel = {}; self.angel_order = []
                if tries > 12 or time.time() - t0 > self.time: break
                continue
            bad = [o for o in r['obls'] if o.status != 'proved']
            if os.environ.get('PYVC_TRIES'): print('try', tries, [(self.angel[k][0], self.angel[k][1]) for k in self.angel_order], [(o.name, o.why[:200]) for o in bad][:4])
            if best is None or (len(bad) == 0) : best = r
            if not bad or tries > self.opts.get('max_tries', 24) or time.time() - t0 > self.time: break
            # next choice of loop bindings; a loop whose own invariant fails is to blame, not those after it
            ks = [k for k in self.angel_order if self.angel[k][0][self.angel[k][1]] and any(o.name.startswith('loop %s: ' % self.loops[self.angel[k][0][self.angel[k][1]][0]].name) for o in bad)]
            while ks and self.angel_order[-1] != ks[-1] and ks[-1] not in self.inside.get(self.angel_order[-1], ()):
                del self.angel[self.angel_order.pop()]
            while self.angel_order:
                k = self.angel_order[-1]
                o, i = self.angel[k]
                if i + 1 < len(o): self.angel[k][1] = i + 1; break
                self.angel_order.pop(); del self.angel[k]
            if not self.angel_order:                        # loops whose last iteration is looked at: once more with those taken apart
                self.undefs.discard(None)
                if not self.undefs or self.peel: break
                self.peel = set(self.undefs); self.angel = {}; best = None
            # keys after the changed one were dropped; keep the ones before
        if best is None:
            best = dict(unit=self.name, obls=[Obl(self.name, 'exploration', 'unknown', 'restart limit', None, [])], paths=0, solver_s=0, queries=0, covered=[], trust=[], bounded=self.bounded)
        best['wall'] = time.time() - t0; best['tries'] = tries
        return best

UNITS = {}       # property -> list of Unit
def unit(prop, name, **kw):
    def d(fn):
        UNITS.setdefault(prop, []).append(Unit('%s/%s' % (prop, name), fn, prop, **kw))
        return fn
    return d
