"""Runs the contracts of a property on the real code with concrete inputs.

This is not the deciding step: it turns failed obligations into failing inputs of the real code (replay)
and cross-checks the assumed contracts.  A case is a function of the tester module and plain arguments."""
import sys, os, time, zlib, random, signal, json, traceback, importlib, resource
sys.dont_write_bytecode = True
if hasattr(sys, "set_int_max_str_digits"): sys.set_int_max_str_digits(0)
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (HERE, REPO):
    if p not in sys.path: sys.path.insert(0, p)
import types
if 'asyncore' not in sys.modules:
    try: import asyncore
    except ImportError:
        # removed from the standard library in Python 3.12: a stand-in with the same interface
        from pyvc import stubs
        stubs.install()
class Bad(Exception): pass
class Found(BaseException): pass
class Timeout(BaseException): pass          # not caught by the code under test
class T(object):
    def __init__(self, mod, budget, seed, hints=(), per=20):
        self.mod, self.t0, self.budget, self.hints, self.per = mod, time.time(), budget, list(hints), per
        self.rng = random.Random(seed); self.n = 0; self.distinct = set(); self.samples = []
        self.failure = None
    def more(self, frac=1.0): return time.time() - self.t0 < self.budget * frac
    def left(self): return self.budget - (time.time() - self.t0)
    def case(self, f, *args):
        self.n += 1
        r = None
        k = f.__name__ + repr(args)[:400]; sys.case_key = zlib.crc32(k.encode())          # what a case leaves open is settled by its arguments
        if len(self.distinct) < 200000: self.distinct.add(hash(k))
        if len(self.samples) < 6 and (self.n in (1, 2, 5, 20, 100, 500)): self.samples.append('%s%s' % (f.__name__, repr(args)[:200]))
        signal.setitimer(signal.ITIMER_REAL, self.per, 1)
        try: f(self, *args)
        except (KeyboardInterrupt, SystemExit): raise
        except (Exception, Timeout) as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.failure = dict(case=f.__name__, args=repr(args), what='%s: %s' % (type(e).__name__, str(e)[:600]), trace=traceback.format_exc()[-1500:])
            raise Found()
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    # -- inside a case
    def ok(self, cond, what='contract violated', *vals):
        if not cond: raise Bad(what + (': ' + ', '.join(repr(v)[:200] for v in vals) if vals else ''))
    def eq(self, got, want, what='result'):
        if type(got) != type(want) or got != want:
            if not (isinstance(got, (int, bytes, str)) and got == want and isinstance(want, type(got)) ):
                raise Bad('%s: got %r, the contract says %r' % (what, short(got), short(want)))
    def raises(self, exc, f, *a, **kw):
        try: r = f(*a, **kw)
        except exc: return
        except Exception as e: raise Bad('refused with %s (%s) instead of %s' % (type(e).__name__, str(e)[:200], getattr(exc, '__name__', exc)))
        raise Bad('accepted: returned %r instead of raising %s' % (short(r), getattr(exc, '__name__', exc)))
    # -- generators
    def bytes(self, lo, hi=None):
        n = lo if hi is None else self.rng.randint(lo, hi)
        r = self.rng.random()
        if r < 0.6: return bytes(self.rng.getrandbits(8) for _ in range(n))
        if r < 0.8: return bytes(self.rng.choice((0, 0, 1, 127, 128, 255)) for _ in range(n))
        k = self.rng.randint(0, n)
        return bytes(k) + bytes(self.rng.getrandbits(8) for _ in range(n - k))
    def below(self, n):
        """integer in [0, n), biased to the ends, to small values and to values near powers of two"""
        r = self.rng.random()
        if r < 0.55: return self.rng.randrange(n)
        if r < 0.7: return min(self.rng.randint(0, 8), n - 1)
        if r < 0.85: return max(n - 1 - self.rng.randint(0, 8), 0)
        b = self.rng.randint(0, max(n.bit_length() - 1, 0))
        return min(max((1 << b) + self.rng.randint(-2, 2), 0), n - 1)
def short(x):
    r = repr(x)
    return r if len(r) < 300 else r[:300] + '...'
def alarm(*a): raise Timeout('the call did not return within the time limit')
def main():
    prop, budget, seed, hints, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, alarm)
    hs = []
    if hints != '-': hs = eval(open(hints).read(), {})
    res = {}
    tt = None
    try:
        try: mod = importlib.import_module('testers.' + prop.lower())
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if tb and os.path.realpath(tb[-1].filename).startswith(os.path.realpath(REPO) + os.sep) and not isinstance(e, ImportError):      # the code under test does not load
                res.update(n=1, distinct=1, samples=[], wall=0.0, failure=dict(case='import', args='(%r,)' % os.path.relpath(os.path.realpath(tb[-1].filename), os.path.realpath(REPO)), what='%s: %s' % (type(e).__name__, str(e)[:600]), trace=traceback.format_exc()[-1500:]))
            raise
        tt = T(mod, budget, seed, hs)
        if len(sys.argv) > 6:                       # replay of one case
            c = json.load(open(sys.argv[6]))['input']
            f = getattr(mod, c['case'])
            tt.case(f, *eval(c['args'], {}))
        else: mod.run(tt)
    except Found: pass
    except BaseException as e:
        res['error'] = traceback.format_exc()[-3000:]
    if tt: res.update(n=tt.n, distinct=len(tt.distinct), samples=tt.samples, failure=tt.failure, wall=time.time() - tt.t0)
    json.dump(res, open(out, 'w'))
if __name__ == '__main__': main()
