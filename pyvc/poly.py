"""Polynomial identities and congruences.

reduce(P, mod, rules): rewrite P with the known facts
  - the remainder of a by m equals a - q*m (q the quotient), for every division made on this path;
  - the remainder of a by m is congruent to a modulo m, so a when the goal is modulo m;
  - multiples of m vanish modulo m; integer coefficients are reduced when m is a number;
  - every polynomial of `rules` vanishes: its leading monomial is replaced by the rest.
A zero result proves the identity (congruence).  A rule whose leading coefficient k is not 1 multiplies the goal by k:
`units` is the product of these, which the caller has to know to be invertible."""
from . import core
from .core import *

def atom_of(x):
    """index of the only atom of x, or None"""
    if isinstance(x, SInt) and len(x.t) == 1:
        (m, k), = x.t.items()
        if k == 1 and len(m) == 1: return m[0]
    return None
def subst(P, d):
    """replace atoms (index -> polynomial) everywhere"""
    if not isinstance(P, SInt): return P
    if not any(a in d for m in P.t for a in m): return P
    out = 0
    for m, k in P.t.items():
        t = k
        keep = tuple(a for a in m if a not in d)
        t = mk({keep: k})
        for a in m:
            if a in d: t = s_mul(t, d[a])
        out = s_add(out, t)
    return out
def same_mod(m, m2):
    return (isinstance(m, int) and isinstance(m2, int) and m == m2) or (isinstance(m, SInt) and isinstance(m2, SInt) and m.key() == m2.key())
def exact(P, mod=None):
    """remainders written out"""
    c = core.CUR
    for _ in range(200):
        P = c.norm(P)
        if not isinstance(P, SInt): return P
        d = {}
        for m in P.t:
            for a in m:
                if a in d: continue
                k = c.atoms[a].key
                if k[0] == 'mod':
                    if mod is not None and same_mod(c.norm(k[2]), c.norm(mod)): d[a] = k[1]
                    else: d[a] = s_add(k[1], -s_mul(c.atom2(('div', k[1], k[2]), 'div')[0], k[2]))
                elif mod is not None and k[0] == 'div' and same_mod(c.norm(k[2]), c.norm(mod)): pass
        if not d: return P
        P = subst(P, d)
    return P
def order(m): return (len(m), tuple(sorted(m, reverse=True)))
def lead(R):
    m = max((m for m in R.t if m), key=order)
    return m, R.t[m]
def divides(a, b):
    b = list(b)
    for x in a:
        if x in b: b.remove(x)
        else: return None
    return tuple(b)
def modred(P, mod):
    if mod is None or not isinstance(P, SInt): return P if not isinstance(mod, int) or not isinstance(P, int) else P % mod
    if isinstance(mod, int): return mk({m: k % mod for m, k in P.t.items() if k % mod})
    a = atom_of(mod)
    if a is None: return P
    return mk({m: k for m, k in P.t.items() if a not in m})
def reduce(P, mod=None, rules=(), steps=4000):
    c = core.CUR
    mod = c.norm(mod) if isinstance(mod, SInt) else mod
    P = modred(exact(P, mod), mod); units = 1
    rs = []
    for R in rules:
        R = modred(exact(R, mod), mod)
        if not isinstance(R, SInt): continue
        m, k = lead(R)
        if isinstance(mod, int): 
            try: R = mk({x: v * pow(k, -1, mod) % mod for x, v in R.t.items()}); k = 1
            except ValueError: pass
        rs.append((m, k, R))
    for _ in range(steps):
        if not isinstance(P, SInt): break
        hit = None
        for pm in sorted((m for m in P.t if m), key=order, reverse=True):
            for m, k, R in rs:
                rest = divides(m, pm)
                if rest is not None: hit = (pm, m, k, R, rest); break
            if hit: break
        if hit is None: break
        pm, m, k, R, rest = hit; co = P.t[pm]
        if co % k: P = s_mul(P, abs(k)); units *= abs(k); co *= abs(k)
        P = modred(s_add(P, -s_mul(mk({rest: co // k}), R)), mod)
    return P, units
def is_zero(P, mod=None, rules=(), allow=(1,)):
    r, u = reduce(P, mod, rules)
    if not (isinstance(r, int) and r == 0): return False
    for p in allow:
        while p > 1 and u % p == 0: u //= p
    return u == 1
def show(P): return core.show(P) if isinstance(P, SInt) else repr(P)
def oblige_zero(it, name, P, mod=None, rules=(), allow=(1,)):
    r, u = reduce(P, mod, rules)
    ok = isinstance(r, int) and r == 0
    for p in allow:
        while p > 1 and u % p == 0: u //= p
    ok = ok and u == 1
    return it.c.oblige_by(name, ok, 'poly', 'remainder %s' % show(r)[:300])
def linear(P, a, b):
    """(coefficient of atom a, coefficient of atom b) if P is a linear form in them, else None"""
    P = exact(P); ca, cb = {}, {}
    if not isinstance(P, SInt): return None if P else (0, 0)
    for m, k in P.t.items():
        na, nb = m.count(a), m.count(b)
        if na + nb != 1: return None
        r = list(m); r.remove(a if na else b); (ca if na else cb)[tuple(r)] = k
    return mk(ca), mk(cb)
