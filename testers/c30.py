from .wire import *
import math
def isvalid(k, v):
    """is the Python value v valid for a field of kind k?"""
    if k[0] in 'nN':
        lo, hi = lim(k[1])
        if isinstance(v, float): return len(k) > 2 and math.isfinite(v) and lo <= v < hi + 1
        return isinstance(v, int) and lo <= v <= hi
    if k[0] == 'b': return isinstance(v, bytes) and len(v) == k[1]
    if k[0] == 's': return isinstance(v, (bytes, str))
    if k[0] == 'v': return isinstance(v, int) and 0 <= v < 1 << 64
    if k[0] == 'c': return isinstance(v, getattr(F, k[1]))
    if k[0] == 'c0': return isinstance(v, F.NetworkAddress)
    if k[0] == 'a': return isinstance(v, (list, tuple)) and k[2] <= len(v) and (k[3] is None or len(v) <= k[3]) and all(isvalid(k[1], x) for x in v)
    if k[0] == 'ip': return isinstance(v, str) and (v in ('1.2.3.4', '::1', '1:2:3:4:5:6:7:8'))
def value(e):
    """argument from its description (plain data)"""
    if isinstance(e, tuple) and e and e[0] == 'build': return build(e[1], e[2])
    if isinstance(e, tuple) and e and e[0] == 'list': return [value(x) for x in e[1]]
    if isinstance(e, tuple) and e and e[0] == 'tuple': return tuple(value(x) for x in e[1])
    if isinstance(e, tuple) and e and e[0] == 'rep': return [value(e[1])] * e[2]
    if isinstance(e, tuple) and e and e[0] == 'float': return float(e[1])
    if isinstance(e, tuple) and e and e[0] == 'object': return object()
    if isinstance(e, tuple) and e and e[0] == 'bytearray': return bytearray(e[1])
    return e
def where(name): return (getattr(F, name), STRUCTS[name]) if name in STRUCTS else (getattr(M, MSG[name][0]), MSG[name][1])
def field(T, name, f, e, others):
    cls, fs = where(name); i = [x for x, t in fs].index(f); k = fs[i][1]; v = value(e)
    args = [v if j == i else build(t, o) for j, ((g, t), o) in enumerate(zip(fs, others))]
    ok = isvalid(k, v); opt = name == 'version' and f == 'relay'
    if not ok and not opt: T.raises(Exception, cls, *args); return
    o = cls(*args); got = getattr(o, f)
    if not ok: T.ok(got is True, 'default', got)
    else: T.ok(type(got) is (tuple if isinstance(v, list) else type(v)) and (list(got) == list(v) if isinstance(v, (list, tuple)) else got is v or got == v), 'stored value', got, v)
    o.binary(b'abcd') if name in MSG else o.binary()
def arguments(T, name, vs, npos, kws, extra):
    """npos positional arguments and the given keywords"""
    cls, fs = where(name); xs = [build(t, v) for (f, t), v in zip(fs, vs)]; d = dict(zip([f for f, t in fs], xs))
    args = xs[:npos] + [0] * max(0, npos - len(xs)); kw = {k: d.get(k, 0) for k in kws}
    ok = npos <= len(fs) and sorted([f for f, t in fs[:npos]] + list(kws)) == sorted(d)
    if ok: o = cls(*args, **kw); T.ok(all(getattr(o, f) == (tuple(x) if isinstance(x, list) else x) for f, x in d.items()), 'fields')
    else: T.raises(Exception, cls, *args, **kw)
def candidates(T, k):
    R = T.rng
    out = [None, True, '', b'', 'x', b'x', ('object',), ('float', 'nan'), ('float', 'inf'), ('float', '-inf'), 0.0, -0.5, 1.5, 2.0 ** 31, 2.0 ** 32 - .5, 2.0 ** 32, -2.0 ** 63, 2.0 ** 63, 2.0 ** 64, ('list', []), ('tuple', []), ('bytearray', bytes(8)), ('bytearray', bytes(32))]
    for b in (7, 8, 15, 16, 31, 32, 63, 64):
        for s in (1, -1): out += [s * (1 << b) + d for d in (-1, 0, 1)]
    out += [bytes(n) for n in (7, 8, 9, 20, 31, 32, 33)] + ['a' * n for n in (8, 32)] + ['1.2.3.4', '::1', '1:2:3:4:5:6:7:8']
    out += [('build', ('c', s), gen(T, ('c', s))) for s in STRUCTS]
    if k[0] == 'a':
        good = ('build', k[1], gen(T, k[1])) if k[1][0] == 'c' else bytes(32)
        bads = [None, 7, b'', bytes(31), bytes(33), 'x' * 32, ('object',), ('build', ('c', 'OutPoint'), gen(T, ('c', 'OutPoint')))]
        out += [('list', [good]), ('tuple', [good, good]), ('rep', good, 3)]
        for b in bads: out += [('list', [b]), ('list', [good, b]), ('tuple', [b, good]), ('list', [good, good, b, good])]
        if k[3]: out += [('rep', good, k[3] - 1), ('rep', good, k[3]), ('rep', good, k[3] + 1), ('rep', good, k[3] * 2)]
        out += [('rep', good, n) for n in (252, 253, 254, 999, 1000, 1001, 2000, 2001)]
    return out
def run(T):
    R = T.rng
    names = list(STRUCTS) + list(MSG)
    for name in names:
        cls, fs = where(name)
        for f, t in fs:
            o = [gen(T, u) for g, u in fs]
            for e in candidates(T, t): T.case(field, name, f, e, o)
    for name in names:
        cls, fs = where(name); vs = [gen(T, u) for g, u in fs]; ks = [f for f, t in fs]
        for n in range(len(fs) + 2):
            T.case(arguments, name, vs, n, ks[n:], 0); T.case(arguments, name, vs, n, [], 0); T.case(arguments, name, vs, n, ks[n + 1:], 0); T.case(arguments, name, vs, n, ks[max(n - 1, 0):], 0); T.case(arguments, name, vs, n, ks[n:] + ['other'], 0); T.case(arguments, name, vs, n, ks[n + 1:] + ['other'], 0)
    while T.more():
        name = R.choice(names); cls, fs = where(name)
        if not fs: continue
        f, t = R.choice(fs); o = [gen(T, u) for g, u in fs]
        if t[0] in 'nNv':
            w = 64 if t[0] == 'v' else 8 * struct.calcsize(t[1])
            T.case(field, name, f, R.choice((1, -1)) * T.below(1 << w + 2), o)
            T.case(field, name, f, R.choice((1, -1)) * T.below(1 << w + 1) * 1.0 + R.choice((0, .5)), o)
        elif t[0] in 'bs': T.case(field, name, f, T.bytes(0, 40), o)
        T.case(arguments, name, o, R.randint(0, len(fs)), [g for g, u in fs if R.random() < .5], 0)
