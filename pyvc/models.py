"""Models of the builtins and library functions the repository uses, on symbolic values.

Every model is an assumed contract on a dependency (CPython builtins, struct, binascii, hashlib, hmac,
base64, os.urandom, time, random); they are listed in the evidence as trusted.
"""
import re, string, types, builtins, struct, binascii, hashlib, hmac, os, functools, base64, math
from . import core
from .core import *
from .rope import *
from . import rope as R

MODELS = {}
def model(*fs):
    def d(h):
        for f in fs: MODELS[f] = h
        return h
    return d
def I():
    from . import interp
    return interp
def terr(m='bad operand type'): return ProgExc(TypeError(m))

# ------------------------------------------------------------------ types
def pytype(x):
    if isinstance(x, SInt): return int
    if isinstance(x, SBool): return bool
    if isinstance(x, BA): return bytearray
    if isinstance(x, Rope): return NAT[x.kind]
    if isinstance(x, I().SObj): return x._cls
    if isinstance(x, (I().Closure, I().PMethod, I().BMethod)): return types.FunctionType
    return type(x)
@model(type)
def m_type(it, a, kw):
    if len(a) != 1: raise Unsupported('type()')
    return pytype(a[0])
@model(isinstance)
def m_isinstance(it, a, kw):
    if isinstance(a[0], I().SObj) and hasattr(a[0], 's_isinstance'): return a[0].s_isinstance(it, a[1])
    try: return issubclass(pytype(a[0]), a[1])
    except TypeError as e: raise ProgExc(e)
@model(issubclass)
def m_issub(it, a, kw): return issubclass(a[0], a[1])
@model(callable)
def m_callable(it, a, kw): return callable(a[0]) or isinstance(a[0], (I().Closure, I().PMethod, I().BMethod, I().SObj))
@model(hasattr)
def m_hasattr(it, a, kw):
    try: it.getattr(a[0], a[1]); return True
    except ProgExc as e:
        if isinstance(e.exc, AttributeError): return False
        raise
@model(getattr)
def m_getattr(it, a, kw):
    try: return it.getattr(a[0], a[1])
    except ProgExc as e:
        if len(a) > 2 and isinstance(e.exc, AttributeError): return a[2]
        raise
@model(setattr)
def m_setattr(it, a, kw): it.setattr(a[0], a[1], a[2])
@model(len)
def m_len(it, a, kw):
    x = a[0]
    if isinstance(x, Rope): return rlen(x)
    if isinstance(x, I().SIter): return x.n
    if isinstance(x, I().SObj): return x.s_len(it)
    if isinstance(x, (SInt, SBool, int, type(None), float)): raise terr('object has no len()')
    for k in type(x).__mro__:
        m = k.__dict__.get('__len__')
        if isinstance(m, types.FunctionType): return it.call(m, [x])
    try: return len(x)
    except TypeError as e: raise ProgExc(e)
@model(id)
def m_id(it, a, kw): return id(a[0])
@model(hash)
def m_hash(it, a, kw):
    x = a[0]
    if it_concrete(x): return hash(x)
    h, new = core.CUR.atom2(('hash', seqkey(x)), 'hash')
    if new:
        seen = core.CUR.memo.setdefault('hashed', [])
        for y, g in seen:
            try: core.CUR.fact(s_implies(it.eqb(x, y), s_eq(h, g)))     # equal values hash equally
            except Unsupported: pass
        seen.append((x, h))
    return h
def it_concrete(x): return I().concrete_deep(x)
@model(print)
def m_print(it, a, kw): return None
try:
    import six
    MODELS[six.print_] = m_print
    @model(six.int2byte)
    def m_int2byte(it, a, kw):
        x = a[0]
        if not is_int(x): raise terr()
        if not core.CUR.decide(s_and(s_le(0, x), s_lt(x, 256))): raise ProgExc(struct.error('ubyte format requires 0 <= number <= 255'))
        return mk_seq('b', [x])
    @model(six.b)
    def m_b(it, a, kw):
        if isinstance(a[0], str): return a[0].encode('latin-1')
        raise Unsupported('six.b')
    @model(six.advance_iterator)
    def m_next6(it, a, kw): return m_next(it, a, kw)
except ImportError: pass
@model(next)
def m_next(it, a, kw):
    if hasattr(a[0], 's_next'): return a[0].s_next(it)
    raise Unsupported('next')
import hmac as _hm
@model(_hm.compare_digest)
def m_compare_digest(it, a, kw):
    x, y = a
    if not (kind_of(x) == kind_of(y) and kind_of(x) in ('b', 's')): raise terr('unsupported operand types')
    if kind_of(x) == 's' and not (it_concrete(x) and it_concrete(y)): raise Unsupported('compare_digest of text')
    return it.eqb(x, y)
@model(format)
def m_format(it, a, kw): return it.format(a[0], a[1] if len(a) > 1 else '')
@model(repr)
def m_repr(it, a, kw):
    if it_concrete(a[0]): return repr(a[0])
    n, new = core.CUR.atom2(('replen', seqkey(a[0])), 'rl')
    if new: core.CUR.fact(s_le(0, n))
    return whole(App('repr', (a[0],), n, 0, 0x10ffff), 's')

# ------------------------------------------------------------------ numbers
@model(int)
def m_int(it, a, kw):
    c = core.CUR
    if not a: return 0
    x = a[0]; base = a[1] if len(a) > 1 else kw.get('base', 10)
    if isinstance(x, I().SObj) and hasattr(x, 's_int'): return x.s_int(it, base)
    if is_int(x) and len(a) == 1: return int(x) if isinstance(x, bool) else x
    if isinstance(x, SBool): return 1 if it.truth(x) else 0
    if isinstance(x, Rope) and x.kind in 'bs':
        al = {16: 'hex', 10: 'dec'}.get(base)
        if al:
            n = rlen(x)
            if c.decide(s_eq(n, 0)): raise ProgExc(ValueError('invalid literal for int()'))
            v = val(x, base, al)
            if v is None and al == 'hex': v = val(x, base, 'HEX')
            if v is not None: return v
        # arbitrary text: either not a literal, or some integer determined by the text
        ok, _ = c.atom2(('intok', base, x), 'intok')
        if not c.decide(s_eq(ok, 1)): raise ProgExc(ValueError('invalid literal for int()'))
        v, new = c.atom2(('intval', base, x), 'intval')
        if new and len(x.segs) == 1 and x.segs[0][0] == 'A':
            for al, ci in c.memo.get('charsin', {}).get(x.segs[0][1].name, ()):       # no sign, so not negative
                if 45 not in al: c.fact(s_implies(s_eq(ci, 1), s_le(0, v)))
        return v
    if it_concrete(a): return it.native(int, a, kw)
    raise terr('int() argument')
@model(float)
def m_float(it, a, kw):
    if it_concrete(a): return it.native(float, a, kw)
    raise Unsupported('float')
@model(bool)
def m_bool(it, a, kw): return it.truth(a[0]) if a else False
@model(abs)
def m_abs(it, a, kw):
    x = a[0]
    if isinstance(x, SInt): return x if core.CUR.decide(s_le(0, x)) else -x
    return it.native(abs, a, kw)
@model(divmod)
def m_divmod(it, a, kw):
    if is_int(a[0]) and is_int(a[1]): return s_divmod(a[0], a[1])
    if it_concrete(a): return it.native(divmod, a, kw)
    raise terr()
@model(pow)
def m_pow(it, a, kw):
    if it_concrete(a): return it.native(pow, a, kw)
    if len(a) == 2: return it.binop('Pow', a[0], a[1])
    c = core.CUR
    b, e, m = a
    if isinstance(e, int) and 0 <= e <= 4 and is_int(b) and not it.unit.powmod_hook: return s_divmod(s_pow(b, e) if e else 1, m)[1]
    if not c.decide(s_le(0, e)): raise Unsupported('negative modular exponent')
    if c.decide(s_eq(m, 0)): raise ProgExc(ValueError('pow() 3rd argument cannot be 0'))
    r, new = c.atom2(('powmod', b, e, m), 'pm')
    if new:
        c.fact(s_implies(s_lt(0, m), s_and(s_le(0, r), s_lt(r, m))))
        c.memo.setdefault('powmods', []).append((r, b, e, m))
        h = it.unit.powmod_hook
        if h: h(it, r, b, e, m)
    return r
def minmax(it, a, kw, less):
    if len(a) == 1 and hasattr(a[0], 's_max') and not less: return a[0].s_max(it, kw)
    xs = it.to_list(a[0]) if len(a) == 1 else list(a)
    if it_concrete(xs) and it_concrete(kw): return it.native(min if less else max, a, kw)
    if kw: raise Unsupported('min/max key')
    if not xs: raise ProgExc(ValueError('empty sequence'))
    r = xs[0]
    for x in xs[1:]:
        if it.truth(it.compare('Lt', x, r) if less else it.compare('Lt', r, x)): r = x
    return r
@model(min)
def m_min(it, a, kw): return minmax(it, a, kw, True)
@model(max)
def m_max(it, a, kw): return minmax(it, a, kw, False)
@model(sum)
def m_sum(it, a, kw):
    t = a[1] if len(a) > 1 else kw.get('start', 0)
    if it.unit.sum_rule and (isinstance(a[0], I().SIter) or isinstance(a[0], Rope) and not is_explicit(a[0])):
        r = it.unit.sum_rule(it, it.iter_of(a[0]))
        if r is not None: return it.binop('Add', t, r)
    if isinstance(it.iter_of(a[0]), I().SIter): return it.fold(lambda acc, x: it.binop('Add', acc, x), a[0], t, 'sum')
    for x in it.to_list(a[0]): t = it.binop('Add', t, x)
    return t
@model(any)
def m_any(it, a, kw):
    if isinstance(a[0], I().SFilter): return it.exists(a[0].n, lambda i: s_and(a[0].cond(i), it.plain(a[0].elem(i))), key=a[0].key)
    if isinstance(a[0], I().SIter) and it.c.concrete(a[0].n) is None: return it.exists(a[0].n, lambda i: it.plain(a[0].elem(i)), key=a[0].key)
    for x in it.to_list(a[0]):
        if it.truth(x): return True
    return False
@model(all)
def m_all(it, a, kw):
    if isinstance(a[0], I().SFilter): return not it.exists(a[0].n, lambda i: s_and(a[0].cond(i), s_not(it.plain(a[0].elem(i)))), key=a[0].key)
    if isinstance(a[0], I().SIter) and it.c.concrete(a[0].n) is None: return not it.exists(a[0].n, lambda i: s_not(it.plain(a[0].elem(i))), key=a[0].key)
    for x in it.to_list(a[0]):
        if not it.truth(x): return False
    return True
@model(math.ceil)
def m_ceil(it, a, kw):
    if it_concrete(a): return it.native(math.ceil, a, kw)
    if is_int(a[0]): return a[0]
    raise Unsupported('ceil')

# ------------------------------------------------------------------ sequences
@model(ord)
def m_ord(it, a, kw):
    x = a[0]
    if isinstance(x, Rope) and x.kind in 'bs':
        if not core.CUR.decide(s_eq(rlen(x), 1)): raise terr('ord() expected a character')
        return explicit_at(x, 0)
    if it_concrete(x): return it.native(ord, a, kw)
    raise terr('ord() expected string of length 1')
def explicit_at(x, i):
    _, rest = split(segs_of(x), i); s = nonempty(rest)[0]
    return s[1][0] if s[0] == 'L' else s[1] if s[0] == 'R' else s[1].elem(s[2])
@model(chr)
def m_chr(it, a, kw):
    x = a[0]
    if isinstance(x, int): return it.native(chr, a, kw)
    if not isinstance(x, SInt): raise terr()
    if not core.CUR.decide(s_and(s_le(0, x), s_lt(x, 0x110000))): raise ProgExc(ValueError('chr() arg not in range'))
    return mk_seq('s', [x])
def to_bytes_items(it, xs):
    for x in xs:
        if not is_int(x): raise terr('an integer is required')
        if not core.CUR.decide(s_and(s_le(0, x), s_lt(x, 256))): raise ProgExc(ValueError('bytes must be in range(0, 256)'))
    return mk_seq('b', xs)
@model(bytearray)
def m_bytearray(it, a, kw): return it.note_alloc(BA(segs_of(m_bytes(it, a, kw))))
@model(memoryview)
def m_memoryview(it, a, kw):
    if kind_of(a[0]) != 'b': raise terr('a bytes-like object is required')
    if isinstance(a[0], BA): raise Unsupported('view of a bytearray')
    return a[0]
@model(bytes)
def m_bytes(it, a, kw):
    if not a: return b''
    x = a[0]
    if isinstance(x, (str,)) or (isinstance(x, Rope) and x.kind == 's'):
        if len(a) < 2: raise terr('string argument without an encoding')
        return it.call(it.getattr(x, 'encode'), a[1:], kw)
    if isinstance(x, Rope):
        if x.kind == 'b': return still(x)
        return norm('b', [chk_bytes(it, s) for s in x.segs])
    if is_int(x): return rrep(b'\0', x)
    if hasattr(x, 's_bytes'): return x.s_bytes(it)
    if isinstance(x, (bytes, bytearray)): return bytes(x)
    if isinstance(x, I().SIter) and x.key[0] == 'rope': return m_bytes(it, [x.key[1]], {})
    return to_bytes_items(it, it.to_list(x))
def chk_bytes(it, s):
    c = core.CUR
    if s[0] == 'L':
        to_bytes_items(it, s[1]); return s
    if s[0] == 'R':
        to_bytes_items(it, [s[1]]); return s
    if s[1].elem_lo is not None and s[1].elem_hi is not None and s[1].elem_lo >= 0 and s[1].elem_hi <= 255: return s
    raise Unsupported('bytes() of arbitrary elements')
@model(str)
def m_str(it, a, kw):
    if not a: return ''
    x = a[0]
    if isinstance(x, Rope) and x.kind == 's': return x
    if isinstance(x, SInt): return fmt(it, '%d', (x,))
    if isinstance(x, I().SObj) and hasattr(x, 's_str'): return x.s_str(it)
    if isinstance(x, Rope):
        if len(a) > 1: return it.call(it.getattr(x, 'decode'), a[1:], kw)
        return m_repr(it, a, kw)
    if it_concrete(a): return it.native(str, a, kw)
    for k in type(x).__mro__:
        m = k.__dict__.get('__str__')
        if isinstance(m, types.FunctionType): return it.call(m, [x])
    return m_repr(it, a, kw)
@model(list)
def m_list(it, a, kw):
    if not a: return it.note_alloc([])
    x = a[0]
    if isinstance(x, Rope) and not is_explicit(x): return Rope('l', list(x.segs))
    if isinstance(x, I().SIter) and core.CUR.concrete(x.n) is None:
        if x.key[0] == 'map' and it.unit.comp_rule:
            r = it.unit.comp_rule(it, it.under(x, None), x, x.elem)
            if r is not None: return Rope(r.kind, list(r.segs)) if isinstance(r, Rope) else r
        return x
    return it.note_alloc(it.to_list(x))
@model(tuple)
def m_tuple(it, a, kw):
    if not a: return ()
    x = a[0]
    if isinstance(x, Rope) and not is_explicit(x): return Rope('t', list(x.segs))
    if isinstance(x, I().SObj) and hasattr(x, 's_tuple'): return x.s_tuple(it)
    return tuple(it.to_list(x))
@model(set, frozenset)
def m_set(it, a, kw):
    if not a: return set()
    if hasattr(a[0], 's_set'): return a[0].s_set(it)
    if isinstance(a[0], Rope) and a[0].kind in 'bs': return charset(it, a[0])
    xs = it.to_list(a[0])
    if not it_concrete(xs): raise Unsupported('set of symbolic values')
    return set(xs)
def charset(it, rope):
    class CharSet(I().SObj):
        _cls = set
        def s_cmp(self, it, op, l, r):
            if op != 'LtE' or l is not self or not isinstance(r, (set, frozenset)): raise Unsupported('set comparison')
            al = sorted(set(ord(x) if isinstance(x, str) else x for x in r)); conj = []
            for s in rope.segs:
                if s[0] in 'LR':
                    g = s[1] if s[0] == 'L' else (s[1],)
                    x = s_and(*[s_or(*[s_eq(e, k) for k in al]) for e in g])
                    conj.append(x if s[0] == 'L' else s_or(s_eq(s[2], 0), x)); continue
                b = s[1].of if isinstance(s[1], Rev) else s[1]
                if isinstance(b, Pos) and b.alpha:
                    if all(x in al for x in ALPHA[b.alpha]): continue
                    if not any(x in al for x in ALPHA[b.alpha]): conj.append(s_eq(s[3], 0)); continue
                a_, _ = core.CUR.atom2(('charsin', tuple(al), b, s[2], s[3]), 'ci')
                conj.append(s_or(s_eq(s[3], 0), s_eq(a_, 1)))
                if isinstance(b, Sym): core.CUR.memo.setdefault('charsin', {}).setdefault(b.name, []).append((tuple(al), a_))
            return s_and(*conj)
    return CharSet()
@model(dict)
def m_dict(it, a, kw):
    d = it.note_alloc({})
    if a:
        if isinstance(a[0], dict): d.update(a[0])
        else:
            for p in it.to_list(a[0]):
                k, v = it.to_list(p)
                it.dict_put(d, k, v)
    d.update(kw)
    return d
@model(range)
def m_range(it, a, kw):
    if it_concrete(a): return it.native(range, a, kw)
    for x in a:
        if not is_int(x): raise terr()
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not isinstance(st, int) or st == 0: raise Unsupported('range step')
    c = core.CUR
    d = s_add(hi, -lo) if st > 0 else s_add(lo, -hi)
    s = abs(st)
    n = s_divmod(s_add(d, s - 1), s)[0]
    if not c.decide(s_lt(0, d)): return range(0)
    return I().SIter(n, lambda i: s_add(lo, s_mul(i, st)), ('range', lo, hi, st))
@model(reversed)
def m_reversed(it, a, kw):
    x = a[0]
    if isinstance(x, Rope): return Rope('l', rreverse(Rope('l', list(x.segs))).segs) if any(s[0] == 'A' for s in x.segs) else it.to_list(x)[::-1]
    if isinstance(x, I().SIter):
        return I().SIter(x.n, lambda i: x.elem(s_add(s_add(x.n, -1), -i)), ('rev', x))
    return list(reversed(it.to_list(x)))
@model(enumerate)
def m_enumerate(it, a, kw):
    st = a[1] if len(a) > 1 else kw.get('start', 0)
    s = it.iter_of(a[0])
    if isinstance(s, I().SIter): return I().SIter(s.n, lambda i: (s_add(i, st), s.elem(i)), ('enum', s))
    return [(s_add(i, st), x) for i, x in enumerate(s)]
@model(zip)
def m_zip(it, a, kw):
    ss = [it.iter_of(x) for x in a]
    if any(isinstance(s, I().SIter) for s in ss):
        SI = I().SIter; c = core.CUR
        ss = [s if isinstance(s, SI) else SI(len(s), lambda i, s=s: it.getitem(s, i), ('explicit', id(s))) for s in ss]
        it.keep.append(ss)
        n = ss[0].n
        for s in ss[1:]:
            if c.decide(s_lt(s.n, n)): n = s.n
        return SI(n, lambda i: tuple(s.elem(i) for s in ss), ('zip',) + tuple(ss))
    return [tuple(t) for t in zip(*ss)]
@model(map)
def m_map(it, a, kw):
    if len(a) == 2:
        s = it.iter_of(a[1])
        if isinstance(s, I().SIter): return I().SIter(s.n, lambda i: it.call(a[0], [s.elem(i)]), ('map', s, a[0]))
        return [it.call(a[0], [x]) for x in s]
    return [it.call(a[0], list(t)) for t in zip(*[it.to_list(x) for x in a[1:]])]
@model(filter)
def m_filter(it, a, kw): return [x for x in it.to_list(a[1]) if it.truth(it.call(a[0], [x]) if a[0] is not None else x)]
@model(functools.reduce)
def m_reduce(it, a, kw):
    s = it.iter_of(a[1])
    if isinstance(s, I().SIter):
        if it.unit.reduce_rule: return it.unit.reduce_rule(it, a[0], s, a[2:])
        if len(a) < 3: raise Unsupported('reduce over a symbolic sequence')
        return it.fold(lambda acc, x: it.call(a[0], [acc, x]), a[1], a[2], a[0])
    s = list(s)
    acc = a[2] if len(a) > 2 else s.pop(0) if s else None
    if acc is None: raise terr('reduce() of empty sequence')
    for x in s: acc = it.call(a[0], [acc, x])
    return acc
@model(sorted)
def m_sorted(it, a, kw):
    if hasattr(a[0], 's_sorted'): return a[0].s_sorted(it, kw)
    xs = it.to_list(a[0])
    if it_concrete(xs) and not kw.get('key'): return it.native(sorted, [xs], kw)
    return insertion_sort(it, xs, kw.get('key'), kw.get('reverse', False))
def insertion_sort(it, xs, key, rev):
    out = []
    for x in xs:
        k = it.call(key, [x]) if key else x
        j = len(out)
        # stable: move left while strictly smaller (or strictly greater when reversed)
        while j > 0 and it.truth(it.compare('Lt', k, out[j-1][0]) if not rev else it.compare('Lt', out[j-1][0], k)): j -= 1
        out.insert(j, (k, x))
    return it.note_alloc([x for _, x in out])
@model(iter)
def m_iter(it, a, kw): return a[0]
@model(super)
def m_super(it, a, kw): return super(*a)

# ------------------------------------------------------------------ struct, hex
RANGES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
          'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}
def parse_fmt(f):
    if isinstance(f, bytes): f = f.decode()
    if not isinstance(f, str): raise Unsupported('symbolic struct format')
    if not f or f[0] not in '<>!=@': order, body = '@', f
    else: order, body = f[0], f[1:]
    if order not in '<>!': raise Unsupported('native struct format %r' % f)
    out = []; n = ''
    for ch in body:
        if ch.isdigit(): n += ch; continue
        if ch == 's': out.append((ch, int(n or 1))); n = ''; continue
        if ch not in RANGES: raise Unsupported('struct format %r' % f)
        out += [(ch, 1)] * int(n or 1); n = ''
    return order == '<', out
@model(struct.pack)
def m_pack(it, a, kw):
    if it_concrete(a): return it.native(struct.pack, a, kw)
    le, items = parse_fmt(a[0])
    vals = a[1:]
    if len(vals) != len(items): raise ProgExc(struct.error('pack expected %d items' % len(items)))
    parts = [b'']
    c = core.CUR
    for (ch, n), v in zip(items, vals):
        if ch == 's':
            if kind_of(v) != 'b': raise ProgExc(struct.error("argument for 's' must be a bytes object"))
            if c.decide(s_lt(rlen(v), n)): v = rcat(v, rrep(b'\0', s_add(n, -rlen(v))))
            parts.append(rslice(v, 0, n)); continue
        w, signed = RANGES[ch]
        if isinstance(v, (bool,)): v = int(v)
        if isinstance(v, SBool): v = 1 if it.truth(v) else 0
        if not is_int(v): raise ProgExc(struct.error('required argument is not an integer'))
        lo, hi = (-(1 << (8*w-1)), 1 << (8*w-1)) if signed else (0, 1 << (8*w))
        if not c.decide(s_and(s_le(lo, v), s_lt(v, hi)), 'struct range'): raise ProgExc(struct.error('argument out of range'))
        if signed: v = s_divmod(v, 1 << (8*w))[1]
        parts.append(mk_pos(256, None, v, w, le))
    return rcat(*parts)
@model(struct.unpack)
def m_unpack(it, a, kw):
    if it_concrete(a): return it.native(struct.unpack, a, kw)
    le, items = parse_fmt(a[0])
    total = sum(n if ch == 's' else RANGES[ch][0] for ch, n in items)
    x = a[1]
    if kind_of(x) != 'b': raise terr('a bytes-like object is required')
    if not core.CUR.decide(s_eq(rlen(x), total), 'unpack length'): raise ProgExc(struct.error('unpack requires a buffer of %d bytes' % total))
    out = []; off = 0
    for ch, n in items:
        if ch == 's':
            out.append(rslice(x, off, off + n)); off += n; continue
        w, signed = RANGES[ch]
        u = val(rslice(x, off, off + w), 256, None, le); off += w
        if signed:
            h = 1 << (8*w-1)
            u = s_add(s_divmod(s_add(u, h), 2*h)[1], -h)
        out.append(u)
    return tuple(out)
@model(struct.unpack_from)
def m_unpack_from(it, a, kw):
    if it_concrete(a) and it_concrete(kw): return it.native(struct.unpack_from, a, kw)
    f, x, off = a[0], a[1] if len(a) > 1 else kw['buffer'], a[2] if len(a) > 2 else kw.get('offset', 0)
    if kind_of(x) != 'b': raise terr('a bytes-like object is required')
    n = struct.calcsize(f)
    if not core.CUR.decide(s_le(0, off)): raise Unsupported('negative offset')
    if not core.CUR.decide(s_le(s_add(off, n), rlen(x))): raise ProgExc(struct.error('unpack_from requires a buffer of at least %d bytes' % n))
    return m_unpack(it, [f, rslice(x, off, s_add(off, n))], {})
@model(struct.calcsize)
def m_calcsize(it, a, kw): return struct.calcsize(*a)
@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(it, a, kw):
    x = a[0]
    if kind_of(x) != 'b': raise terr('a bytes-like object is required')
    if not isinstance(x, Rope): return it.native(binascii.hexlify, a, kw)
    segs = []
    for s in x.segs:
        if s[0] == 'L':
            out = []
            for e in s[1]:
                hi, lo = s_divmod(e, 16)
                out += [chr_of('hex', hi), chr_of('hex', lo)]
            segs.append(('L', tuple(out)))
        elif s[0] == 'R' and isinstance(s[1], int) and s[1] in (0, 255):
            segs.append(('R', chr_of('hex', s[1] & 15), s_mul(s[2], 2)))
        else:
            v = val(Rope('b', [s]))
            segs += segs_of(mk_pos(16, 'hex', v, s_mul(seglen(s), 2)))
    return norm('b', segs)
@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(it, a, kw):
    x = a[0]; c = core.CUR
    if kind_of(x) not in ('b', 's'): raise terr('argument should be bytes or ASCII string')
    if not isinstance(x, Rope): return it.native(binascii.unhexlify, a, kw)
    n = rlen(x)
    half, odd = s_divmod(n, 2)
    if not c.decide(s_eq(odd, 0), 'unhexlify'): raise ProgExc(binascii.Error('Odd-length string'))
    for s in x.segs:
        if s[0] == 'L' and any(isinstance(e, int) and digit_of('hex', e) is None for e in s[1]): raise ProgExc(binascii.Error('Non-hexadecimal digit found'))
    # segment by segment when every segment has even length, otherwise through the value
    segs = []; ok = True
    for s in x.segs:
        k = seglen(s); h, o = s_divmod(k, 2)
        if not (isinstance(o, int) and o == 0): ok = False; break
        if s[0] == 'L':
            for p in range(0, len(s[1]), 2):
                d1, d2 = digit_of('hex', s[1][p]), digit_of('hex', s[1][p+1])
                if d1 is None or d2 is None: ok = None; break
                segs.append(('L', (s_add(s_mul(d1, 16), d2),)))
            if ok is None: break
        elif s[0] == 'R':
            d = digit_of('hex', s[1])
            if d is None: ok = None; break
            segs.append(('R', s_mul(d, 17), h))
        else:
            v = segval(s, 16, 'hex')
            if v is None: ok = None; break
            segs += segs_of(mk_pos(256, None, v, h))
    if ok: return norm('b', segs)
    if ok is False:
        v = val(x, 16, 'hex')
        if v is not None: return mk_pos(256, None, v, half)
    ok, _ = c.atom2(('hexok', x), 'hexok')
    if not c.decide(s_eq(ok, 1)): raise ProgExc(binascii.Error('Non-hexadecimal digit found'))
    return whole(App('unhexlify', (x,), half))

# ------------------------------------------------------------------ hashes
HLEN = {'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'ripemd160': 20, 'md5': 16}
def app(fn, args, n):
    """value of an uninterpreted function; provably equal arguments give the same value"""
    c = core.CUR
    args = tuple(canon(a) for a in args)
    lst = c.memo.setdefault(('apps', fn), [])
    for a2, b in lst:
        if all(seqkey(x) == seqkey(y) for x, y in zip(args, a2)): return whole(b)
    for a2, b in lst:
        if all(eq_proved(x, y) for x, y in zip(args, a2)): return whole(b)
    b = App(fn, args, n)
    lst.append((args, b))
    return whole(b)
def canon(x):
    return x
def eq_proved(x, y):
    c = core.CUR
    if seqkey(x) == seqkey(y): return True
    if kind_of(x) and kind_of(y):
        try: e = req(x, y, lambda p, q: s_eq(p, q) if is_int(p) and is_int(q) else seqkey(p) == seqkey(q))
        except Unsupported: return False
        return c.quick(e)
    if is_int(x) and is_int(y): return c.quick(s_eq(x, y))
    return False
def hashval(name, data):
    if name not in HLEN: raise Unsupported('hash %s' % name)
    if kind_of(data) != 'b': raise terr('Unicode-objects must be encoded before hashing')
    if isinstance(data, bytes): return hashlib.new(name, data).digest()
    return app(name, (data,), HLEN[name])
def hmacval(name, key, data):
    if isinstance(key, bytes) and isinstance(data, bytes): return hmac.new(key, data, name).digest()
    return app('hmac-' + name, (key, data), HLEN[name])
class HashObj(object):
    pass
def hash_class():
    SObj = I().SObj
    class Hash(SObj):
        def __init__(self, name, data): self.name_, self.data = name, data
        def s_getattr(self, it, a):
            if a in ('digest', 'update', 'hexdigest', 'copy'): return I().BMethod(self, a)
            if a == 'digest_size': return HLEN[self.name_]
            if a == 'block_size': return {'sha384': 128, 'sha512': 128}.get(self.name_, 64)
            if a == 'name': return self.name_
            raise ProgExc(AttributeError(a))
        def method(self, it, name, args):
            if name == 'digest': return self.value()
            if name == 'hexdigest': return it.call(it.getattr(m_hexlify(it, [self.value()], {}), 'decode'), [])
            if name == 'update':
                if kind_of(args[0]) != 'b': raise terr('bytes required')
                self.data = rcat(self.data, args[0]); return None
            if name == 'copy': return type(self)(*([self.name_, self.data] if not hasattr(self, 'key_') else [self.name_, self.key_, self.data]))
        def value(self): return hashval(self.name_, self.data)
    class Hmac(Hash):
        def __init__(self, name, key, data): self.name_, self.key_, self.data = name, key, data
        def value(self): return hmacval(self.name_, self.key_, self.data)
    return Hash, Hmac
_HC = []
def HC():
    if not _HC: _HC.extend(hash_class())
    return _HC
for _n in HLEN:
    _f = getattr(hashlib, _n, None)
    if _f is not None:
        def _mk(n):
            def h(it, a, kw):
                x = a[0] if a else kw.get('string', b'')
                if kind_of(x) != 'b': raise terr('bytes required')
                return HC()[0](n, x)
            return h
        MODELS[_f] = _mk(_n)
@model(hashlib.new)
def m_hnew(it, a, kw):
    if not isinstance(a[0], str): raise Unsupported('symbolic hash name')
    return HC()[0](a[0].lower(), a[1] if len(a) > 1 else b'')
def hashname(d):
    if isinstance(d, str): return d
    for n in HLEN:
        if getattr(hashlib, n, None) is d: return n
    from . import interp
    raise Unsupported('hash constructor %r' % (d,))
@model(hmac.new)
def m_hmac(it, a, kw):
    key = a[0] if a else kw['key']; msg = a[1] if len(a) > 1 else kw.get('msg')
    dm = a[2] if len(a) > 2 else kw.get('digestmod')
    if msg is None: msg = b''
    if hasattr(dm, 's_hashname'): return dm.s_hmac(it, key, msg)
    return HC()[1](hashname(dm), key, msg)
@model(os.urandom)
def m_urandom(it, a, kw):
    n = a[0]
    k = core.CUR.extra['ur'] = core.CUR.extra.get('ur', 0) + 1
    r = whole(Sym('urandom%d' % k, n))
    core.CUR.inputs['urandom%d' % k] = r
    return r
import time as _time, random as _random
@model(_time.time)
def m_time(it, a, kw):
    c = core.CUR
    t = c.fresh('now', 0)
    last = c.extra.get('now')
    c.extra['now'] = t
    return t
@model(_random.randint)
def m_randint(it, a, kw):
    lo, hi = a
    if not core.CUR.decide(s_le(lo, hi)): raise ProgExc(ValueError('empty range'))
    v = core.CUR.fresh('randint')
    core.CUR.fact(s_and(s_le(lo, v), s_le(v, hi)))
    return v
class B64(App):
    elem = lambda self, i: b64elem(self, i)
def b64elem(b, i):
    a = Sym.elem(b, i); c = core.CUR; k = ('b64', b._key, a.key() if isinstance(a, SInt) else a)
    if k not in c.memo: c.memo[k] = True; c.fact(s_or(s_eq(a, 43), s_eq(a, 61), s_and(s_le(47, a), s_le(a, 57)), s_and(s_le(65, a), s_le(a, 90)), s_and(s_le(97, a), s_le(a, 122))))
    return a
@model(base64.b64encode)
def m_b64e(it, a, kw):
    x = a[0]
    if it_concrete(a): return it.native(base64.b64encode, a, kw)
    n = rlen(x)
    q = s_mul(4, s_divmod(s_add(n, 2), 3)[0])
    return whole(B64('b64encode', (x,), q, 43, 122))
@model(base64.b64decode)
def m_b64d(it, a, kw):
    x = a[0]
    if it_concrete(a): return it.native(base64.b64decode, a, kw)
    s = segs_of(x)
    if len(s) == 1 and s[0][0] == 'A' and isinstance(s[0][1], App) and s[0][1].fn == 'b64encode' and \
       same(s[0][2], 0) and same(s[0][3], s[0][1].n): return s[0][1].args[0]
    raise Unsupported('b64decode')

# ------------------------------------------------------------------ formatting
def fmt(it, f, args):
    if not isinstance(args, tuple): args = (args,)
    if isinstance(f, Rope):
        # '%0' + decimal width + 'x': the width is the value of the digits
        out = ''; widths = []
        for g in f.segs:
            if g[0] == 'L' and all(isinstance(e, int) for e in g[1]): out += ''.join(map(chr, g[1]))
            else:
                w = segval(g, 10, 'dec')
                if w is None or not out.endswith('%0'): raise Unsupported('symbolic format')
                out += '*'; widths.append(w)
        f = out if f.kind == 's' else out.encode('latin-1')
        if len(widths) != 1 or out.count('%') != 1 or out.index('*') != out.index('%') + 2: raise Unsupported('symbolic format')
        args = (widths[0],) + args
    if kind_of(f) is None: raise Unsupported('symbolic format')
    if it_concrete(args): return it.native(lambda: f % args, [], {})
    k = kind_of(f); s = f if k == 's' else f.decode('latin-1')
    out = [NAT[k]()]; i = 0; ai = 0; c = core.CUR
    L = lambda t: t if k == 's' else t.encode('latin-1')
    while i < len(s):
        j = s.find('%', i)
        if j < 0: out.append(L(s[i:])); break
        out.append(L(s[i:j])); i = j + 1
        if s[i] == '%': out.append(L('%')); i += 1; continue
        zero = False; width = ''; symw = None
        while s[i] == '0' and not width: zero = True; i += 1
        if s[i] == '*':
            w = args[ai]; ai += 1; i += 1
            if not isinstance(w, int):
                if not zero: raise Unsupported('symbolic format width')
                symw = w
            else: width = str(w)
        while s[i].isdigit(): width += s[i]; i += 1
        conv = s[i]; i += 1
        if conv == 'u': conv = 'd'
        if ai >= len(args): raise terr('not enough arguments for format string')
        v = args[ai]; ai += 1
        w = int(width or 0) if symw is None else symw
        if symw is not None and isinstance(v, int): v_ = v; zero = True
        if conv in 'dxXi':
            if isinstance(v, SBool): v = 1 if it.truth(v) else 0
            if not is_int(v):
                if conv in 'di' and isinstance(v, float): v = int(v)
                else: raise terr('%d format: a number is required')
            if isinstance(v, int) and symw is None:
                out.append(L(('%' + ('0' if zero else '') + (width) + conv) % v)); continue
            if it.unit.number_rule and k == 's':
                t = it.unit.number_rule(it, v, w)
                if t is not None: out.append(t); continue
            radix, al = (10, 'dec') if conv in 'di' else (16, 'hex' if conv == 'x' else 'HEX')
            if not c.decide(s_le(0, v), 'format sign'):
                out.append(L('-')); v = -v; w = max(w - 1, 0) if isinstance(w, int) else s_add(w, -1)
            if not (isinstance(w, int) and w == 0) and zero and c.decide(s_lt(v, POW(radix, w)), 'format width'):
                out.append(mk_pos(radix, al, v, w, kind=k))
            elif isinstance(w, int) and w and not zero:
                raise Unsupported('space padded number')
            else: out.append(mk_pos(radix, al, v, ndigits(radix, v), kind=k))
        elif conv in 'sr':
            if conv == 's' and kind_of(v) == k: 
                if w: raise Unsupported('padded %s')
                out.append(v)
            elif conv == 's' and k == 's' and isinstance(v, SInt): out.append(m_str(it, [v], {}))
            elif conv == 's' and k == 's' and not isinstance(v, Rope) : out.append(m_str(it, [v], {}))
            elif k == 's': out.append(m_repr(it, [v], {}))
            else: raise Unsupported('bytes %s')
        elif conv == 'c':
            out.append(mk_seq(k, [v]))
        else: raise Unsupported('format %%%s' % conv)
    if ai < len(args): raise terr('not all arguments converted')
    return rcat(*out)

# ------------------------------------------------------------------ methods of builtin values
def model_method(it, o, name, args, kw):
    c = core.CUR
    if hasattr(o, 'method') and not isinstance(o, (Rope,)) and isinstance(o, I().SObj): return o.method(it, name, args)
    if isinstance(o, SInt): return int_method(it, o, name, args, kw)
    if isinstance(o, BA):
        if name in BA_METHODS: return ba_method(it, o, name, args, kw)
        o = still(o)
    k = kind_of(o)
    if isinstance(o, list) or (isinstance(o, Rope) and o.kind == 'l'): return list_method(it, o, name, args, kw)
    if isinstance(o, dict): return dict_method(it, o, name, args, kw)
    if k == 't': 
        if name == 'index' and not isinstance(o, Rope): return list_method(it, list(o), name, args, kw)
        if name == 'count': return list_method(it, list(o), name, args, kw)
    if k in ('b', 's'):
        if name == 'join': return m_join(it, o, args[0])
        if not isinstance(o, Rope) and it_concrete(args) and it_concrete(kw):
            return it.native(getattr(o, name), args, kw)
        h = globals().get('sm_' + name)
        if h: return h(it, o, *args, **kw)
    if isinstance(o, struct.Struct) and name in ('pack', 'unpack', 'unpack_from'): return it.call(getattr(struct, name), [o.format] + list(args), kw)
    if isinstance(o, (set, frozenset)) and it_concrete(o) and it_concrete(args):
        it.log_write(o, '[]')
        return it.native(getattr(o, name), args, kw)
    if isinstance(o, (int, float)) and it_concrete(args): return it.native(getattr(o, name), args, kw)
    raise Unsupported('method %s of %s' % (name, type(o).__name__))
def int_method(it, o, name, args, kw):
    c = core.CUR
    if name == 'to_bytes':
        n = args[0] if args else kw.get('length', 1)
        order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
        if kw.get('signed'): raise Unsupported('signed to_bytes')
        if not isinstance(n, int):
            ok = s_lt(o, POW(256, n))
        else: ok = s_lt(o, 256 ** n)
        if not c.decide(s_and(s_le(0, o), ok)): raise ProgExc(OverflowError('int too big to convert'))
        return mk_pos(256, None, o, n, order == 'little')
    if name == 'bit_length':
        if not c.decide(s_le(0, o)): o = -o
        return ndigits(2, o, 0)
    if name == '__hash__': return m_hash(it, [o], {})
    raise Unsupported('int method %s' % name)
@model(bin)
def m_bin(it, a, kw):
    v = a[0]
    if not is_int(v): raise terr('bin() of a non-integer')
    neg = core.CUR.decide(s_lt(v, 0))
    if neg: v = s_mul(v, -1)
    return rcat('-0b' if neg else '0b', mk_pos(2, 'dec', v, ndigits(2, v), kind='s'))
@model(bytes.fromhex)
def m_fromhex(it, a, kw):
    if kind_of(a[0]) != 's': raise terr('fromhex() argument must be str')
    if not isinstance(a[0], Rope): return it.native(bytes.fromhex, a, kw)
    # the text has no blanks here: what unhexlify refuses is refused with the same class of error
    for g in a[0].segs:
        if g[0] == 'L' and any(not isinstance(e, int) or chr(e).isspace() for e in g[1]): raise Unsupported('blanks in fromhex')
        if g[0] == 'A' and not (isinstance(g[1], Pos) and g[1].radix <= 16): raise Unsupported('fromhex of any text')
    return m_unhexlify(it, a, kw)
@model(int.from_bytes)
def m_from_bytes(it, a, kw):
    order = a[1] if len(a) > 1 else kw.get('byteorder', 'big')
    x = a[0]
    if kind_of(x) in 'lt': x = m_bytes(it, [x], {})
    if it_concrete(x): return int.from_bytes(x, order, signed=kw.get('signed', False))
    if kw.get('signed'): raise Unsupported('signed from_bytes')
    return val(x, 256, None, order == 'little')
def m_join(it, sep, xs):
    k = kind_of(sep)
    if hasattr(xs, 's_join'): return xs.s_join(it, sep)
    if isinstance(xs, Rope) and xs.kind == 'l' and len(sep) == 0 and not is_explicit(xs):
        u = unsingle(xs, k)
        if u is not None: return u
    if isinstance(xs, Rope) and xs.kind == 'l' and it.unit.join_rule and len(xs.segs) == 1 and xs.segs[0][0] == 'A': xs = it.iter_of(xs)
    if isinstance(xs, I().SIter):
        if it.unit.join_rule:
            r = it.unit.join_rule(it, sep, xs)
            if r is not None: return r
    if isinstance(xs, Rope) and xs.kind in 'lt' and it.unit.join_rule and len(sep) == 0 and not is_explicit(xs):
        ys = []
        for g in xs.segs:
            r = None
            if g[0] == 'A':
                v = it.iter_of(norm('l', [g]))
                r = it.unit.join_rule(it, sep, v) if isinstance(v, I().SIter) else None
            ys += [r] if r is not None else it.to_list(norm('l', [g]))
        xs = ys
    xs = it.to_list(xs)
    out = [NAT[k]()]
    for i, x in enumerate(xs):
        if kind_of(x) != k: raise terr('sequence item %d: wrong type' % i)
        if i and len(sep): out.append(sep)
        out.append(x)
    return rcat(*out)
BA_METHODS = ('append', 'extend', 'insert', 'pop', 'reverse', 'clear', 'copy', 'remove')
def ba_method(it, o, name, args, kw):
    if name == 'copy': return it.note_alloc(BA(o.segs))
    if name == 'clear': it.log_write(o, '[]'); o.segs = []; o._key = None; return None
    if name == 'remove': raise Unsupported('bytearray.remove')
    if name == 'append': to_bytes_items(it, args[:1])
    if name == 'insert': to_bytes_items(it, args[1:2])
    if name == 'extend':
        args = [still(args[0])]
        if kind_of(args[0]) == 's': raise terr('expected iterable of integers')
        if kind_of(args[0]) != 'b': args = [m_bytes(it, args, {})]
        args = [Rope('l', segs_of(args[0]))]
    if name == 'pop' and not o.segs: raise ProgExc(IndexError('pop from empty bytearray'))
    r = it.note_alloc(Rope('l', list(o.segs))); it.log_write(o, '[]')
    v = list_method(it, r, name, args, kw)
    o.segs = list(segs_of(norm('b', r.segs))); o._key = None
    return v
def list_method(it, o, name, args, kw):
    it.log_write(o, '[]') if name not in ('index', 'count', 'copy') else None
    if isinstance(o, Rope):
        if name == 'append': r = Rope('l', o.segs + [('L', (args[0],))])
        elif name == 'insert' and is_int(args[0]) and same(args[0], 0): r = Rope('l', [('L', (args[1],))] + o.segs)
        elif name == 'insert' and is_int(args[0]) and it.c.decide(s_and(s_le(0, args[0]), s_le(args[0], rlen(o)))):
            r = rcat(Rope('l', segs_of(rslice(o, 0, args[0]))), Rope('l', [('L', (args[1],))]), Rope('l', segs_of(rslice(o, args[0], None))))
        elif name == 'reverse': r = rreverse(o)
        elif name == 'extend': r = rcat(Rope('l', o.segs), norm('l', segs_of(args[0])) if isinstance(args[0], Rope) else it.to_list(args[0]))
        elif name == 'pop':
            i = args[0] if args else -1
            v = rindex(o, i)
            if same(i, 0): r = rslice(o, 1, None)
            elif same(i, -1): r = rslice(o, None, -1)
            else: raise Unsupported('pop at %r' % i)
            o.segs = list(segs_of(r)); o._key = None
            return v
        elif name == 'copy': return Rope('l', list(o.segs))
        else: raise Unsupported('list.%s on a symbolic list' % name)
        o.segs = list(segs_of(r)); o._key = None
        return None
    if name in ('append', 'reverse', 'copy', 'clear'): return it.native(getattr(o, name), args, kw)
    if name == 'extend':
        o.extend(it.to_list(args[0])); return None
    if name in ('insert', 'pop'):
        if args and isinstance(args[0], SInt):
            v = c_conc(args[0]); args = [v] + list(args[1:])
        return it.native(getattr(o, name), args, kw)
    if name in ('index', 'remove'):
        for i, x in enumerate(o):
            if it.truth(it.eq(x, args[0])):
                if name == 'index': return i
                del o[i]; return None
        raise ProgExc(ValueError('not in list'))
    if name == 'count':
        n = 0
        for x in o:
            if it.truth(it.eq(x, args[0])): n += 1
        return n
    if name == 'sort':
        o[:] = insertion_sort(it, list(o), kw.get('key'), kw.get('reverse', False)); return None
    raise Unsupported('list.%s' % name)
def c_conc(x):
    v = core.CUR.concrete(x)
    if v is None: raise Unsupported('symbolic list position')
    return v
def dict_method(it, o, name, args, kw):
    if name in ('get', 'pop', 'setdefault'):
        f, v = it.dict_find(o, args[0])
        if name == 'get': return v if f else (args[1] if len(args) > 1 else None)
        it.log_write(o, '[]')
        if name == 'setdefault':
            if f: return v
            v = args[1] if len(args) > 1 else None; it.dict_put(o, args[0], v); return v
        if not f:
            if len(args) > 1: return args[1]
            raise ProgExc(KeyError(args[0]))
        del o[it.dict_key(o, args[0])[1]]; return v
    if name in ('keys', 'values', 'items'):
        u = lambda k: k.k if type(k) is I().SKey else k
        return list(o.values()) if name == 'values' else [u(k) for k in o] if name == 'keys' else [(u(k), v) for k, v in o.items()]
    if name == 'copy': return it.note_alloc(dict(o))
    it.log_write(o, '[]')
    if name == 'update':
        for a in args: o.update(m_dict(it, [a], {}))
        o.update(kw); return None
    if name == 'clear': o.clear(); return None
    raise Unsupported('dict.%s' % name)
# -- bytes / str
def sm_encode(it, o, enc='utf-8', errors='strict'):
    if kind_of(o) != 's': raise ProgExc(AttributeError('encode'))
    lim = 128 if enc.lower() in ('ascii', 'utf-8', 'utf8') else 256
    segs = []
    for s in segs_of(o):
        if s[0] in 'LR':
            es = s[1] if s[0] == 'L' else (s[1],)
            for e in es:
                if not core.CUR.decide(s_lt(e, lim), 'encode'):
                    if enc.lower() in ('utf-8', 'utf8'): raise Unsupported('utf-8 encoding of non-ascii')
                    raise ProgExc(UnicodeEncodeError(enc, 'x', 0, 1, 'ordinal not in range'))
        elif s[1].elem_hi >= lim:
            ok, _ = core.CUR.atom2(('encok', lim, s[1], s[2], s[3]), 'encok')
            if not core.CUR.decide(s_eq(ok, 1), 'encode'):
                if enc.lower() in ('utf-8', 'utf8'): raise Unsupported('utf-8 encoding of non-ascii')
                raise ProgExc(UnicodeEncodeError(enc, 'x', 0, 1, 'ordinal not in range'))
            b = App('enc%d' % lim, (s[1],), s[1].n, 0, lim - 1)
            segs.append(('A', b, s[2], s[3])); continue
        segs.append(s)
    return norm('b', segs)
def sm_decode(it, o, enc='utf-8', errors='strict'):
    if kind_of(o) != 'b': raise ProgExc(AttributeError('decode'))
    lim = 128 if enc.lower() in ('ascii', 'utf-8', 'utf8') else 256
    for s in segs_of(o):
        if lim == 128:
            if s[0] in 'LR':
                for e in (s[1] if s[0] == 'L' else (s[1],)):
                    if not core.CUR.decide(s_lt(e, 128), 'decode'):
                        if enc != 'ascii': raise Unsupported('utf-8 decoding of non-ascii')
                        raise ProgExc(UnicodeDecodeError(enc, b'x', 0, 1, 'ordinal not in range'))
            elif s[1].elem_hi >= 128: raise Unsupported('decoding arbitrary bytes')
    return norm('s', list(segs_of(o)))
def sm_startswith(it, o, pre, *a):
    if isinstance(pre, tuple): 
        for p in pre:
            if it.truth(sm_startswith(it, o, p)): return True
        return False
    if kind_of(pre) != kind_of(o): raise terr('startswith first arg')
    n = rlen(pre)
    if not core.CUR.decide(s_le(n, rlen(o)), 'startswith'): return False
    return req(rslice(o, 0, n), pre, it.eq)
def sm_endswith(it, o, suf):
    n = rlen(suf)
    if not core.CUR.decide(s_le(n, rlen(o))): return False
    return req(rslice(o, s_add(rlen(o), -n), None), suf, it.eq)
def stripset(o, chars):
    if chars is None: return [9, 10, 11, 12, 13, 32]
    if isinstance(chars, Rope): raise Unsupported('symbolic strip set')
    return sorted(set(lit(chars)))
def sm_lstrip(it, o, chars=None, left=True, right=False):
    c = core.CUR; st = stripset(o, chars)
    k = kind_of(o); segs = list(segs_of(o))
    inset = lambda e: s_or(*[s_eq(e, x) for x in st])
    def strip(segs, fromleft):
        while segs:
            s = segs[0] if fromleft else segs[-1]
            n = seglen(s)
            if s[0] == 'L':
                es = list(s[1])
                while es and c.decide(inset(es[0] if fromleft else es[-1]), 'strip'): es.pop(0 if fromleft else -1)
                if es:
                    if fromleft: segs[0] = ('L', tuple(es))
                    else: segs[-1] = ('L', tuple(es))
                    return segs
            elif c.decide(s_eq(n, 0)): pass
            elif s[0] == 'R':
                if not c.decide(inset(s[1]), 'strip'): return segs
            else:
                e = s[1].elem(s[2] if fromleft else s_add(s_add(s[2], n), -1))
                if not any((s[1].elem_lo <= x <= s[1].elem_hi) for x in st): return segs
                if isinstance(s[1], Pos) and s[1].alpha and not any(x in ALPHA[s[1].alpha] for x in st): return segs
                if not c.decide(inset(e), 'strip'): return segs
                if isinstance(n, int) and n <= 64:
                    r = ('L', tuple(s[1].elem(s_add(s[2], i)) for i in range(n)))
                    if fromleft: segs[0] = r
                    else: segs[-1] = r
                    continue
                raise Unsupported('strip of a symbolic sequence')
            if fromleft: segs.pop(0)
            else: segs.pop()
        return segs
    if left: segs = strip(segs, True)
    if right: segs = strip(segs, False)
    return norm(k, segs)
def sm_rstrip(it, o, chars=None): return sm_lstrip(it, o, chars, False, True)
def sm_strip(it, o, chars=None): return sm_lstrip(it, o, chars, True, True)
def sm_ljust(it, o, n, fill=None):
    k = kind_of(o); fill = fill if fill is not None else (b' ' if k == 'b' else ' ')
    d = s_add(n, -rlen(o))
    if core.CUR.decide(s_le(d, 0)): return o
    return rcat(o, rrep(fill, d))
def sm_rjust(it, o, n, fill=None):
    k = kind_of(o); fill = fill if fill is not None else (b' ' if k == 'b' else ' ')
    d = s_add(n, -rlen(o)); s = segs_of(o)
    if len(s) == 1 and s[0][0] == 'A' and isinstance(s[0][1], Pos) and not s[0][1].le and s[0][1].alpha and same(s[0][2], 0) and same(s[0][3], s[0][1].n) \
       and lit(fill) == (ALPHA[s[0][1].alpha][0],) and isinstance(n, int) and n > 0 and same(s[0][1].n, ndigits(s[0][1].radix, s[0][1].value)):
        b = s[0][1]         # a number written without leading zeroes
        return mk_pos(b.radix, b.alpha, b.value, n, kind=k) if core.CUR.decide(s_lt(b.value, b.radix ** n), 'format width') else o
    if core.CUR.decide(s_le(d, 0)): return o
    if len(s) == 1 and s[0][0] == 'A' and isinstance(s[0][1], Pos) and not s[0][1].le and same(s[0][2], 0) and same(s[0][3], s[0][1].n):
        b = s[0][1]         # digits with zeroes in front
        if lit(fill) == ((0,) if b.alpha is None else (ALPHA[b.alpha][0],)): return mk_pos(b.radix, b.alpha, b.value, n, kind=k)
    return rcat(rrep(fill, d), o)
def sm_format(it, o, *args, **kw):
    if isinstance(o, Rope) or kind_of(o) != 's': raise Unsupported('symbolic format')
    auto = [0]
    def go(text, depth):
        out = ''
        try: parts = list(string.Formatter().parse(text))
        except ValueError as e: raise ProgExc(e)
        for before, field, spec, conv in parts:
            out = rcat(out, before)
            if field is None: continue
            m = re.match(r'(\w*)(.*)$', field, re.S); key, rest = m.groups()
            if key == '': key = str(auto[0]); auto[0] += 1
            if key.isdigit():
                if int(key) >= len(args): raise ProgExc(IndexError('Replacement index %s out of range for positional args tuple' % key))
                v = args[int(key)]
            elif key in kw: v = kw[key]
            else: raise ProgExc(KeyError(key))
            while rest:
                m = re.match(r'\.(\w+)', rest); n = re.match(r'\[([^]]+)\]', rest)
                if m: v = it.getattr(v, m.group(1)); rest = rest[m.end():]
                elif n: v = it.getitem(v, int(n.group(1)) if n.group(1).isdigit() else n.group(1)); rest = rest[n.end():]
                else: raise Unsupported('replacement field %r' % field)
            if conv: v = it.call({'s': str, 'r': repr}.get(conv, ascii), [v])
            out = rcat(out, it.format(v, go(spec, depth + 1) if spec else ''))
        return out
    return go(o, 0)
def sm_zfill(it, o, n):
    s = segs_of(o)
    if s and s[0][0] != 'A' or s and not (isinstance(s[0][1], Pos) and s[0][1].alpha): raise Unsupported('zfill of text that may begin with a sign')
    return sm_rjust(it, o, n, b'0' if kind_of(o) == 'b' else '0')
def sm_index(it, o, x, *a):
    c = core.CUR
    if not isinstance(o, Rope) and isinstance(x, (SInt, Rope)):
        # position of a character in a constant alphabet
        e = x
        if isinstance(x, Rope):
            if not c.decide(s_eq(rlen(x), 1)): raise Unsupported('index of a symbolic substring')
            e = explicit_at(x, 0)
        tab = lit(o)
        for nm, al in ALPHA.items():
            if bytes(al) == (o if isinstance(o, bytes) else o.encode('latin-1')):
                d = digit_of(nm, e)
                if d is not None: return d
        if not c.decide(s_or(*[s_eq(e, t) for t in sorted(set(tab))]), 'index'): raise ProgExc(ValueError('subsection not found'))
        a_, new = c.atom2(('indexof', tab, e), 'ix')
        if new:
            for k, t in enumerate(tab):
                if tab.index(t) == k: c.fact(s_implies(s_eq(e, t), s_eq(a_, k)))
            c.fact(s_and(s_le(0, a_), s_lt(a_, len(tab))))
        return a_
    if isinstance(o, Rope) and not isinstance(x, Rope):
        # constant needle found at a segment of explicit text
        pos = 0
        for s in o.segs:
            if s[0] == 'L' and all(isinstance(e, int) for e in s[1]):
                t = bytes(s[1]) if o.kind == 'b' else ''.join(map(chr, s[1]))
                i = t.find(x)
                if i >= 0: return s_add(pos, i)
            raise Unsupported('index in symbolic text')
    raise Unsupported('index')
def sm_find(it, o, x, *a):
    try: return sm_index(it, o, x)
    except ProgExc as e:
        if isinstance(e.exc, ValueError): return -1
        raise
def sm_split(it, o, sep=None, maxsplit=-1):
    """split of text whose symbolic parts cannot contain the separator"""
    if sep is None or isinstance(sep, Rope) or len(sep) != 1 or maxsplit != -1:
        raise Unsupported('split')
    if it.unit.split_rule:
        r = it.unit.split_rule(it, o, sep)
        if r is not None: return r
    ch = lit(sep)[0]; k = kind_of(o)
    out = []; cur = []
    for s in segs_of(o):
        if s[0] == 'L':
            es = []
            for e in s[1]:
                if core.CUR.decide(s_eq(e, ch), 'split'):
                    out.append(norm(k, cur + [('L', tuple(es))])); cur = []; es = []
                else: es.append(e)
            cur.append(('L', tuple(es)))
        elif s[0] == 'A' and isinstance(s[1], Pos) and s[1].alpha and ch not in ALPHA[s[1].alpha]: cur.append(s)
        elif s[0] == 'A' and not (s[1].elem_lo <= ch <= s[1].elem_hi): cur.append(s)
        elif s[0] == 'R' and isinstance(s[1], int) and s[1] != ch: cur.append(s)
        elif s[0] == 'A' and getattr(s[1], 'no_chars', None) and ch in s[1].no_chars: cur.append(s)
        else: raise Unsupported('split of arbitrary text')
    out.append(norm(k, cur))
    return it.note_alloc(out)
def other_case(o, up):
    """ASCII text in the other case, character by character"""
    f = str.upper if up else str.lower; lo = 97 if up else 65; out = []
    def ch(e):
        if isinstance(e, int): return ord(f(chr(e)))
        c = core.CUR; a, new = c.atom2(('case', up, e), 'ch')
        if new:
            change = s_and(s_le(lo, e), s_le(e, lo + 25)); c.fact(s_implies(change, s_eq(a, s_add(e, -32 if up else 32)))); c.fact(s_implies(s_not(change), s_eq(a, e)))
        return a
    for s in segs_of(o):
        if s[0] == 'A' and isinstance(s[1], Pos) and (s[1].alpha == 'dec' or s[1].alpha == 'hex' and not up): out.append(s)
        elif s[0] == 'L' and all(isinstance(e, int) for e in s[1]):
            if any(len(f(chr(e))) != 1 for e in s[1]): raise Unsupported('case of a character that becomes several')
            out.append(('L', tuple(ch(e) for e in s[1])))
        elif s[0] == 'L' and all(isinstance(e, int) and e < 128 or core.CUR.entails(s_and(s_le(0, e), s_lt(e, 128))) for e in s[1]): out.append(('L', tuple(ch(e) for e in s[1])))
        elif s[0] == 'A' and isinstance(s[1], Sym) and isinstance(s[1].elem_hi, int) and s[1].elem_hi < 128 and s[1].elem_lo >= 0:
            S = s[1]; out.append((s[0], Sym(('upper ' if up else 'lower ') + S.name, S.n, 0, 127, lambda i, S=S: ch(S.elem(i)))) + tuple(s[2:]))
        else: raise Unsupported('upper' if up else 'lower')
    return norm(kind_of(o), out)
def sm_lower(it, o): return other_case(o, False)
def sm_upper(it, o): return other_case(o, True)
def sm_index_(it, o, *a): raise Unsupported('index')
def sm_count(it, o, x):
    if not isinstance(x, Rope) and len(x) == 1:
        e = explicit(o); n = 0
        for q in e:
            if it.truth(s_eq(q, lit(x)[0])): n += 1
        return n
    raise Unsupported('count')
def sm_hex(it, o): return sm_decode(it, m_hexlify(it, [o], {}), 'ascii')
def sm___len__(it, o): return rlen(o)
