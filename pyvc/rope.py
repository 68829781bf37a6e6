"""Symbolic sequences (bytes, str, list, tuple) of possibly symbolic length.

A Rope is a list of segments:
  ('L', elems)            explicit elements (ints 0..255 for bytes, code points for str, any values for lists)
  ('R', elem, n)          n copies of elem
  ('A', base, start, n)   slice of an atomic base sequence
Bases: Sym (arbitrary sequence), App (value of an uninterpreted function such as a hash),
Pos (the digits of an integer in some radix, fixed width, big or little endian).
Sequences of digits are compared through their positional values; the only facts used about
those values are  0 <= val < radix**len  and  val(x+y) = val(x)*radix**len(y) + val(y).
"""
from . import core
from .core import *

ALPHA = {
  'hex': b'0123456789abcdef', 'HEX': b'0123456789ABCDEF', 'dec': b'0123456789',
  'b58': b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz',
}

class Base(object):
    elem_lo, elem_hi = 0, 255
    def ckey(self): return self._key
    def __eq__(self, o): return isinstance(o, Base) and self._key == o._key
    def __hash__(self): return hash(self._key)

class Sym(Base):
    """arbitrary sequence; elements are atoms"""
    def __init__(self, name, n, lo=0, hi=255, mkelem=None):
        self.name, self.n, self.elem_lo, self.elem_hi = name, n, lo, hi
        self._key = ('sym', name); self.mkelem = mkelem
    def elem(self, i):
        if self.mkelem: return self.mkelem(i)
        a, new = core.CUR.atom2(('elt', self, i), 'e_%s_' % self.name)
        if new:
            core.CUR.fact(s_and(s_le(self.elem_lo, a), True if self.elem_hi is None else s_le(a, self.elem_hi)))
            reg = core.CUR.memo.setdefault('elems', {}).setdefault(self, [])
            for i2, a2 in reg:
                if isinstance(i, int) and isinstance(i2, int): continue
                core.CUR.fact(s_implies(s_eq(i, i2), s_eq(a, a2)))
            reg.append((i, a))
            val_lemmas(self, i, a)
        return a
    def __repr__(self): return self.name

class App(Base):
    """value of an uninterpreted function; args are canonical keys"""
    def __init__(self, fn, args, n, lo=0, hi=255):
        self.fn, self.args, self.n, self.elem_lo, self.elem_hi = fn, args, n, lo, hi
        self._key = ('app', fn) + tuple(seqkey(a) for a in args)
    elem = Sym.elem
    mkelem = None
    @property
    def name(self): return self.fn
    def __repr__(self): return '%s(..)' % self.fn

class Pos(Base):
    def __init__(self, radix, alpha, value, width, le=False):
        self.radix, self.alpha, self.value, self.n, self.le = radix, alpha, value, width, le
        self._key = ('pos', radix, alpha, seqkey(value), seqkey(width), le)
        self.name = 'pos%d' % radix
        if alpha:
            self.elem_lo, self.elem_hi = min(ALPHA[alpha]), max(ALPHA[alpha])
        else: self.elem_lo, self.elem_hi = 0, radix - 1
    def digit(self, i):
        e = i if self.le else s_add(s_add(self.n, -1), -i)
        if isinstance(e, int):
            d = s_divmod(s_divmod(self.value, self.radix ** e)[0], self.radix)[1]
            if isinstance(d, SInt): core.CUR.memo.setdefault('digits', {})[d.key() if hasattr(d, 'key') else repr(d)] = (self.radix, self.value, e)
            return d
        d, new = core.CUR.atom2(('dig', self, i), 'd')
        if new:
            core.CUR.fact(s_and(s_le(0, d), s_lt(d, self.radix)))
            if isinstance(e, SInt):
                p = POW(self.radix, e); g = s_eq(s_add(e, 1), self.n)
                core.CUR.fact(s_implies(s_and(g, s_le(1, d)), s_le(p, self.value)))
                core.CUR.fact(s_implies(s_and(g, s_eq(d, 0)), s_lt(self.value, p)))
            val_lemmas(self, i, d)
        return d
    def elem(self, i):
        return chr_of(self.alpha, self.digit(i))
    def __repr__(self): return 'Pos(%d,%s,%s%s)' % (self.radix, show(self.value), show(self.n), ',le' if self.le else '')

def chr_of(alpha, d):
    if alpha is None: return d
    if isinstance(d, int): return ALPHA[alpha][d]
    a, new = core.CUR.atom2(('map', alpha, d), 'ch')
    if new:
        al = ALPHA[alpha]
        if alpha in ('dec', 'hex'):
            core.CUR.fact(s_eq(a, s_add(d, 48)) if alpha == 'dec' else
                s_and(s_implies(s_le(d, 9), s_eq(a, s_add(d, 48))), s_implies(s_le(10, d), s_eq(a, s_add(d, 87)))))
        else:
            for k, ch in enumerate(al): core.CUR.fact(s_iff(s_eq(d, k), s_eq(a, ch)))
        core.CUR.fact(s_and(s_le(min(al), a), s_le(a, max(al))))
    return a

def digit_of(alpha, ch):
    """digit value of a character, or None when it is not known to be in the alphabet"""
    if alpha is None: return ch
    if isinstance(ch, int):
        k = ALPHA[alpha].find(bytes([ch])) if 0 <= ch < 256 else -1
        if k < 0 and alpha == 'hex': k = ALPHA['HEX'].find(bytes([ch])) if ch < 256 else -1
        return k if k >= 0 else None
    if len(ch.t) == 1:
        (m, c), = ch.t.items()
        if c == 1 and len(m) == 1:
            k = core.CUR.atoms[m[0]].key
            if k[0] == 'map' and (k[1] == alpha): return k[2]
    return None

def seqkey(x):
    if isinstance(x, SInt): return x.key()
    if hasattr(x, 'ckey'): return x.ckey()
    if isinstance(x, bytes): return ('L', tuple(x))
    if isinstance(x, (tuple, list)): return tuple(seqkey(i) for i in x)
    if isinstance(x, (int, str, type(None), bool)): return x
    if isinstance(x, SBool): return ('SB', x.e.sexpr())
    return ('obj', id(x))

class Rope(object):
    __slots__ = ('kind', 'segs', '_key')
    def __init__(self, kind, segs):
        self.kind = kind; self.segs = segs; self._key = None
    def ckey(self):
        if self._key is None:
            self._key = ('rope', self.kind) + tuple(
                (s[0], seqkey(s[1]), seqkey(s[2]), seqkey(s[3])) if s[0] == 'A' else
                (s[0], seqkey(s[1]), seqkey(s[2])) if s[0] == 'R' else ('L', seqkey(tuple(s[1]))) for s in self.segs)
        return self._key
    def __repr__(self): return 'Rope(%s, %s)' % (self.kind, self.segs)
    def __bool__(self): raise Unsupported('truth of rope leaked')
    def __len__(self): raise Unsupported('len of rope leaked')
    def __iter__(self): raise Unsupported('iteration over rope leaked')
    def __eq__(self, o): raise Unsupported('== on rope leaked')
    __hash__ = None
    def from_model(self, m):
        """concrete bytes from a z3 model (best effort, for replay hints)"""
        ev = lambda x: x if isinstance(x, int) else m.eval(zi(x), model_completion=True).as_long()
        out = []
        for s in self.segs:
            if s[0] == 'L': out += [ev(e) for e in s[1]]
            elif s[0] == 'R': out += [ev(s[1])] * min(ev(s[2]), 4096)
            else:
                st, n = ev(s[2]), min(ev(s[3]), 4096)
                b = s[1]
                if isinstance(b, Pos):
                    v, w = ev(b.value), ev(b.n)
                    ds = []
                    for _ in range(min(w, 4096)): v, d = divmod(v, b.radix); ds.append(ALPHA[b.alpha][d] if b.alpha else d)
                    if not b.le: ds.reverse()
                    out += ds[st:st+n]
                elif isinstance(b, Rev):
                    full = list(Rope(self.kind, [('A', b.of, 0, b.n)]).from_model(m))
                    if full and isinstance(full[0], str): full = [ord(x) for x in full]
                    out += full[::-1][st:st+n]
                else:
                    known = {}
                    for a in core.CUR.atoms:
                        if a.key[0] == 'elt' and a.key[1] == b: known[ev(a.key[2])] = ev(a.p)
                    out += [known.get(st+i, max(b.elem_lo, 0) if b.elem_lo else (i * 37 + 11) % (b.elem_hi + 1)) for i in range(n)]
        if self.kind == 'b': return bytes(x & 255 for x in out)
        if self.kind == 's': return ''.join(chr(x) for x in out)
        return out

class BA(Rope):
    """a bytearray: bytes that change in place"""
    def __init__(self, segs): Rope.__init__(self, 'b', list(segs))
def still(x):
    """the bytes a bytearray holds now"""
    return norm('b', list(x.segs)) if isinstance(x, BA) else x
NAT = {'b': bytes, 's': str, 'l': list, 't': tuple}
def kind_of(x):
    if isinstance(x, Rope): return x.kind
    if isinstance(x, (bytes, bytearray)): return 'b'
    if isinstance(x, str): return 's'
    if isinstance(x, list): return 'l'
    if isinstance(x, tuple): return 't'
    return None
def lit(x):
    """elements of a native sequence"""
    if isinstance(x, (bytes, bytearray)): return tuple(x)
    if isinstance(x, str): return tuple(map(ord, x))
    return tuple(x)
def segs_of(x):
    if isinstance(x, Rope): return x.segs
    e = lit(x)
    return [('L', e)] if e else []
def seglen(s):
    return len(s[1]) if s[0] == 'L' else s[2] if s[0] == 'R' else s[3]
def rlen(x):
    if not isinstance(x, Rope): return len(x)
    n = 0
    for s in x.segs: n = s_add(n, seglen(s))
    return n
def same(a, b):
    """syntactic equality of integers"""
    if isinstance(a, int) or isinstance(b, int): return isinstance(a, int) and isinstance(b, int) and a == b
    return a.t == b.t
def samekey(a, b):
    return seqkey(a) == seqkey(b)
def norm(kind, segs):
    """merge segments; native value when fully concrete"""
    out = []
    for s in segs:
        n = seglen(s)
        if isinstance(n, int) and n <= 0: continue
        if s[0] == 'R' and isinstance(s[2], int) and s[2] <= 64: s = ('L', (s[1],) * s[2])
        if out:
            p = out[-1]
            if p[0] == 'L' and s[0] == 'L': out[-1] = ('L', p[1] + s[1]); continue
            if p[0] == 'A' and s[0] == 'A' and p[1] == s[1] and same(s_add(p[2], p[3]), s[2]):
                out[-1] = ('A', p[1], p[2], s_add(p[3], s[3])); continue
            if p[0] == 'R' and s[0] == 'R' and is_int(p[1]) and is_int(s[1]) and same(p[1], s[1]):
                out[-1] = ('R', p[1], s_add(p[2], s[2])); continue
        out.append(s)
    if not out:
        return NAT[kind]()
    if len(out) == 1 and out[0][0] == 'L':
        e = out[0][1]
        if kind == 'l': return list(e)
        if kind == 't': return tuple(e)
        if all(isinstance(v, int) for v in e):
            return bytes(e) if kind == 'b' else ''.join(map(chr, e))
    return Rope(kind, out)
def mk_seq(kind, elems): return norm(kind, [('L', tuple(elems))])
def whole(base, kind='b'): return norm(kind, [('A', base, 0, base.n)])
def rcat(*xs):
    k = kind_of(xs[0])
    segs = []
    for x in xs:
        if kind_of(x) != k: raise ProgExc(TypeError("can't concat %s to %s" % (kind_of(x), k)))
        segs += segs_of(x)
    return norm(k, segs)
def rrep(x, n):
    """x * n"""
    k = kind_of(x)
    if isinstance(n, int):
        return norm(k, segs_of(x) * max(n, 0))
    s = segs_of(x)
    if len(s) == 1 and s[0][0] == 'L' and len(s[0][1]) == 1:
        if not core.CUR.decide(s_le(0, n)): return NAT[k]()
        return norm(k, [('R', s[0][1][0], n)])
    if not s: return NAT[k]()
    raise Unsupported('sequence repetition')

# ------------------------------------------------------------------ slicing and indexing
def split(segs, pos):
    """split a segment list at a position known to be within [0, total]"""
    c = core.CUR; out = []; i = 0
    while i < len(segs):
        s = segs[i]; n = seglen(s)
        if isinstance(pos, int) and pos == 0: return out, list(segs[i:])
        d = s_add(pos, -n)
        if isinstance(d, int): ge = d >= 0
        elif i == len(segs) - 1 and s[0] != 'L': ge = False      # pos <= total: cut the last segment
        else: ge = c.decide(s_le(0, d), 'slice')
        if ge:
            out.append(s); pos = d; i += 1; continue
        # cut inside s
        if s[0] == 'L':
            k = c.value_in(pos, len(s[1]) + 1, 'slice position')
            if k == 0: return out, list(segs[i:])
            return out + [('L', s[1][:k])], [('L', s[1][k:])] + list(segs[i+1:])
        r = s_add(n, -pos)
        if s[0] == 'R':
            return out + [('R', s[1], pos)], [('R', s[1], r)] + list(segs[i+1:])
        return out + [('A', s[1], s[2], pos)], [('A', s[1], s_add(s[2], pos), r)] + list(segs[i+1:])
    return out, []
def clamp(i, n, default):
    c = core.CUR
    if i is None: return default
    if not is_int(i): raise ProgExc(TypeError('slice indices must be integers'))
    if c.decide(s_lt(i, 0), 'slice'):
        i = s_add(i, n)
        if c.decide(s_lt(i, 0), 'slice'): return 0
    if c.decide(s_lt(n, i), 'slice'): return n
    return i
def rslice(x, a, b, step=None):
    k = kind_of(x)
    if step is not None and not (isinstance(step, int) and step == 1):
        if isinstance(step, int) and step == -1 and a is None and b is None: return rreverse(x)
        if not isinstance(x, Rope) and all(v is None or isinstance(v, int) for v in (a, b, step)): return x[a:b:step]
        e = explicit(x)
        if all(v is None or isinstance(v, int) for v in (a, b, step)): return mk_seq(k, e[a:b:step])
        raise Unsupported('slice step')
    if not isinstance(x, Rope) and all(v is None or isinstance(v, int) for v in (a, b)): return x[a:b]
    if isinstance(x, (bytes, str)) and isinstance(a, SInt) and b is not None and same(s_add(b, -a), 1) and \
       core.CUR.decide(s_and(s_le(0, a), s_lt(a, len(x))), 'slice'):
        return mk_seq(k, [const_at(x, a)])
    n = rlen(x)
    lo = clamp(a, n, 0); hi = clamp(b, n, n)
    if isinstance(s_add(hi, -lo), int) or not core.CUR.quick(s_le(lo, hi)):
        if core.CUR.decide(s_le(hi, lo), 'slice'): return NAT[k]()
    segs = segs_of(x)
    if not same(hi, n):
        # find the split from the nearer end
        if isinstance(hi, int) or True: segs, _ = split(segs, hi)
    _, segs = split(segs, lo)
    return norm(k, segs)
def rindex(x, i):
    k = kind_of(x); c = core.CUR
    if not isinstance(x, Rope) and isinstance(i, int):
        try: return x[i]
        except IndexError as e: raise ProgExc(e)
    if not is_int(i): raise ProgExc(TypeError('indices must be integers'))
    n = rlen(x)
    if isinstance(x, (bytes, str)) and core.CUR.decide(s_and(s_le(0, i), s_lt(i, n)), 'index'):
        e = const_at(x, i)
        return norm('s', [('L', (e,))]) if k == 's' else e
    j = i
    if c.decide(s_lt(i, 0), 'index'): j = s_add(i, n)
    if not c.decide(s_and(s_le(0, j), s_lt(j, n)), 'index'): raise ProgExc(IndexError('index out of range'))
    _, rest = split(segs_of(x), j)
    rest = nonempty(rest); s = rest[0]
    e = s[1][0] if s[0] == 'L' else s[1] if s[0] == 'R' else s[1].elem(s[2])
    if k == 's': return norm('s', [('L', (e,))])
    return e
def nonempty(rest):
    """drop leading segments that have no elements on this path"""
    while len(rest) > 1:
        n = seglen(rest[0])
        if isinstance(n, int):
            if n: break
        elif core.CUR.decide(s_lt(0, n), 'segment'): break
        rest = rest[1:]
    return rest
def const_at(x, i):
    """element of constant text at a symbolic position known to be inside"""
    t = lit(x)
    for nm, al in ALPHA.items():
        if tuple(al) == t: return chr_of(nm, i)
    a, new = core.CUR.atom2(('tab', t, i), 'tab')
    if new:
        for k, v in enumerate(t): core.CUR.fact(s_implies(s_eq(i, k), s_eq(a, v)))
    return a
def explicit(x, limit=4096):
    """all elements of a sequence of concrete length"""
    if not isinstance(x, Rope): return list(lit(x))
    out = []
    for s in x.segs:
        if s[0] == 'L': out += s[1]
        else:
            n = core.CUR.concrete(seglen(s))
            if n is None or n > limit: raise Unsupported('elements of a sequence of symbolic length')
            out += [s[1]] * n if s[0] == 'R' else [s[1].elem(s_add(s[2], i)) for i in range(n)]
    return out
def is_explicit(x): return not isinstance(x, Rope) or all(isinstance(seglen(s), int) for s in x.segs)
def rreverse(x):
    k = kind_of(x); out = []
    for s in reversed(segs_of(x)):
        if s[0] == 'L': out.append(('L', s[1][::-1]))
        elif s[0] == 'R': out.append(s)
        else:
            b = s[1]
            if isinstance(b, Rev): out.append(('A', b.of, s_add(s_add(b.n, -s[2]), -s[3]), s[3]))
            else: out.append(('A', Rev(b), s_add(s_add(b.n, -s[2]), -s[3]), s[3]))
    return norm(k, out)
class Rev(Base):
    """a base read backwards"""
    def __init__(self, of):
        self.of, self.n = of, of.n; self._key = ('rev', of._key); self.elem_lo, self.elem_hi = of.elem_lo, of.elem_hi
        self.name = 'rev'; self.alpha = getattr(of, 'alpha', None)
    def elem(self, i): return self.of.elem(s_add(s_add(self.n, -1), -i))
    def __repr__(self): return 'Rev(%r)' % self.of

def subseq(x, a, b):
    """x[a:b] for positions known to satisfy 0 <= a <= b <= len(x), without case splits (specifications)"""
    s = segs_of(x)
    if len(s) == 1 and s[0][0] == 'A':
        return norm(kind_of(x), [('A', s[0][1], s_add(s[0][2], a), s_add(b, -a))])
    if len(s) == 1 and s[0][0] == 'R': return norm(kind_of(x), [('R', s[0][1], s_add(b, -a))])
    return rslice(x, a, b)
class Single(Base):
    """list whose elements are the one-character strings of another base"""
    def __init__(self, of, kind):
        self.of, self.n, self.kind = of, of.n, kind; self._key = ('single', kind, of._key); self.name = 'single'
        self.elem_lo = self.elem_hi = None
    def elem(self, i): return mk_seq(self.kind, [self.of.elem(i)])
def unsingle_base(b, kind):
    if isinstance(b, Single) and b.kind == kind: return b.of
    if isinstance(b, Rev):
        u = unsingle_base(b.of, kind)
        return Rev(u) if u is not None else None
def unsingle(x, kind):
    """the text whose characters are the elements of the list x; None when x is not such a list"""
    out = []
    for s in segs_of(x):
        if s[0] == 'L':
            for e in s[1]:
                if kind_of(e) != kind: return None
                n = rlen(e)
                if not (isinstance(n, int) and n == 1): return None
                out += segs_of(e)
        elif s[0] == 'R':
            if kind_of(s[1]) != kind or rlen(s[1]) != 1: return None
            out.append(('R', explicit(s[1])[0], s[2]))
        else:
            b = unsingle_base(s[1], kind)
            if b is None: return None
            out.append(('A', b, s[2], s[3]))
    return norm(kind, out)
# ------------------------------------------------------------------ positional values
def digit_run(ds, i, radix):
    """(k, value of the digits i..i+k), recognising consecutive digits of one number"""
    reg = core.CUR.memo.get('digits', {})
    g = lambda d: reg.get(d.key() if hasattr(d, 'key') else repr(d)) if isinstance(d, SInt) else None
    a = g(ds[i])
    if a is None or a[0] != radix: return 1, ds[i]
    k = 1
    while i + k < len(ds):
        b = g(ds[i + k])
        if b is None or b[0] != radix or not same(b[1], a[1]) or b[2] != a[2] - k: break
        k += 1
    if k == 1: return 1, ds[i]
    return k, s_divmod(s_divmod(a[1], radix ** (a[2] - k + 1))[0], radix ** k)[1]
def val(x, radix=256, alpha=None, le=False):
    """integer denoted by the digits of x; None when a digit is not known"""
    if le: x = rreverse(x)
    v = 0
    for s in segs_of(x):
        if s[0] == 'L':
            ds = [digit_of(alpha, e) for e in s[1]]
            if any(d is None or not is_int(d) for d in ds): return None
            i = 0
            while i < len(ds):
                k, w = digit_run(ds, i, radix)
                v = s_add(s_mul(v, radix ** k), w); i += k
            continue
        n = seglen(s)
        w = segval(s, radix, alpha)
        if w is None: return None
        if isinstance(v, int) and v == 0: v = w; continue
        P = POW(radix, n); h = s_mul(v, P)
        if isinstance(v, SInt) and len(v.t) > 1 and isinstance(P, SInt) and core.CUR.quick(s_le(0, v)):
            # the solver does not see that a product of non-negative factors is not negative
            core.CUR.fact(s_le(0, h)); core.CUR.fact(s_implies(s_le(1, v), s_le(P, h)))
        v = s_add(h, w)
    return v
def segval(s, radix, alpha):
    n = seglen(s)
    if s[0] == 'R':
        d = digit_of(alpha, s[1])
        if d is None: return None
        if isinstance(d, int) and d == 0: return 0
        if isinstance(n, int): return s_mul(d, (radix ** n - 1) // (radix - 1))
        a, new = core.CUR.atom2(('rep', radix, d, n), 'rep')
        if new: core.CUR.fact(s_eq(s_mul(a, radix - 1), s_mul(d, s_add(POW(radix, n), -1))))
        return a
    b, st = s[1], s[2]
    if isinstance(b, Rev) and isinstance(n, int) and n <= 4:
        v = 0
        for i in range(n):
            d = digit_of(alpha, b.elem(s_add(st, i)))
            if d is None: return None
            v = s_add(s_mul(v, radix), d)
        return v
    if isinstance(b, Rev):
        # big-endian value of a reversed slice
        a, new = core.CUR.atom2(('val', b, radix, alpha, st, n), 'val')
        if new: core.CUR.fact(s_and(s_le(0, a), s_lt(a, POW(radix, n))))
        return a
    if isinstance(b, Pos):
        if b.radix != radix or b.alpha != alpha: return None
        if not b.le:
            if same(st, 0) and same(n, b.n): return b.value
            e = s_add(s_add(b.n, -st), -n)           # digits below the slice
            if isinstance(e, SInt):
                for k in (0, 1, 2):
                    if core.CUR.quick(s_eq(e, k)): e = k; break
            if isinstance(e, int) and e == 0 and same(st, 0): return b.value
            if isinstance(e, int) and same(st, 0): return s_divmod(b.value, radix ** e)[0]
            if isinstance(e, int) and isinstance(n, int):
                q = s_divmod(b.value, radix ** e)[0]
                return s_divmod(q, radix ** n)[1]
        elif isinstance(n, int):
            v = 0
            for i in range(n): v = s_add(s_mul(v, radix), b.digit(s_add(st, i)))
            return v
    elif alpha is not None: return None
    if isinstance(n, int) and n <= 4:
        v = 0
        for i in range(n): v = s_add(s_mul(v, radix), b.elem(s_add(st, i)))
        return v
    return slice_val(b, radix, alpha, st, n)
def slice_val(b, radix, alpha, st, n):
    c = core.CUR
    if isinstance(n, int) and n == 0: return 0
    a, new = c.atom2(('val', b, radix, alpha, st, n), 'val')
    if new:
        c.fact(s_and(s_le(0, a), s_lt(a, POW(radix, n))))
        c.fact(s_implies(s_eq(n, 0), s_eq(a, 0)))
        reg = c.memo.setdefault('vals', {}).setdefault(b, [])
        elts = c.memo.setdefault('elts', {}).setdefault(b, [])
        if isinstance(b, Pos) and not b.le:
            c.fact(s_implies(s_and(s_eq(st, 0), s_eq(n, b.n)), s_eq(a, b.value)))
            if b.radix == radix: c.fact(s_implies(s_and(s_eq(st, 0), s_eq(s_add(n, 1), b.n)), s_eq(a, s_divmod(b.value, radix)[0])))
        for r in reg:
            if (r[3], r[4]) != (radix, alpha): continue
            if same(r[0], st): c.fact(s_implies(s_eq(r[1], n), s_eq(r[2], a)))
            elif same(s_add(r[0], r[1]), s_add(st, n)): c.fact(s_implies(s_eq(r[0], st), s_eq(r[2], a)))
        for (i, d) in list(elts): _lemma(b, radix, alpha, i, d, [(st, n, a)] + reg)
        reg.append((st, n, a, radix, alpha))
    return a
def val_lemmas(b, i, d):
    """a digit of a base became known: relate the values of the slices around it"""
    c = core.CUR
    c.memo.setdefault('elts', {}).setdefault(b, []).append((i, d))
    reg = c.memo.setdefault('vals', {}).setdefault(b, [])
    for r in list(reg): _lemma(b, r[3], r[4], i, d, [r])
def _lemma(b, radix, alpha, i, d, regs):
    c = core.CUR
    for r in regs[:]:
        st, n, a = r[0], r[1], r[2]
        if len(r) > 3 and (r[3], r[4]) != (radix, alpha): continue
        if isinstance(n, int) and n > 64: pass
        e = s_add(st, n)
        if same(e, i):               # [st, i) + digit i = [st, i+1)
            k = ('lemR', b, radix, alpha, st, i)
            if not c.atom2(k, 'lem')[1]: continue
            v = slice_val(b, radix, alpha, st, s_add(n, 1))
            c.fact(s_eq(v, s_add(s_mul(a, radix), d)))
        elif same(s_add(st, -1), i): # digit i + [i+1, e) = [i, e)
            k = ('lemL', b, radix, alpha, i, e)
            if not c.atom2(k, 'lem')[1]: continue
            v = slice_val(b, radix, alpha, i, s_add(n, 1))
            c.fact(s_eq(v, s_add(s_mul(d, POW(radix, n)), a)))
        elif isinstance(n, int) and n > 1 and alpha is None and isinstance(b, Sym) and same(s_add(e, -1), i):      # [st, i) + digit i = [st, i+1), the whole known
            k = ('lemT', b, radix, alpha, st, i)
            if not c.atom2(k, 'lem')[1]: continue
            c.fact(s_eq(a, s_add(s_mul(slice_val(b, radix, alpha, st, n - 1), radix), d)))
        elif same(st, i):            # leading digit of [i, e): bounds
            k = ('lemB', b, radix, alpha, i, e)
            if not c.atom2(k, 'lem')[1]: continue
            if isinstance(n, int) and n == 0: continue
            p = POW(radix, s_add(n, -1))
            g = s_le(1, n)
            c.fact(s_implies(g, s_and(s_le(s_mul(d, p), a), s_lt(a, s_mul(s_add(d, 1), p)))))
            c.fact(s_implies(s_and(g, s_le(1, d)), s_le(p, a)))
            c.fact(s_implies(s_and(g, s_eq(d, 0)), s_lt(a, p)))

def ndigits(radix, v, zero=1):
    """number of digits of v >= 0 in the radix (zero -> `zero` digits)"""
    if isinstance(v, int):
        n = 0
        while v: v //= radix; n += 1
        return n or zero
    c = core.CUR
    a, new = c.atom2(('nd', radix, v, zero), 'nd')
    if new:
        c.fact(s_le(zero, a))
        c.fact(s_lt(v, POW(radix, a)))
        c.fact(s_implies(s_eq(v, 0), s_eq(a, zero)))
        c.fact(s_implies(s_le(1, v), s_and(s_le(1, a), s_le(POW(radix, s_add(a, -1)), v))))
    return a
def mk_pos(radix, alpha, value, width, le=False, kind='b'):
    """the digits of value (0 <= value < radix**width, checked by the caller)"""
    c = core.CUR
    if isinstance(width, int):
        if width == 0: return NAT[kind]()
        if isinstance(value, int):
            d = []
            v = value
            for _ in range(width): v, r = divmod(v, radix); d.append(ALPHA[alpha][r] if alpha else r)
            if not le: d.reverse()
            return mk_seq(kind, d)
        if width == 1: return mk_seq(kind, [chr_of(alpha, value)])
    elif isinstance(value, int) and value == 0:
        return norm(kind, [('R', chr_of(alpha, 0), width)])
    if not isinstance(value, int) and len(value.t) == 1:
        (m, k), = value.t.items()
        if k == 1 and len(m) == 1:
            key = c.atoms[m[0]].key
            if key[0] == 'val' and key[2] == radix and key[3] == alpha and \
               (same(key[5], width) or c.quick(s_eq(key[5], width))):
                r = norm(kind, [('A', key[1], key[4], key[5])])
                return rreverse(r) if le else r
    if isinstance(width, SInt):
        # one name for digit strings of the same value and provably equal width
        reg = c.memo.setdefault('poswidths', {}).setdefault((radix, alpha, seqkey(value)), [])
        for w in reg:
            if same(w, width) or c.quick(s_eq(w, width)): width = w; break
        else: reg.append(width)
    b = Pos(radix, alpha, value, width)
    return norm(kind, [('A', Rev(b) if le else b, 0, width)])

# ------------------------------------------------------------------ equality
ELEMWISE = 40
def req(a, b, eq):
    """a == b as a boolean; eq compares elements"""
    ka, kb = kind_of(a), kind_of(b)
    if ka != kb: return False
    if not isinstance(a, Rope) and not isinstance(b, Rope) and ka in 'bs': return a == b
    c = core.CUR
    la, lb = rlen(a), rlen(b)
    L = s_eq(la, lb)
    if L is False: return False
    if L is not True:
        if c.quick(s_not(L)): return False
    conj = [L]
    sa, sb = list(segs_of(a)), list(segs_of(b))
    for x, y, swap in ((sa, sb, 0), (sb, sa, 1)):       # an arbitrary sequence and explicit elements
        if len(x) == 1 and x[0][0] == 'A' and isinstance(x[0][1], Sym) and (x[0][1].mkelem or ka not in 'bs') and all(q[0] == 'L' for q in y) and L is not True:
            es = [v for q in y for v in q[1]]
            if len(es) <= ELEMWISE: return s_and(L, *[(eq(v, e) if swap else eq(e, v)) for i, v in enumerate(es) for e in [x[0][1].elem(s_add(x[0][2], i))]])
    while sa and sb:
        x, y = sa[0], sb[0]; nx, ny = seglen(x), seglen(y)
        d = s_add(nx, -ny)
        if not isinstance(d, int):
            if c.quick(s_eq(d, 0)): d = 0
            elif c.quick(s_le(d, 0)): d = -1
            elif c.quick(s_le(0, d)): d = 1
            else: break
        if d > 0: sa, sb, x, y, nx, ny, sw = sb, sa, y, x, ny, nx, True
        # now len(x) <= len(y)
        if d == 0: y1, rest = y, []
        else:
            h, t = split([y], nx)
            if len(h) != 1: break
            y1, rest = h[0], t
        e = segeq(x, y1, nx, eq, ka)
        if e is None: 
            break
        if e is False:
            # non-empty differing chunk
            if isinstance(nx, int): return False
            conj.append(s_eq(nx, 0))
        else: conj.append(e)
        sa, sb = sa[1:], rest + sb[1:]
    if sa or sb:
        # trailing segments all of length 0, or compare the rest through its value
        ra, rb = norm(ka, sa), norm(ka, sb)
        if not sa or not sb:
            conj.append(s_eq(rlen(ra), rlen(rb)))
        elif ka in 'bs':
            e = valeq(ra, rb)
            if e is None:
                bb, _ = c.atom2(('eqseq',) + tuple(sorted([repr(seqkey(ra)), repr(seqkey(rb))])), 'eq')
                e = s_and(s_eq(rlen(ra), rlen(rb)), s_eq(bb, 1))
            conj.append(e)
        else: raise Unsupported('list equality')
    return s_and(*conj)
def valeq(a, b):
    for radix, alpha in ((256, None), (16, 'hex'), (58, 'b58'), (10, 'dec'), (128, None)):
        va = val(a, radix, alpha); vb = val(b, radix, alpha)
        if va is not None and vb is not None:
            return s_and(s_eq(rlen(a), rlen(b)), s_eq(va, vb))
    return None
def segeq(x, y, n, eq, kind):
    if x[0] == 'A' and y[0] == 'A' and x[1] == y[1]:
        if same(x[2], y[2]): return True
        if core.CUR.quick(s_eq(x[2], y[2])): return True
    if x[0] == 'R' and y[0] == 'R': return eq(x[1], y[1])
    if x[0] == 'A' and y[0] == 'A' and hasattr(x[1], 'pos') and type(x[1]) is type(y[1]):
        return segeq(('A', x[1].pos, x[2], n), ('A', y[1].pos, y[2], n), n, eq, kind)
    if isinstance(n, int) and 4 < n <= ELEMWISE and (x[0] == 'L') != (y[0] == 'L'):
        l, o = (x, y) if x[0] == 'L' else (y, x)
        if o[0] == 'A' and isinstance(o[1], (Sym, App)) and all(is_int(p) and same(core.CUR.norm(p) if isinstance(p, SInt) else p, o[1].elem(s_add(o[2], i))) for i, p in enumerate(l[1])): return True
    if x[0] == 'A' and y[0] == 'A' and (isinstance(x[1], XorBase) or isinstance(y[1], XorBase)):
        # extensionality: elements at an arbitrary position are equal
        i = core.CUR.fresh('ext_i', 0, None, record=False); core.CUR.fact(s_or(s_le(n, 0), s_lt(i, n)))
        a, b = x[1].elem(s_add(x[2], i)), y[1].elem(s_add(y[2], i))
        if same(a, b) or core.CUR.quick(s_or(s_le(n, 0), s_eq(a, b))): return True
    if kind == 'b' and isinstance(n, int) and n <= ELEMWISE and (x[0] == 'L') != (y[0] == 'L'):
        l, o = (x, y) if x[0] == 'L' else (y, x)
        if o[0] == 'A' and isinstance(o[1], (Sym, App)) and not core.CUR.memo.get('vals', {}).get(o[1]) and not all(isinstance(p, int) for p in l[1]):
            if core.CUR.quick(s_and(*[s_eq(p, o[1].elem(s_add(o[2], i))) for i, p in enumerate(l[1])])): return True
    if isinstance(n, int) and n <= ELEMWISE and any(p[0] == 'A' and isinstance(p[1], Sym) and p[1].mkelem and q[0] == 'L' for p, q in ((x, y), (y, x))):
        return s_and(*[eq(p, q) for p, q in zip(explicit(Rope(kind, [x])), explicit(Rope(kind, [y])))])
    if kind in 'bs' and not (x[0] == 'L' and y[0] == 'L'):
        e = valeq(Rope(kind, [x]), Rope(kind, [y]))
        if e is not None: return e
    if isinstance(n, int) and n <= ELEMWISE:
        ex = explicit(Rope(kind, [x])); ey = explicit(Rope(kind, [y]))
        return s_and(*[eq(p, q) for p, q in zip(ex, ey)])
    return None

# ------------------------------------------------------------------ elementwise exclusive or
class XorBase(Base):
    """elementwise exclusive or of slices of other bases with a constant"""
    elem_lo, elem_hi = 0, 255
    def __init__(self, const, parts, n):
        self.const, self.parts, self.n, self.name = const, parts, n, 'xor'
        self._key = ('xorb', const, tuple(sorted(repr((b._key, seqkey(st))) for b, st in parts)), seqkey(n))
    def elem(self, i): return xor_of(self.const, *[b.elem(s_add(st, i)) for b, st in self.parts])
    def __repr__(self): return 'Xor(%s)' % (self.parts,)
def xor_seq(n, const, parts, kind='b'):
    """sequence of n bytes: const ^ parts[0][1][start+i] ^ ...; equal parts cancel"""
    flat = []
    def add(b, st):
        nonlocal const
        if isinstance(b, XorBase):
            const ^= b.const
            for q, s2 in b.parts: add(q, s_add(s2, st))
            return
        for k, (q, s2) in enumerate(flat):
            if q == b and same(s2, st): del flat[k]; return
        flat.append((b, st))
    for b, st in parts: add(b, st)
    if not flat: return norm(kind, [('R', const, n)])
    if len(flat) == 1 and const == 0: return norm(kind, [('A', flat[0][0], flat[0][1], n)])
    return norm(kind, [('A', XorBase(const, flat, n), 0, n)])
def one_slice(x):
    """(base, start, n) when x is one slice of a base"""
    s = segs_of(x)
    return s[0][1:] if len(s) == 1 and s[0][0] == 'A' else None
def xor_ropes(x, y):
    a, b = one_slice(x), one_slice(y)
    return xor_seq(rlen(x), 0, [(a[0], a[1]), (b[0], b[1])], kind_of(x))
def elementwise(seq, elem):
    """[f(x..) for x.. in slices] as a sequence when f is the identity or an exclusive or of the elements"""
    c = core.CUR
    srcs = seq.key[1:] if seq.key[0] == 'zip' else (seq,)
    sl = []
    for s in srcs:
        if getattr(s, 'key', (None,))[0] != 'rope': return None
        t = one_slice(s.key[1])
        if t is None: return None
        sl.append(t)
    if not c.decide(s_lt(0, seq.n), 'empty'): return []
    i = c.fresh('any_i', 0, None, record=False); c.fact(s_lt(i, seq.n))
    before, no = len(c.trace), len(c.obls)
    v = elem(i)
    if len(c.trace) != before or len(c.obls) != no: return None
    v = c.norm(v) if isinstance(v, SInt) else v
    es = [b.elem(s_add(st, i)) for b, st, n in sl]
    for (b, st, n), e in zip(sl, es):
        if isinstance(v, SInt) and isinstance(e, SInt) and same(v, e): return norm('l', [('A', b, st, seq.n)])
        if not is_int(v) and kind_of(v) == 's' and segs_of(v) and samekey(v, mk_seq('s', [e])): return norm('s', [('A', b, st, seq.n)])
    if isinstance(v, SInt):
        p = xor_parts(v)
        want = [(b, st) for b, st, n in sl]
        if p is not None and same(v, xor_of(p[0], *es)): return xor_seq(seq.n, p[0], want, 'l')
    return None
