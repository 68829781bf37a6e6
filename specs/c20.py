"""C20: padding, and the stream feeder over an arbitrary mode.

The mode is used through its contract (C19): a call on the next n bytes of the input stream X returns the bytes of the
output stream F at the same positions; other lengths than the mode's granularity are refused."""
from .common import *
from nbc.util.pyaes import aes as A, blockfeeder as B, util as U
from .c19 import MODES, one_slice, state_eq, oblige_state, k_init, AES
from pyvc.rope import explicit as core_explicit
@unit('C20', 'padding reaches a multiple of 16 and is removed exactly')
def u_pad(it):
    c = it.c; n = c.fresh('n', 0); d = whole(Sym('d', n)); c.inputs['d'] = d
    k = s_add(16, -s_divmod(n, 16)[1])
    p = it.call(U.append_PKCS7_padding, [d])
    oblige_eq(it, 'data and k bytes of value k', p, rcat(d, norm('b', [('R', k, k)])))
    c.oblige('between 1 and 16 bytes to a multiple of 16', s_and(s_le(1, k), s_le(k, 16), s_eq(s_divmod(rlen(p), 16)[1], 0)))
    oblige_eq(it, 'removing it gives the data', it.call(U.strip_PKCS7_padding, [p]), d)
@unit('C20', 'malformed padding is refused', reach=['bad', 'good'])
def u_strip(it):
    c = it.c; n = c.fresh('n', 1); d = whole(Sym('d', n)); c.inputs['d'] = d
    last = d.segs[0][1].elem(s_add(n, -1))
    bad = s_or(s_ne(s_divmod(n, 16)[1], 0), s_lt(last, 1), s_lt(16, last))
    try: r = it.call(U.strip_PKCS7_padding, [d])
    except ProgExc as e:
        c.reach('bad'); c.oblige_by('ValueError', isinstance(e.exc, ValueError), 'path'); c.oblige('only bad padding is refused', bad); return
    c.reach('good'); c.oblige('bad padding is refused', s_not(bad))
    oblige_eq(it, 'as many bytes as the last one says are removed', r, subseq(d, 0, s_add(n, -last)))
# ---- the feeder
def gran(it): return it.c.extra['g']
def k_mode(name):
    def h(it, a, kw):
        c = it.c; o, data = a
        c.trust('contract of %s: the next bytes of the input stream give the next bytes of the output stream; data of a wrong length is refused (C19)' % name)
        n = rlen(data); m = it.c.extra['mode']
        bad = s_ne(n, 16) if m in ('ecb', 'cbc') else s_ne(s_divmod(n, gran(it))[1], 0)
        if c.decide(bad): raise ProgExc(ValueError('wrong length'))
        q = o.__dict__['ghost_q']; X, F = c.extra['X'], c.extra['F']
        e = s_add(q, n)
        if not c.decide(s_le(e, rlen(X))): c.oblige_by('the mode is given the next bytes of the stream', False, 'path', 'more bytes than were fed'); raise PathEnd()
        if not c.oblige('the mode is given the next bytes of the stream', it.eqb(data, piece(X, q, e))): raise PathEnd()
        it.log_write(o, 'ghost_q'); o.__dict__['ghost_q'] = e
        return piece(F, q, e)
    return h
K = {AES.__init__: k_init}
for _m, _c in MODES.items():
    K[_c.encrypt] = k_mode('encrypt'); K[_c.decrypt] = k_mode('decrypt')
def piece(S, a, b):
    s = segs_of(S)
    if s and s[0][0] == 'A' and core.CUR.quick(s_le(b, s[0][3])): return norm('b', [('A', s[0][1], s_add(s[0][2], a), s_add(b, -a))])
    return rslice(S, a, b)
class Buf(SObj):
    """a buffer of the caller (a bytearray): its contents may be used now, it is not kept"""
    def __init__(self, v): self.v = v
    def s_bytes(self, it): return self.v
    def s_len(self, it): return rlen(self.v)
    def s_truth(self, it): return s_lt(0, rlen(self.v))
    def s_getitem(self, it, i): return it.getitem(self.v, i)
    def s_isinstance(self, it, t): return any(issubclass(bytearray, x) for x in (t if isinstance(t, tuple) else (t,)))
    def s_binop(self, it, op, l, r):
        if op != 'Add': raise Unsupported('%s of a buffer' % op)
        return rcat(*[x.v if isinstance(x, Buf) else x for x in (l, r)])
class Part(object):
    """a slice of a stream: viewed as its start (end fixed) or its end (start fixed)"""
    def __init__(self, what): self.what = what
    def seq(self, it, v):
        x = it.c.extra
        return piece(x['X'], v, x['a']) if self.what == 'buf' else piece(x['F'], x['c0'], v)
    def fresh(self, it, name):
        c = it.c; v = c.fresh('at', 0, None, record=False)
        c.fact(s_and(s_le(c.extra['c0'], v), s_le(v, c.extra['a']), s_or(s_eq(v, c.extra['c0']), s_le(s_add(v, 16), c.extra['a']))))     # part of the invariant
        return self.seq(it, v)
    def view(self, it, v):
        if kind_of(v) != 'b': return None
        x = it.c.extra; n = rlen(v)
        k = s_add(x['a'], -n) if self.what == 'buf' else s_add(x['c0'], n)
        S = x['X'] if self.what == 'buf' else x['F']
        st = k if self.what == 'buf' else x['c0']
        s = segs_of(v)
        if not s: return k
        o = one_slice(v); b = one_slice(S)
        if o and b and o[0] == b[0] and it.c.quick(s_or(s_eq(n, 0), s_eq(o[1], st))): return k
        try: ok = it.c.quick(it.eqb(v, piece(S, st, s_add(st, n))))
        except Unsupported: ok = False
        return k if ok else None
def inv(it, g, pos):
    x = it.c.extra
    return [('what is returned and what is kept meet', s_eq(g['buf'], g['res'])), ('the mode stands there', s_eq(g['q'], g['res'])), ('whole units', s_eq(s_divmod(g['q'], gran(it))[1], 0)),
            ('within the data', s_and(s_le(x['c0'], g['q']), s_le(g['q'], x['a']))), ('sixteen bytes are kept', s_or(s_eq(g['q'], x['c0']), s_le(16, s_add(x['a'], -g['q']))))]
FEED = LoopSpec('feed', [('buf', Part('buf')), ('res', Part('res')), ('q', Int(0))], inv, hint={'q': ('ghost_q',)}, variant=lambda it, g: s_add(it.c.extra['a'], -g['q']))
class Cut(Base):
    """a list of byte strings that together are F[c0..v]"""
    elem_lo = elem_hi = None
    def __init__(self, S, v, n): self.S, self.v, self.n, self.name = S, v, n, 'pieces'; self._key = ('cut', seqkey(S), seqkey(v), seqkey(n))
    def elem(self, i): raise Unsupported('one piece of the output')
class Pieces(Part):
    def fresh(self, it, name):
        s = Part.fresh(self, it, name); n = it.c.fresh('pieces', 0, None, record=False); it.c.fact(s_iff(s_eq(n, 0), s_eq(rlen(s), 0)))
        return Rope('l', [('A', Cut(s, rlen(s), n), 0, n)])
    def view(self, it, v):
        if kind_of(v) != 'l': return None
        out = []
        for g in segs_of(v):
            if g[0] == 'A' and isinstance(g[1], Cut) and same(g[2], 0) and same(g[3], g[1].n): out.append(g[1].S)
            elif g[0] == 'L' and all(kind_of(e) == 'b' for e in g[1]): out += g[1]
            else: return None
        return Part.view(self, it, rcat(b'', *out))
def joined(it, sep, xs):
    if len(sep) == 0 and xs.key[0] == 'rope' and len(xs.key[1].segs) == 1 and isinstance(xs.key[1].segs[0][1], Cut): return xs.key[1].segs[0][1].S
FEEDL = LoopSpec('feed in pieces', [('buf', Part('buf')), ('res', Pieces('res')), ('q', Int(0))], inv, hint={'q': ('ghost_q',)}, variant=lambda it, g: s_add(it.c.extra['a'], -g['q']))
def feeder(it, mode, seg, cls):
    key = bytes(16)
    o = it.call(MODES[mode], [key] + ([None, seg] if mode == 'cfb' else [])) if mode != 'cfb' else it.call(MODES[mode], [key, None], dict(segment_size=seg))
    o.__dict__['ghost_q'] = 0
    f = it.call(cls, [o])
    return o, f
def feed(it, o, f, a0, a, wrap=lambda x: x):
    """one call with the stream bytes [a0, a)"""
    c = it.c; c.extra.update(a=a, c0=o.__dict__['ghost_q'], loop_lvs=[(o, 'ghost_q')])
    q0 = o.__dict__['ghost_q']
    r = it.call(it.getattr(f, 'feed'), [wrap(piece(c.extra['X'], a0, a))])
    q = o.__dict__['ghost_q']
    if not c.decide(s_le(q0, q)): c.oblige_by('output in order', False, 'path'); raise PathEnd()
    oblige_eq(it, 'what comes out is the next part of the output stream', r, piece(c.extra['F'], q0, q))
def final(it, o, f, end):
    c = it.c; q = o.__dict__['ghost_q']
    r = it.call(it.getattr(f, 'feed'), [] if c.choose(2) else [b''])
    oblige_eq(it, 'finishing gives the rest of the output stream', r, piece(c.extra['F'], q, end)); c.reach('final')
    for x in ([], [b'x']):
        try: it.call(it.getattr(f, 'feed'), x); ok = False
        except ProgExc as e: ok = isinstance(e.exc, ValueError)
        c.oblige_by('a finished feeder refuses more', ok, 'path')
def streams(it, mode, enc):
    """input and output stream of a whole history with N bytes of plaintext; (bytes fed, end of the output)"""
    c = it.c; N = c.fresh('N', 0)
    if mode in ('ecb', 'cbc'):
        k = s_add(16, -s_divmod(N, 16)[1]); P = whole(Sym('P', N)); T = s_add(N, k)
        if not c.decide(s_lt(0, N)): P = b''
        pp = rcat(P, norm('b', [('R', k, k)])); C = whole(Sym('C', T))
        return (pp, C, N, T) if enc else (C, pp, T, N)
    far = s_add(N, 64); P = whole(Sym('P', N)); z = bytes(64) if mode == 'cfb' else b''
    if not c.decide(s_lt(0, N)): P = b''
    return rcat(P, z), whole(Sym('F', far)), N, N
for _m in ('ecb', 'cbc', 'ofb', 'ctr') + tuple('cfb%d' % i for i in range(1, 17)):
  for _e in (True, False):
    @unit('C20', 'the %s %s depends only on the whole stream' % (_m, 'encrypter' if _e else 'decrypter'), contracts=K, loops=[FEED, FEEDL], join_rule=joined, reach=['two', 'one', 'final', 'buffer'])
    def u_feed(it, m=_m, enc=_e):
        c = it.c; mode = m[:3]; seg = int(m[3:] or 1)
        X, F, fed, end = streams(it, mode, enc)
        c.extra.update(mode=mode, g=16 if mode in ('ecb', 'cbc') else seg, X=X, F=F)
        cls = B.Encrypter if enc else B.Decrypter
        how = c.choose(4)
        if how == 0:                # two pieces of a longer stream against one
            a1, a2 = c.fresh('a1', 0), c.fresh('a2', 0); c.assume(s_and(s_lt(0, a1), s_lt(a1, a2), s_le(a2, fed)))
            o, f = feeder(it, mode, seg, cls); feed(it, o, f, 0, a1); feed(it, o, f, a1, a2)
            o2, f2 = feeder(it, mode, seg, cls); feed(it, o2, f2, 0, a2); c.reach('two')
            c.oblige('as much has come out', s_eq(o.__dict__['ghost_q'], o2.__dict__['ghost_q']))
            oblige_state(it, 'the state depends only on the bytes fed so far', f, f2)
        elif how == 1:
            o, f = feeder(it, mode, seg, cls); c.assume(s_lt(0, fed)); feed(it, o, f, 0, fed); c.reach('one'); final(it, o, f, end)
        elif how == 2:
            o, f = feeder(it, mode, seg, cls); c.assume(s_lt(0, fed)); feed(it, o, f, 0, fed, Buf)
            c.oblige_by('the buffer of the caller is not kept', not any(isinstance(x, Buf) for x in f.__dict__.values()), 'path'); c.reach('buffer')
        else:
            c.assume(s_eq(fed, 0)); o, f = feeder(it, mode, seg, cls); final(it, o, f, end)
