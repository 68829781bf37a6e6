"""C19: AES modes of operation over an arbitrary keyed block function E with inverse D (C18 proves AES computes them).

Bytes processed so far are a position q in the concatenated data of all calls.  Key streams and chaining values are
sequences defined by recursion on the block function (SP 800-38A): OFB KS[0:16)=IV, KS[16j+16..)=E(KS[16j..16j+16));
CFB window W[0:16)=IV, W[16+j]=C_j, C_j = P_j ^ E(W[q..q+16))_(j-q) for the segment at q; CTR S_j = E(counter_j)."""
from .common import *
from nbc.util.pyaes import aes as A
from pyvc.rope import xor_seq, xor_ropes, one_slice, XorBase
from pyvc.interp import SObj, PMethod
import types
AES = A.AES
MODES = dict(ecb=A.AESModeOfOperationECB, cbc=A.AESModeOfOperationCBC, cfb=A.AESModeOfOperationCFB, ofb=A.AESModeOfOperationOFB, ctr=A.AESModeOfOperationCTR)
TR = 'AES is an invertible keyed block function and refuses keys and blocks of other lengths (proved under C18)'
# ---- the block function
def k_init(it, a, kw):
    it.c.trust(TR)
    obj, key = a
    n = rlen(key)
    if not it.c.decide(s_or(s_eq(n, 16), s_eq(n, 24), s_eq(n, 32))): raise ProgExc(ValueError('Invalid key size'))
    it.log_write(obj, 'ghost_key'); obj.__dict__['ghost_key'] = key
def block(it, b):
    c = it.c; n = rlen(b)
    if not c.decide(s_eq(n, 16)): raise ProgExc(ValueError('wrong block length'))
    if isinstance(b, Rope) and one_slice(b) is not None:
        s = one_slice(b); return s[0], s[1], norm('l', [('A', s[0], s[1], 16)])
    es = [c.norm(e) for e in it.to_list(b)]
    # 16 consecutive elements of one base
    k = elt_key(es[0])
    if k is not None and all(isinstance(e, SInt) and same(e, k[0].elem(s_add(k[1], i))) for i, e in enumerate(es)):
        return k[0], k[1], norm('l', [('A', k[0], k[1], 16)])
    return None, None, mk_seq('l', es)
def elt_key(e):
    if isinstance(e, SInt) and len(e.t) == 1:
        (m, co), = e.t.items()
        if co == 1 and len(m) == 1:
            k = core.CUR.atoms[m[0]].key
            if k[0] == 'elt': return k[1], k[2]
    return None
def canon(x): return tuple(e if isinstance(e, int) else e for e in (explicit_(x)))
def explicit_(x): return [core.CUR.norm(e) if isinstance(e, SInt) else e for e in core_explicit(x)]
from pyvc.rope import explicit as core_explicit
def aes(fn, key, b):
    """E or D of a block, as the value of an uninterpreted function; D(E(x)) = x = E(D(x))"""
    inv = {'aesE': 'aesD', 'aesD': 'aesE'}[fn]
    s = one_slice(b)
    es = tuple(explicit_(b))
    k = elt_key(es[0]) if es else None
    if k and isinstance(k[0], App) and k[0].fn == inv and same(k[1], 0) and all(isinstance(e, SInt) and same(e, k[0].elem(i)) for i, e in enumerate(es)) and samekey(k[0].args[0], key):
        return mk_seq('l', k[0].args[1])
    return whole(App(fn, (key, es), 16), 'l')
def k_block(fn):
    def h(it, a, kw):
        it.c.trust(TR)
        obj, blk = a
        base, st, b = block(it, blk)
        key = obj.__dict__['ghost_key']
        rule = getattr(base, 'next_block', None)
        if rule is not None:
            r = rule(it, fn, key, st)
            if r is not None:
                r = Rope('l', list(segs_of(r))); it.note_alloc(r); return r
        r = aes(fn, key, b)
        r = Rope('l', list(segs_of(r))) if isinstance(r, Rope) else list(r)
        return it.note_alloc(r)
    return h
K = {AES.__init__: k_init, AES.encrypt: k_block('aesE'), AES.decrypt: k_block('aesD')}
# the verified text uses E, D only through these; specs use them directly
def newkey(it):
    n = (16, 24, 32)[it.c.choose(3)] if it.unit.opts.get('allkeys') else 16
    k = whole(Sym('key', n)); it.c.inputs['key'] = k
    return k
def make(it, mode, key, *args, **kw):
    return it.call(MODES[mode], [key] + list(args), kw)
def state_eq(it, x, y, depth=0):
    """same class and equal attributes"""
    if x is y: return True
    if isinstance(x, (PMethod, types.MethodType)) and isinstance(y, (PMethod, types.MethodType)):
        parts = lambda m: (m.func, m.recv) if isinstance(m, PMethod) else (m.__func__, m.__self__)
        return s_and(parts(x)[0] is parts(y)[0], state_eq(it, parts(x)[1], parts(y)[1], depth + 1))
    if depth > 4 or type(x) is not type(y):
        if kind_of(x) and kind_of(x) == kind_of(y): return it.eqb(x, y)
        return it.eqb(x, y)
    d = getattr(x, '__dict__', None)
    if d is not None and not isinstance(x, (SObj, type, SInt, SBool)) and type(x).__module__.startswith('nbc.'):
        e = y.__dict__
        if set(d) != set(e): return False
        return s_and(*[state_eq(it, d[k], e[k], depth + 1) for k in sorted(d)])
    return it.eqb(x, y)
def oblige_state(it, name, x, y): return it.c.oblige(name, state_eq(it, x, y))
def refuses(it, name, f, args, kw=None):
    try: it.call(f, args, kw or {})
    except ProgExc as e:
        it.c.oblige_by(name, isinstance(e.exc, ValueError), 'path', 'raises %s instead' % type(e.exc).__name__); return
    it.c.oblige_by(name, False, 'path', 'accepted')
def tob(x): return norm('b', segs_of(x))
# ---- ECB, CBC: one block per call
for _m in ('ecb', 'cbc'):
    @unit('C19', '%s: one call enciphers one block and leaves the state of a fresh object with the next vector' % _m, contracts=K, allkeys=True, reach=['enc', 'dec', 'default'])
    def u_block(it, m=_m):
        c = it.c; key = newkey(it)
        iv = whole(Sym('iv', 16)); P = whole(Sym('P', 16)); c.inputs['iv'] = iv; c.inputs['P'] = P
        if m == 'cbc':
            default = c.choose(2)
            if default: c.reach('default'); iv = bytes(16); mk = lambda: make(it, m, key)
            else: mk = lambda: make(it, m, key, iv)
        else: c.reach('default'); mk = lambda: make(it, m, key)
        o = mk()
        X = norm('l', segs_of(P)) if m == 'ecb' else mk_seq('l', [xor_of(p, v) for p, v in zip(core_explicit(P), core_explicit(iv))])
        C = tob(aes('aesE', key, X))
        c.reach('enc')
        oblige_eq(it, 'ciphertext is %s' % ('E(P)' if m == 'ecb' else 'E(P ^ previous ciphertext)'), it.call(it.getattr(o, 'encrypt'), [P]), C)
        oblige_state(it, 'after encrypting, the object is like a fresh one whose vector is the ciphertext', o, make(it, m, key, C) if m == 'cbc' else mk())
        d = mk(); c.reach('dec')
        oblige_eq(it, 'decrypting the ciphertext gives the plaintext', it.call(it.getattr(d, 'decrypt'), [C]), P)
        oblige_state(it, 'after decrypting, the object is like a fresh one whose vector is the ciphertext', d, make(it, m, key, C) if m == 'cbc' else mk())
        # an arbitrary ciphertext
        Q = whole(Sym('Q', 16)); d = mk()
        D = core_explicit(aes('aesD', key, norm('l', segs_of(Q))))
        W = mk_seq('b', D if m == 'ecb' else [xor_of(x, v) for x, v in zip(D, core_explicit(iv))])
        oblige_eq(it, 'decryption is %s' % ('D(C)' if m == 'ecb' else 'D(C) ^ previous ciphertext'), it.call(it.getattr(d, 'decrypt'), [Q]), W)
        oblige_state(it, 'after decrypting anything, the object is like a fresh one whose vector is that ciphertext', d, make(it, m, key, Q) if m == 'cbc' else mk())
    @unit('C19', '%s: blocks of another length are refused and change nothing' % _m, contracts=K)
    def u_len(it, m=_m):
        c = it.c; key = newkey(it); n = c.fresh('n', 0); c.assume(s_ne(n, 16))
        P = whole(Sym('P', n)); c.inputs['P'] = P
        o = make(it, m, key)
        refuses(it, 'encrypt refuses', it.getattr(o, 'encrypt'), [P]); refuses(it, 'decrypt refuses', it.getattr(o, 'decrypt'), [P])
        oblige_state(it, 'nothing changed', o, make(it, m, key))
@unit('C19', 'vectors and keys of another length are refused', contracts=K, reach=['iv', 'key'])
def u_iv(it):
    c = it.c; m = ('cbc', 'cfb', 'ofb', 'ecb', 'ctr')[c.choose(5)]
    n = c.fresh('n', 0)
    if m in ('cbc', 'cfb', 'ofb') and c.choose(2):
        c.assume(s_ne(n, 16)); c.reach('iv')
        refuses(it, '%s refuses the vector' % m, MODES[m], [whole(Sym('key', 16)), whole(Sym('iv', n))])
    else:
        c.assume(s_and(s_ne(n, 16), s_ne(n, 24), s_ne(n, 32))); c.reach('key')
        refuses(it, '%s refuses the key' % m, MODES[m], [whole(Sym('key', n))] + ([None] if m in ('cbc', 'cfb', 'ofb') else []))
# ---- OFB
class KS(Sym):
    def next_block(self, it, fn, key, st):
        if fn == 'aesE' and it.c.quick(s_eq(s_divmod(st, 16)[1], 0)) and it.c.quick(s_le(0, st)): return norm('l', [('A', self, s_add(st, 16), 16)])
def ofb_pos(it, pos): return s_add(it.c.extra.get('q0', 0), pos)
def back(q): return s_add(s_divmod(s_add(q, -1), 16)[1], 1)       # bytes of the last keystream block already used (1..16)
def ks(it): return it.c.extra['ks']
def ofb_rem(it, pos): q = ofb_pos(it, pos); return norm_l(ks(it), s_add(q, 16), s_add(16, -back(q)))
def ofb_last(it, pos): q = ofb_pos(it, pos); return norm_l(ks(it), s_add(s_add(q, 16), -back(q)), back(q))
def norm_l(base, st, n):
    r = norm('l', [('A', base, st, n)])
    return Rope('l', list(segs_of(r)))
def k_out(it, pos): return Rope('l', list(segs_of(subseq(norm('l', segs_of(it.c.extra['out'])), 0, pos))))
def xor_out(it, D, st): return xor_seq(rlen(D), 0, [one_slice(D)[:2], (ks(it), st)], 'b')
OFB = LoopSpec('keystream', [('out', DefinedSeq(k_out)), ('rem', Defined('l', ofb_rem)), ('last', Defined('l', ofb_last))], lambda it, g, pos: [])
def two_calls(it, mk, st, name='encrypt', data=None):
    c = it.c
    n1, n2 = c.fresh('n1', 0), c.fresh('n2', 0)
    base = data or Sym('P', s_add(n1, n2)); c.inputs['P'] = whole(base)
    P1, P2, P = [norm('b', [('A', base, s, n)]) for s, n in ((0, n1), (n1, n2), (0, s_add(n1, n2)))]
    def one(o, q0, D, at):
        c.extra['q0'] = q0; c.extra['loop_lvs'] = [(v, 't') for v in o.__dict__.values() if isinstance(v, ACounter)]
        if not c.decide(s_lt(0, rlen(D))): D, w = b'', b''
        else: w = xor_out(it, D, s_add(st, at))
        c.extra['out'] = w
        r = it.call(it.getattr(o, name), [D])
        return r, w
    a, b = mk(), mk()
    r, w = one(a, 0, P1, 0); oblige_eq(it, 'first call: data ^ key stream', r, w)
    r, w = one(a, n1, P2, n1); oblige_eq(it, 'a later call goes on where the key stream stopped', r, w); c.reach('two')
    r, w = one(b, 0, P, 0); oblige_eq(it, 'one call: data ^ key stream', r, w); c.reach('one')
    oblige_state(it, 'the state depends only on the bytes processed, not on the calls', a, b)
for _n in ('encrypt', 'decrypt'):
    @unit('C19', 'ofb: %s is the data ^ the OFB key stream, however it is cut' % _n, contracts=K, loops=[OFB], reach=['two', 'one'], frozen=())
    def u_ofb(it, name=_n):
        c = it.c; key = newkey(it)
        k = KS('KS', s_add(c.fresh('far', 0, record=False), 64)); c.extra['ks'] = k
        iv = norm('b', [('A', k, 0, 16)]); c.inputs['iv'] = iv
        if c.choose(2):
            for i in range(16): c.fact(s_eq(k.elem(i), 0))
            mk = lambda: make(it, 'ofb', key)
        else: mk = lambda: make(it, 'ofb', key, iv)
        two_calls(it, mk, 16, name)
# ---- CTR
class CB(Sym):
    """the counter blocks, one after the other; enciphering block t gives block t of the key stream"""
    def next_block(self, it, fn, key, st):
        if fn == 'aesE' and it.c.quick(s_eq(s_divmod(st, 16)[1], 0)): return norm('l', [('A', ks(it), st, 16)])
class ACounter(SObj):
    """a counter after t increments; its value is the t-th counter block"""
    _cls = A.Counter
    def __init__(self, cb): self.t = 0; self.cb = cb
    def s_getattr(self, it, a):
        if a == 't': return self.t
        if a == 'value': return norm_l(self.cb, s_mul(16, self.t), 16)
        if a == 'increment': return self
        raise ProgExc(AttributeError(a))
    def s_setattr(self, it, a, v):
        if a != 't': raise Unsupported('attribute %s of a counter' % a)
        self.t = v
    def s_call(self, it, args, kw): it.setattr(self, 't', s_add(self.t, 1))
    def s_eq(self, it, o): return s_eq(self.t, o.t) if isinstance(o, ACounter) else False
class Rem(object):
    """unused key stream: a slice starting at the position reached; viewed as its end"""
    def fresh(self, it, name):
        q = it.c.extra['q0']; e = it.c.fresh('end', 0, None, record=False); it.c.fact(s_le(q, e))
        return norm_l(ks(it), q, s_add(e, -q))
    def view(self, it, v):
        if kind_of(v) != 'l': return None
        q = it.c.extra['q0']; s = segs_of(v)
        if not s: return q
        s = one_slice(v)
        if s and s[0] == ks(it) and it.c.quick(s_or(s_eq(s[1], q), s_eq(s[2], 0))): return s_add(q, s[2])
        # explicit elements
        n = rlen(v); w = norm('l', [('A', ks(it), q, n)])
        try: ok = it.c.quick(it.eqb(v, w))
        except Unsupported: ok = False
        return s_add(q, n) if ok else None
def up(q): return s_divmod(s_add(q, 15), 16)[0]
def ctr_inv(it, g, pos):
    q = it.c.extra['q0']; n = rlen(it.c.extra['out'])
    return ([('bytes still missing', s_eq(g['missing'], s_add(s_add(q, n), -g['rem'])))] if 'missing' in g else []) + [('the stream ends at a block boundary', s_eq(g['rem'], s_mul(16, g['t']))), ('blocks used', s_le(up(q), g['t'])),
            ('no block more than needed', s_or(s_eq(g['t'], up(q)), s_lt(s_mul(16, s_add(g['t'], -1)), s_add(q, n))))]
CTR = LoopSpec('counter blocks', [('rem', Rem()), ('t', Int(0)), ('missing', Int())], ctr_inv, optional=('missing',), variant=lambda it, g: s_add(s_add(it.c.extra['q0'], rlen(it.c.extra['out'])), s_add(16, -g['rem'])))
for _n in ('encrypt', 'decrypt'):
    @unit('C19', 'ctr: %s is the data ^ the enciphered counter blocks, however it is cut' % _n, contracts=K, loops=[CTR], reach=['two', 'one'])
    def u_ctr(it, name=_n):
        c = it.c; key = newkey(it)
        far = c.fresh('far', 0, record=False)
        c.extra['ks'] = Sym('S', far); cb = CB('CB', far)
        def mk():
            n = ACounter(cb); o = make(it, 'ctr', key, n); it.c.extra['ctr'] = n; return o
        two_calls(it, mk, 0, name)
@unit('C19', 'ctr: without a counter, a new counter starting at one is used', contracts=K)
def u_ctr0(it):
    c = it.c; key = newkey(it)
    a, b = make(it, 'ctr', key), make(it, 'ctr', key, it.call(A.Counter, [1]))
    oblige_state(it, 'the default counter is Counter(1)', a, b)
    c.oblige_by('two objects do not share their counter', not any(v is w for v in a.__dict__.values() if isinstance(v, A.Counter) for w in make(it, 'ctr', key).__dict__.values()), 'path')
@unit('C19', 'a counter is 128 bits, big endian', reach=['end'])
def u_counter(it):
    c = it.c; v = c.fresh('value', 0, 2 ** 128 - 1)
    o = it.call(A.Counter, [v])
    x = it.getattr(o, 'value'); xs = it.to_list(x)
    c.oblige_by('sixteen bytes', len(xs) == 16, 'path')
    c.oblige('they denote the value', s_eq(val_(mk_seq('b', xs)), v))
    c.oblige('bytes', s_and(*[s_and(s_le(0, b), s_lt(b, 256)) for b in xs]))
@unit('C19', 'incrementing adds one and wraps to zero', reach=['carry', 'wrap', 'end'])
def u_incr(it):
    c = it.c; o = it.call(A.Counter, [0])
    bs = [c.fresh('b%d' % i, 0, 255) for i in range(16)]
    for k, v in list(o.__dict__.items()):
        if isinstance(v, list): o.__dict__[k] = it.note_alloc(list(bs))
    old = val_(mk_seq('b', bs)); c.inputs['value'] = mk_seq('b', bs)
    if c.decide(s_eq(old, 2 ** 128 - 1)): want = 0; c.reach('wrap')
    else: want = s_add(old, 1); c.reach('carry')
    it.call(it.getattr(o, 'increment'), [])
    xs = it.to_list(it.getattr(o, 'value'))
    c.oblige_by('sixteen bytes', len(xs) == 16, 'path')
    c.oblige('bytes', s_and(*[s_and(s_le(0, b), s_lt(b, 256)) for b in xs]))
    c.oblige('value + 1 mod 2^128', s_eq(val_(mk_seq('b', xs)), want))
# ---- CFB
def cfb_q(it, pos): return s_add(it.c.extra['q0'], s_mul(it.c.extra['seg'], pos))
def cfb_reg(it, pos): return norm_l(it.c.extra['W'], cfb_q(it, pos), 16)
def cfb_out(it, pos):
    return norm_l(it.c.extra['outbase'], s_add(it.c.extra['off'], it.c.extra['q0']), s_mul(it.c.extra['seg'], pos))
def cfb_body(it, g, pos):
    c = it.c; q = cfb_q(it, pos); W, P, s = c.extra['W'], c.extra['P'], c.extra['seg']
    E = core_explicit(aes('aesE', c.extra['key'], norm('l', [('A', W, q, 16)])))
    for j in range(s):
        p, w = P.elem(s_add(q, j)), W.elem(s_add(s_add(q, 16), j))
        c.fact(s_eq(w, xor_of(p, E[j]))) if c.extra['fwd'] else c.fact(s_eq(p, xor_of(w, E[j])))
CFB = LoopSpec('segments', [('out', DefinedSeq(cfb_out)), ('reg', Defined('l', cfb_reg))], lambda it, g, pos: [], at_body=cfb_body)
for _n in ('encrypt', 'decrypt'):
  for _s in range(1, 17):
    @unit('C19', 'cfb: %s chains segments of %d, however the calls are cut' % (_n, _s), contracts=K, loops=[CFB], spec_concrete_for=False, reach=['two', 'one'])
    def u_cfb(it, name=_n, s=_s):
        c = it.c; key = newkey(it); fwd = name == 'encrypt'
        k1, k2 = c.fresh('k1', 0), c.fresh('k2', 0)
        far = c.fresh('far', 0, record=False)
        W, P = Sym('W', far), Sym('P', far)
        c.extra.update(W=W, P=P, seg=s, key=key, fwd=fwd, outbase=W if fwd else P, off=16 if fwd else 0)
        iv = norm('b', [('A', W, 0, 16)]); c.inputs['iv'] = iv
        if c.choose(2):
            for i in range(16): c.fact(s_eq(W.elem(i), 0))
            ivarg = None
        else: ivarg = iv
        seg = 0 if s == 1 and c.choose(2) else s       # segment size 0 stands for 1
        mk = lambda: make(it, 'cfb', key, ivarg, segment_size=seg)
        inb, ioff, outb, ooff = (P, 0, W, 16) if fwd else (W, 16, P, 0)
        def one(o, q0, n):
            c.extra['q0'] = q0
            D = norm('b', [('A', inb, s_add(ioff, q0), n)]) if c.decide(s_lt(0, n)) else b''
            w = norm('b', [('A', outb, s_add(ooff, q0), rlen(D))])
            return it.call(it.getattr(o, name), [D]), w
        a, b = mk(), mk()
        n1, n2 = s_mul(s, k1), s_mul(s, k2)
        r, w = one(a, 0, n1); oblige_eq(it, 'first call', r, w)
        r, w = one(a, n1, n2); oblige_eq(it, 'a later call goes on where the register stopped', r, w); c.reach('two')
        r, w = one(b, 0, s_add(n1, n2)); oblige_eq(it, 'one call', r, w); c.reach('one')
        oblige_state(it, 'the state depends only on the bytes processed, not on the calls', a, b)
@unit('C19', 'cfb: data that is not whole segments is refused and changes nothing', contracts=K)
def u_cfblen(it):
    c = it.c; key = newkey(it); s = 2 + c.choose(15)
    n = c.fresh('n', 0); c.assume(s_lt(0, s_divmod(n, s)[1]))
    o = make(it, 'cfb', key, None, segment_size=s)
    D = whole(Sym('P', n)); c.inputs['P'] = D; c.inputs['seg'] = s
    refuses(it, 'encrypt refuses', it.getattr(o, 'encrypt'), [D]); refuses(it, 'decrypt refuses', it.getattr(o, 'decrypt'), [D])
    oblige_state(it, 'nothing changed', o, make(it, 'cfb', key, None, segment_size=s))
@unit('C19', 'lemma: P = C ^ E exactly when C = P ^ E, so each decryption relation inverts the encryption relation')
def u_lemma(it):
    import z3
    p, q, e = z3.BitVecs('p c e', 8); s = z3.Solver(); s.add((q == p ^ e) != (p == q ^ e))
    it.c.oblige_by('exclusive or is an involution', s.check() == z3.unsat, 'z3 (bit vectors)')
@unit('C19', 'the table of modes names the five modes')
def u_table(it):
    it.c.oblige_by('names', A.AESModesOfOperation == MODES, 'evaluation')
