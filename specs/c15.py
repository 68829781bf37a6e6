"""C15: deterministic nonces (RFC 6979)"""
from .common import *
from .c06 import k_orderlen
from .c20 import Cut, joined
from pyvc.absl import AObj, Fn
from nbc.util.ecdsa import rfc6979 as R, util as U, curves, keys as K
import hmac
def qlen_of(q): return ndigits(2, q)
@unit('C15', 'the bit length of an order', reach=['end'])
def u0(it):
    q = it.c.fresh('order', 1); it.c.oblige('number of binary digits', s_eq(it.call(R.bit_length, [q]), qlen_of(q)))
def leftmost(x, qlen):
    """the number made of the qlen leftmost bits"""
    c = it_c(); l = s_mul(8, rlen(x))
    if c.decide(s_le(l, qlen)): return val(x)
    v = val(x); z = s_divmod(v, POW(2, s_add(l, -qlen)))[0]
    c.fact(s_implies(s_and(s_le(0, qlen), s_lt(v, POW(2, l))), s_lt(z, POW(2, qlen))))     # x < 2**(a+b)  =>  x // 2**b < 2**a
    return z
def it_c():
    from pyvc import core
    return core.CUR
@unit('C15', 'the leftmost bits of a byte string', reach=['end'])
def u1(it):
    c = it.c; n = c.fresh('n', 1); s = whole(Sym('s', n)); c.inputs['s'] = s; ql = c.fresh('qlen', 0)
    want = leftmost(s, ql)
    c.oblige('bits2int', it.eqb(it.call(R.bits2int, [s, ql]), want))
def k_bits2int(it, a, kw): return leftmost(a[0], a[1] if len(a) > 1 else kw['qlen'])
def k_bit_length(it, a, kw): return qlen_of(a[0])
def k_n2s(it, a, kw):
    """contract of number_to_string and number_to_string_crop: proved in C06 for numbers that fit"""
    L = ndigits(256, a[1]); it.c.oblige('the number fits in the width of the order', s_and(s_le(0, a[0]), s_lt(a[0], POW(256, L))))
    return mk_pos(256, None, a[0], L)
def octets(x, q):
    """bits2octets of RFC 6979: the leftmost bits, reduced once, in the width of the order"""
    c = it_c(); z = leftmost(x, qlen_of(q))
    POW(2, s_mul(8, rlen(x)))
    c.oblige('less than twice the order', s_lt(z, s_mul(2, q)))
    if not c.decide(s_lt(z, q)): z = s_add(z, -q)          # z mod q
    return mk_pos(256, None, z, ndigits(256, q))
@unit('C15', 'number_to_string_crop writes a number that fits in the width of the order', contracts={curves.orderlen: k_orderlen}, reach=['end'])
def u2a(it):
    c = it.c; q = c.fresh('order', 1); v = c.fresh('num', 0); L = ndigits(256, q); c.assume(s_lt(v, POW(256, L)))
    oblige_eq(it, 'fixed width', it.call(U.number_to_string_crop, [v, q]), mk_pos(256, None, v, L))
@unit('C15', 'reduced hash octets', contracts={R.bits2int: k_bits2int, R.bit_length: k_bit_length, U.number_to_string_crop: k_n2s, curves.orderlen: k_orderlen}, reach=['end'])
def u2(it):
    c = it.c; n = c.fresh('n', 1); s = whole(Sym('h1', n)); c.inputs['h1'] = s; q = c.fresh('order', 2)
    want = octets(s, q)
    oblige_eq(it, 'bits2octets', it.call(R.bits2octets, [s, q]), want)
# ---- the generator
class Hash(SObj):
    """a hash function with any output length"""
    s_hashname = 'h'
    def __init__(self, c): self.h = c.fresh('holen', 1); c.inputs['holen'] = self.h; self.stream = None
    def s_call(self, it, a, kw): return AObj(digest_size=self.h)
    def s_truth(self, it): return True
    def s_hmac(self, it, key, msg): return AObj(digest=lambda: None) if False else Mac(self, key, msg)
    def mac(self, it, key, msg):
        t = self.stream
        if t is not None and isinstance(key, Rope) and it.c.quick(it.eqb(key, t['K'])):
            sg = segs_of(msg)
            if len(sg) == 1 and sg[0][0] == 'A' and same_base(sg[0][1], t['S']) and it.c.entails(s_and(s_eq(sg[0][2], s_mul(t['pos'], self.h)), s_eq(sg[0][3], self.h))):
                return chunk(t['S'], s_add(t['pos'], 1), self.h)
        return app('hmac', (key, msg), self.h)
def same_base(a, b): return a._key == b._key if hasattr(a, '_key') and hasattr(b, '_key') else a is b
class Mac(SObj):
    def __init__(self, H, key, msg): self.H, self.key, self.msg = H, key, msg
    def s_getattr(self, it, a):
        if a == 'digest': return BMethod(self, a)
        if a == 'update': return BMethod(self, a)
        raise ProgExc(AttributeError(a))
    def method(self, it, name, args):
        if name == 'digest': return self.H.mac(it, self.key, self.msg)
        self.msg = rcat(self.msg, args[0])
def chunk(S, p, h): return norm('b', [('A', S, s_mul(p, h), h)])
def first(it):
    """steps B to G"""
    e = it.c.extra; H, bx = e['H'], e['bx']; h = H.h
    v = rrep(b'\x01', h); k = rrep(b'\x00', h)
    mac = lambda k, m: app('hmac', (k, m), h)
    k = mac(k, rcat(v, b'\x00', bx)); v = mac(k, v); k = mac(k, rcat(v, b'\x01', bx)); v = mac(k, v)
    return k, v
def state(it, pos, i):
    e = it.c.extra
    if isinstance(pos, int): return first(it)[i]
    h = e['H'].h
    if 'head' not in e or same(pos, e['head']):
        e['head'] = pos
        return whole(Sym('K', h)) if i == 0 else chunk(Sym('T', e['far']), 0, h)
    if 'end' not in e: raise Unsupported('no candidate was made')
    k = app('hmac', (whole(Sym('K', h)), rcat(e['end'], b'\x00')), h)
    return k if i == 0 else app('hmac', (k, e['end']), h)
def outer_body(it, g, pos):
    e = it.c.extra; e['H'].stream = dict(K=whole(Sym('K', e['H'].h)), S=Sym('T', e['far']), pos=0)
def outer_inv(it, g, pos):
    e = it.c.extra
    if 'end' in e and 'cand' in e: return [('a candidate in range is not passed over', s_not(s_and(s_le(1, e['cand']), s_lt(e['cand'], e['q']))))]
    return []
OUT = LoopSpec('candidates', [('k', Defined('b', lambda it, p: state(it, p, 0))), ('v', Defined('b', lambda it, p: state(it, p, 1)))], outer_inv, ghost=True, at_body=outer_body)
def tv(it, pos): e = it.c.extra; return chunk(Sym('T', e['far']), pos, e['H'].h)
def tt(it, pos): e = it.c.extra; return norm('b', [('A', Sym('T', e['far']), e['H'].h, s_mul(pos, e['H'].h))])
class Blocks(Defined):
    """the blocks made so far: one byte string, or a list of byte strings"""
    def __init__(self, expected): Defined.__init__(self, None, expected); self.k = 'b'
    def fresh_at(self, it, name, pos):
        S = norm('b', segs_of(self.expected(it, pos)))
        return S if self.k == 'b' else Rope('l', [('A', Cut(S, rlen(S), pos), 0, pos)])
    def view(self, it, v):
        if kind_of(v) == 'b': return v
        if kind_of(v) != 'l': return None
        out = []
        for g in segs_of(v):
            if g[0] == 'A' and isinstance(g[1], Cut) and same(g[2], 0) and same(g[3], g[1].n): out.append(g[1].S)
            elif g[0] == 'L' and all(kind_of(e) == 'b' for e in g[1]): out += g[1]
            else: return None
        self.seen = kind_of(v); return rcat(b'', *out)
    def check(self, it, v, pos):
        if isinstance(pos, int) and pos == 0: self.k = self.seen if hasattr(self, 'seen') else 'b'
        return it.eqb(v, norm('b', segs_of(self.expected(it, pos))))
def in_body(it, g, pos):
    it.c.extra['H'].stream['pos'] = pos; n = it.cur_count; h = it.c.extra['H'].h
    if n is not None: it.c.fact(s_implies(s_lt(pos, n), s_le(s_mul(pos, h), s_mul(s_add(n, -1), h))))       # the order of products with h > 0
def in_inv(it, g, pos):
    e = it.c.extra; return [('no more blocks than needed', s_or(s_eq(pos, 0), s_lt(s_mul(8, s_mul(s_add(pos, -1), e['H'].h)), e['ql'])))]
def in_exit(it, g, pos):
    c = it.c; e = c.extra; h = e['H'].h
    if it.cur_count is not None: c.fact(s_implies(s_eq(pos, it.cur_count), s_eq(s_mul(pos, h), s_mul(it.cur_count, h))))
    c.oblige('enough bits', s_le(e['ql'], s_mul(8, s_mul(pos, h))))
    e['H'].stream['pos'] = None; e['H'].stream = None
    e['end'] = tv(it, pos); e['cand'] = leftmost(tt(it, pos), e['ql'])
def in_guard(it, seq, s): return it.c.extra['H'].stream is not None
IN = LoopSpec('blocks', [('v', Defined('b', tv)), ('t', Blocks(tt)), ('size', Defined('int', lambda it, p: s_mul(p, it.c.extra['H'].h)))], in_inv, ghost=True, at_body=in_body, at_exit=in_exit, optional=('size',), guard=in_guard)
@unit('C15', 'the nonce', contracts={R.bits2int: k_bits2int, R.bit_length: k_bit_length, U.number_to_string: k_n2s, U.number_to_string_crop: k_n2s, curves.orderlen: k_orderlen,
      R.bits2octets: lambda it, a, kw: octets(a[0], a[1])}, loops=[OUT, IN], join_rule=joined, reach=['nonce'], time=200)
def u3(it):
    c = it.c; q = c.fresh('order', 2); x = c.fresh('secret', 1); c.assume(s_lt(x, q)); n = c.fresh('n', 1); h1 = whole(Sym('h1', n)); c.inputs['h1'] = h1
    H = Hash(c); e = c.extra; e.update(H=H, q=q, ql=qlen_of(q), far=c.fresh('far', 0, record=False))
    e['bx'] = rcat(mk_pos(256, None, x, ndigits(256, q)), octets(h1, q))
    r = it.call(R.generate_k, [AObj(order=Ord(q)), x, H, h1])
    c.oblige('in range', s_and(s_le(1, r), s_lt(r, q))); c.oblige('the candidate of RFC 6979', it.eqb(r, e['cand'])); c.reach('nonce')
class Ord(SObj):
    def __init__(self, q): self.q = q
    def s_call(self, it, a, kw): return self.q
for how in ('digest', 'digest and a hash function', 'data', 'data and a hash function'):
    @unit('C15', 'signing deterministically uses this nonce (%s)' % how, reach=['signed'])
    def u4(it, how=how):
        c = it.c; made = []; gen, sec, dig, enc, hf, dflt = [Opaque((x,)) for x in ('generator', 'secret', 'digest', 'sigencode', 'hash', 'default hash')]
        hashed = {}
        def k_gen(it, a, kw): made.append((a, kw)); return Opaque(('nonce',))
        def k_sign(it, a, kw): made.append((a, kw)); return Opaque(('signature',))
        it.contracts[R.generate_k] = k_gen
        class H(SObj):
            def __init__(self, n): self.n = n
            def s_call(self, it, a, kw):
                hashed[self.n] = a; return AObj(digest=Fn(lambda it, a, kw: dig))
            def s_truth(self, it): return True
        hf, dflt = H('given'), H('default'); data = Opaque(('data',))
        me = AObj(privkey=AObj(secret_multiplier=sec), curve=AObj(generator=gen), default_hashfunc=dflt, sign_digest=Fn(k_sign))
        me.sign_digest_deterministic = Fn(lambda it, a, kw: it.call_body(K.SigningKey.sign_digest_deterministic, [me] + list(a), kw))
        kw = dict(sigencode=enc)
        if 'function' in how: kw['hashfunc'] = hf
        if 'data' in how: r = it.call_body(K.SigningKey.sign_deterministic, [me, data], kw)
        else: r = it.call_body(K.SigningKey.sign_digest_deterministic, [me, dig], kw)
        if not c.oblige_by('one nonce, one signature', len(made) == 2 and isinstance(r, Opaque) and r.key == ('signature',), 'path'): return
        (ga, gk), (sa, sk) = made
        names = ('generator', 'secexp', 'hash_func', 'data'); ga = dict(zip(names, ga), **gk)
        c.oblige_by('the nonce is for this generator and secret and digest', ga['generator'] is gen and ga['secexp'] is sec and ga['data'] is dig, 'path')
        c.oblige_by('and this hash function', ga.get('hash_func') is (hf if 'function' in how else dflt), 'path')
        names = ('digest', 'entropy', 'sigencode', 'k'); sa = dict(zip(names, sa), **sk)
        c.oblige_by('the signature is of the digest with the nonce', sa['digest'] is dig and sa.get('sigencode') is enc and isinstance(sa.get('k'), Opaque) and sa['k'].key == ('nonce',), 'path')
        if 'data' in how: c.oblige_by('the data is hashed', list(hashed) == ['given' if 'function' in how else 'default'] and list(hashed.values())[0] == [data], 'path')
        c.reach('signed')
