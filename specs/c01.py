"""C01: Base58"""
from pyvc.spec import *
from nbc.util import base58

def digits_loop(name, radix, alpha, kind, le, N, single=None):
    """repeated division: v * radix**len(s) + value(s) == N and s has no leading zero digit"""
    def inv(it, g, pos):
        v, s = g['v'], g['s']; j = s.len; n = N(it)
        return [('digits', s_eq(s_add(s_mul(v, POW(radix, j)), s.val), n)),
                ('nonneg', s_le(0, v)),                ('minimal', s_or(s_eq(j, 0), s_le(POW(radix, s_add(j, -1)), n)))]
    return LoopSpec(name, [('v', Int(0)), ('s', PosSeq(radix, alpha, kind, le, single))], inv, hint={'v': ('i', 'acc'), 's': ('s', 'ret')})
gN = lambda it: it.c.extra['N']
def variants(name, radix, alpha, N):
    return [digits_loop('%s (%s %s%s)' % (name, k, 'le' if le else 'be', '' if a == alpha else ' digits'), radix, a, k, le, N)
            for k in 'bls' for le in (False, True) for a in ([alpha] if alpha is None else [alpha, None]) if not (k == 's' and a is None)]
enc_digits = variants('to base 58', 58, 'b58', gN) + [
    digits_loop('to base 58 (pieces %s %s)' % (k, 'le' if le else 'be'), 58, 'b58', 'l', le, gN, k) for k in 'bs' for le in (False, True)]
dec_digits = variants('to base 256', 256, None, gN)
def digits_in(it, radix, alpha):
    if it.cur_seq is None: return False
    try: return val(it.cur_seq, radix, alpha) is not None
    except Unsupported: return False
def _acc_inv(it, g, pos):
    r = [('partial value', s_eq(g['acc'], val_(subseq(rreverse(it.cur_seq), s_add(rlen(it.cur_seq), -pos), rlen(it.cur_seq)))))]
    if 'p' in g: r.append(('power', s_eq(g['p'], POW(256, pos))))
    if 'q' in g: r.append(('shift', s_eq(g['q'], s_mul(8, pos))))
    return r
acc256 = LoopSpec('value of bytes, low end first', [('acc', Int(0)), ('p', Int(0)), ('q', Int(0))], _acc_inv,
   optional=('p', 'q'), hint={'p': ('p',), 'acc': ('acc',), 'q': ('shift',)}, guard=lambda it, seq, s: digits_in(it, 256, None))
def _hor_inv(it, g, pos):
    return [('prefix value', s_eq(g['acc'], val_(subseq(it.cur_seq, 0, pos), 58, 'b58')))]
hor58 = LoopSpec('value of text', [('acc', Int(0))], _hor_inv, guard=lambda it, seq, s: digits_in(it, 58, 'b58'))
def _hor256_inv(it, g, pos): return [('prefix value', s_eq(g['acc'], val_(subseq(it.cur_seq, 0, pos))))]
hor256 = LoopSpec('value of bytes, high end first', [('acc', Int(0))], _hor256_inv, guard=lambda it, seq, s: digits_in(it, 256, None))
LOOPS = enc_digits + dec_digits + [acc256, hor256, hor58]

def expect_enc(k, N): return rcat(rrep(b'1', k), mk_pos(58, 'b58', N, ndigits(58, N, 0)))
def expect_dec(k, N): return rcat(rrep(b'\0', k), mk_pos(256, None, N, ndigits(256, N, 0)))

def sym_payload(it, name='v'):
    """any byte string: k zero bytes, then nothing or bytes T with T[0] != 0"""
    c = it.c
    k = c.fresh('k', 0); n = c.fresh('n', 0)
    T = Sym('T', n)
    if c.decide(s_eq(n, 0), 'empty'): n = 0; body = b''; N = 0
    else:
        c.assume(s_le(1, T.elem(0))); body = whole(T); N = val(body)
        c.fact(s_le(POW(256, s_add(n, -1)), N))
    v = rcat(rrep(b'\0', k), body)
    c.inputs['v'] = v; c.extra['N'] = N
    return v, k, N, n

@unit('C01', 'b58encode writes the value in base 58', loops=LOOPS, reach=['end'])
def u_enc(it):
    v, k, N, n = sym_payload(it)
    r = it.call(base58.b58encode, [v])
    oblige_eq(it, 'encoding is 1 per zero byte then the minimal base-58 digits', r, expect_enc(k, N))

@unit('C01', 'b58decode reads the value', loops=LOOPS, reach=['end'])
def u_dec(it):
    c = it.c
    k = c.fresh('k', 0); N = c.fresh('N', 0); w = ndigits(58, N, 0)
    c.extra['N'] = N
    text = rcat(rrep(b'1', k), mk_pos(58, 'b58', N, w))
    c.inputs['text'] = text
    if c.choose(2): text = norm('s', segs_of(text))     # the same as native text
    r = it.call(base58.b58decode, [text])
    oblige_eq(it, 'decoding is zero bytes then the minimal base-256 digits', r, expect_dec(k, N))

@unit('C01', 'decode inverts encode', loops=LOOPS, reach=['end'])
def u_rt(it):
    v, k, N, n = sym_payload(it)
    it.contracts[base58.b58encode] = lambda it, a, kw: expect_enc(k, N)
    t = it.call(base58.b58encode, [v])
    r = it.call(base58.b58decode, [t])
    oblige_eq(it, 'decode(encode(v)) == v', r, v)

@unit('C01', 'encode inverts decode', loops=LOOPS, reach=['end'])
def u_rt2(it):
    c = it.c
    k = c.fresh('k', 0); N = c.fresh('N', 0); w = ndigits(58, N, 0)
    c.extra['N'] = N
    text = rcat(rrep(b'1', k), mk_pos(58, 'b58', N, w)); c.inputs['text'] = text
    v = expect_dec(k, N)          # contract of b58decode
    r = it.call(base58.b58encode, [v])
    oblige_eq(it, 'encode(decode(text)) == text', r, text)

def _bad_inv(it, g, pos):
    return [('no bad character passed', s_le(pos, it.c.extra['j']))]
bad = LoopSpec('scan', [('acc', Int())], _bad_inv, guard=lambda it, seq, s: it.cur_seq is not None)
@unit('C01', 'text outside the alphabet is refused', loops=[bad], reach=['refused'])
def u_bad(it):
    c = it.c
    k = c.fresh('k', 0); n = c.fresh('n', 1)
    T = Sym('T', n)
    c.assume(s_not(s_eq(T.elem(0), ord('1'))))
    j = c.fresh('j', 0); c.assume(s_lt(j, n)); c.extra['j'] = j
    e = T.elem(j)
    for ch in ALPHA['b58']: c.fact(s_not(s_eq(e, ch)))
    text = rcat(rrep(b'1', k), whole(T)); c.inputs['text'] = text
    try:
        r = it.call(base58.b58decode, [text])
    except ProgExc as x:
        c.oblige_by('refusal is a ValueError', isinstance(x.exc, ValueError), 'path')
        c.reach('refused'); return
    c.oblige_by('a character outside the alphabet is refused', False, 'path', 'returned normally')
