"""C13: DER encoders and decoders"""
from .common import *
from pyvc.absl import *
from pyvc.interp import Splat
from nbc.util.ecdsa import der as D
def tail(it):
    n = it.c.fresh('n_rest', 0); r = whole(Sym('rest', n)); it.c.inputs['rest'] = r; return r
def dlen(l):
    """the DER definite length (specification)"""
    c = core.CUR
    if isinstance(l, int) and l < 128 or c.decide(s_lt(l, 128)): return mk_pos(256, None, l, 1)
    k = ndigits(256, l); c.assume(s_le(k, 126)); c.fact(s_le(1, k))
    return rcat(mk_pos(256, None, s_add(128, k), 1), mk_pos(256, None, l, k))
def length(it, nm='l'):
    l = it.c.fresh(nm, 0); it.c.assume(s_le(ndigits(256, l), 126)); return l
def sb(it, nm, lo=0):
    n = length(it, 'n_' + nm); r = whole(Sym(nm, n)); it.c.inputs[nm] = r; return r
def k_enc_len(it, a, kw):
    it.c.trust('contract of encode_length (proved under C13)')
    if isinstance(a[0], SInt) and it.c.quick(s_and(s_le(0, a[0]), s_lt(a[0], 65536))): it.c.fact(s_le(ndigits(256, a[0]), 2))
    if is_int(a[0]): it.c.assume(s_le(ndigits(256, a[0]), 126)); it.c.trust('byte strings are shorter than 256**126 bytes')
    if not is_int(a[0]) or not it.c.decide(s_le(0, a[0])): raise Unsupported('length out of range')
    return dlen(a[0])
ELEN = {D.encode_length: k_enc_len}
@unit('C13', 'lengths are minimal and definite', reach=['end'])
def u1(it):
    l = length(it); w = dlen(l); oblige_eq(it, 'standard length', it.call(D.encode_length, [l]), w)
@unit('C13', 'lengths are read back', reach=['end'])
def u2(it):
    c = it.c; l = length(it); d = dlen(l); r = tail(it)
    v, n = it.to_list(it.call(D.read_length, [rcat(d, r)]))
    c.oblige('value', it.eqb(v, l)); c.oblige('bytes used', s_eq(n, rlen(d)))
@unit('C13', 'a truncated length is refused', reach=['refused'])
def u3(it):
    c = it.c; l = length(it); c.assume(s_le(128, l)); d = dlen(l); cut = c.fresh('cut', 1); c.assume(s_lt(cut, rlen(d)))
    try: it.call(D.read_length, [subseq_(d, cut)])
    except ProgExc as e: c.oblige_by('with the DER error', isinstance(e.exc, D.UnexpectedDER), 'path', repr(e.exc)); c.reach('refused'); return
    c.oblige_by('a truncated length is refused', False, 'path', 'accepted')
def subseq_(d, cut): return rcat(subseq(d, 0, 1), rslice(d, 1, cut))
def tlv(tag, body): return rcat(tag if not isinstance(tag, int) else bytes([tag]), dlen(rlen(body)), body)
def intbody(it, r):
    n = ndigits(256, r); b = mk_pos(256, None, r, n)
    if it.c.decide(s_le(128, rindex(b, 0))): b = rcat(b'\0', b)
    return b
def nonneg(it):
    r = it.c.fresh('r', 0); n = ndigits(256, r); it.c.assume(s_le(ndigits(256, n), 126)); it.c.assume(s_le(ndigits(256, s_add(n, 1)), 126)); return r
@unit('C13', 'integers are minimal and positive', contracts=ELEN, reach=['end'])
def u4(it):
    r = nonneg(it); w = tlv(2, intbody(it, r)); oblige_eq(it, 'standard integer', it.call(D.encode_integer, [r]), w)
@unit('C13', 'integers are read back', reach=['end'])
def u5(it):
    c = it.c; r = nonneg(it); t = tail(it)
    v, rest = it.to_list(it.call(D.remove_integer, [rcat(tlv(2, intbody(it, r)), t)]))
    c.oblige('value', it.eqb(v, r)); oblige_eq(it, 'trailing bytes', rest, t)
for nm, tag, e, d in (('octet strings', 4, D.encode_octet_string, D.remove_octet_string), ('bit strings', 3, D.encode_bitstring, D.remove_bitstring)):
    @unit('C13', nm + ' are encoded', contracts=ELEN, reach=['end'])
    def u6(it, tag=tag, e=e):
        s = sb(it, 's'); oblige_eq(it, 'tag, length, contents', it.call(e, [s]), tlv(tag, s))
    @unit('C13', nm + ' are read back', reach=['end'])
    def u7(it, tag=tag, d=d):
        s = sb(it, 's'); t = tail(it)
        v, rest = it.to_list(it.call(d, [rcat(tlv(tag, s), t)]))
        oblige_eq(it, 'contents', v, s); oblige_eq(it, 'trailing bytes', rest, t)
@unit('C13', 'constructed values', contracts=ELEN, reach=['end'])
def u8(it):
    c = it.c; s = sb(it, 's'); tag = c.fresh('tag', 0, 31)
    b = it.call(D.encode_constructed, [tag, s])
    oblige_eq(it, 'tag, length, contents', b, tlv(mk_pos(256, None, s_add(0xa0, tag), 1), s))
@unit('C13', 'constructed values are read back', reach=['end'])
def u8b(it):
    c = it.c; s = sb(it, 's'); tag = c.fresh('tag', 0, 31); t = tail(it)
    g, v, rest = it.to_list(it.call(D.remove_constructed, [rcat(tlv(mk_pos(256, None, s_add(0xa0, tag), 1), s), t)]))
    c.oblige('tag', it.eqb(g, tag)); oblige_eq(it, 'contents', v, s); oblige_eq(it, 'trailing bytes', rest, t)
def plist(it): return AList('pieces', it.c.fresh('n_pieces', 0), mkitem=lambda l, i: l.encoding(i), minw=0)
SEQL = [LoopSpec('total so far', [('total', Defined('int', lambda it, p: it.c.extra['X'].PL(p))), ('body', Defined('b', lambda it, p: subseq(it.c.extra['X'].body(), 0, it.c.extra['X'].PL(p))))], lambda it, g, pos: [], optional=('total', 'body'))]
@unit('C13', 'sequences of any number of pieces', contracts=ELEN, loops=SEQL, join_rule=join_rule, sum_rule=sum_rule, comp_rule=enc_comp, reach=['end'])
def u9x(it):
    X = plist(it); it.c.extra['X'] = X
    oblige_eq(it, 'tag, total length, pieces', it.call(D.encode_sequence, [Splat(X.value('t'))]), tlv(0x30, X.body()))
for k in range(5):
    @unit('C13', 'sequences of %d pieces' % k, contracts=ELEN, reach=['end'], cost=2)
    def u9(it, k=k):
        ps = [whole(Sym('s%d' % i, it.c.fresh('n%d' % i, 0))) for i in range(k)]
        want = tlv(0x30, rcat(b'', *ps))
        oblige_eq(it, 'tag, total length, pieces', it.call(D.encode_sequence, ps), want)
@unit('C13', 'sequences are read back', reach=['end'])
def u10(it):
    s = sb(it, 's'); t = tail(it)
    v, rest = it.to_list(it.call(D.remove_sequence, [rcat(tlv(0x30, s), t)]))
    oblige_eq(it, 'contents', v, s); oblige_eq(it, 'trailing bytes', rest, t)
for nm, d, ok in (('integer', D.remove_integer, [2]), ('octet string', D.remove_octet_string, [4]), ('bit string', D.remove_bitstring, [3]), ('sequence', D.remove_sequence, [0x30]),
        ('object', D.remove_object, [6]), ('constructed', D.remove_constructed, list(range(0xa0, 0xc0)))):
    @unit('C13', 'a wrong tag is refused (%s)' % nm, reach=['refused'])
    def u11(it, d=d, ok=ok):
        c = it.c; n = c.fresh('n', 1); s = whole(Sym('data', n)); c.inputs['data'] = s; f = s.segs[0][1].elem(0)
        c.assume(s_not(s_and(s_le(ok[0], f), s_le(f, ok[-1]))))
        try: it.call(d, [s])
        except ProgExc as e: c.oblige_by('with the DER error', isinstance(e.exc, D.UnexpectedDER), 'path', repr(e.exc)); c.reach('refused'); return
        c.oblige_by('a wrong tag is refused', False, 'path', 'accepted')
# -- base-128 numbers: m digits, all but the last with the top bit set
class B128(Base):
    """base-128 digits of v (w of them), each with the top bit set"""
    elem_lo, elem_hi = 128, 255
    def __init__(self, pos): self.pos, self.n = pos, pos.n; self._key = ('b128', pos._key); self.name = 'b128'
    def elem(self, i): return s_add(128, self.pos.elem(i))
def number(n):
    """base-128 encoding (specification)"""
    w = ndigits(128, n); q, r = s_divmod(n, 128); P = Pos(128, None, n, w)
    core.CUR.fact(s_eq(P.digit(s_add(w, -1)), r))
    return rcat(norm('b', [('A', B128(P), 0, s_add(w, -1))]), mk_pos(256, None, r, 1)), w
class Num128(object):
    """kind: base-128 digits with the top bit set, low part of a number; in a list, bytes or a bytearray (as before the loop),
    from the most significant or from the least; with last, the lowest digit is there and has no top bit"""
    def __init__(self, last=False, le=False): self.last, self.le, self.k = last, le, None
    def fresh(self, it, name):
        c = it.c; v = c.fresh('val_' + name, 0, None, record=False); n = c.fresh('len_' + name, 0, None, record=False); c.fact(s_lt(v, POW(128, n)))
        sg = [('A', B128(Pos(128, None, v, n)), 0, n)]
        if self.last: r = c.fresh('low_' + name, 0, 127, record=False); sg.append(('L', (r,)))
        k = 'l' if self.k == 'l' else 'b'; x = norm(k, sg)
        if self.le: x = rreverse(x)
        return it.note_alloc(BA(segs_of(x))) if self.k == 'ba' else x
    def view(self, it, x):
        k = kind_of(x)
        if k not in ('l', 'b'): return None
        me = 'ba' if isinstance(x, (BA, bytearray)) else k
        sg = segs_of(norm(k, segs_of(x)))
        if self.k is None and all(g[0] == 'L' for g in sg): self.k = me
        if me != self.k: return None
        if self.le: sg = segs_of(rreverse(norm(k, sg)))
        sg = list(sg); low = None
        if self.last:
            if not sg or sg[-1][0] != 'L': return None
            low = sg[-1][1][-1]; sg[-1] = ('L', sg[-1][1][:-1])
            if not is_int(low) or not it.c.quick(s_and(s_le(0, low), s_lt(low, 128))): return None
        v = 0
        for g in sg:
            if g[0] == 'L':
                for e in g[1]:
                    if not is_int(e) or not it.c.quick(s_and(s_le(128, e), s_lt(e, 256))): return None
                    v = s_add(s_mul(v, 128), s_add(e, -128))
            elif g[0] == 'A' and isinstance(g[1], B128) and same(g[2], 0) and same(g[3], g[1].n): v = s_add(s_mul(v, POW(128, g[1].n)), g[1].pos.value)
            else: return None
        if self.last: v = s_add(s_mul(v, 128), low)
        return PosV(v, rlen(x))
def enc_loop(last, le, behind):
    """digits of N so far: those below n (behind: those of n's lowest digit too)"""
    def inv(it, g, pos):
        n, s, N = g['n'], g['s'], it.c.extra['N']; j = s.len
        if behind: return [('digits', s_eq(s_add(s_mul(s_divmod(n, 128)[0], POW(128, j)), s.val), N)), ('nonneg', s_le(0, n)), ('minimal', s_or(s_eq(j, 1), s_le(POW(128, s_add(j, -1)), N)))]
        return [('digits', s_eq(s_add(s_mul(n, POW(128, j)), s.val), N)), ('nonneg', s_le(0, n)), ('minimal', s_or(s_eq(j, 1 if last else 0), s_le(POW(128, s_add(j, -1)), N)))]
    return LoopSpec('base 128%s%s%s' % (', with the lowest digit' if last else '', ', from the lowest' if le else '', ', n behind' if behind else ''), [('n', Int(0)), ('s', Num128(last, le))], inv, variant=lambda it, g: g['n'])
ENC = [enc_loop(l, le, b) for l, b in ((False, False), (True, False), (True, True)) for le in (False, True)]
def single_comp(it, src, seq, elem):
    """[one-byte string of x for x in list]"""
    if not (isinstance(src, Rope) and src.kind in 'lt'): return None
    at = 0; out = []
    for g in src.segs:
        n = seglen(g)
        if g[0] == 'L': out += [('L', (elem(s_add(at, j)),)) for j in range(len(g[1]))]
        elif g[0] == 'R' or not it.c.decide(s_lt(0, n)):
            if it.c.decide(s_lt(0, n)): return None
        else:
            i = it.c.fresh('any_i', 0, None, record=False); it.c.fact(s_lt(i, n))
            x = rindex(src, s_add(at, i)); e = elem(s_add(at, i)); k = kind_of(e)
            if k not in ('b', 's') or not it.c.quick(it.eqb(e, mk_seq(k, [x]))): return None
            out.append(('A', Single(g[1], k), g[2], g[3]))
        at = s_add(at, n)
    return norm('l', out)
@unit('C13', 'object identifier components are base 128', loops=ENC, comp_rule=single_comp, reach=['end'])
def u12(it):
    c = it.c; n = c.fresh('n', 0); c.extra['N'] = n
    b = it.call(D.encode_number, [n]); w, m = number(n)
    # digit by digit through the value
    c.oblige('number of digits', s_eq(rlen(b), m))
    i = c.fresh('i', 0); c.assume(s_lt(i, m)); 
    oblige_eq(it, 'digits', b, w)
# -- reading numbers
def _rn_inv(it, g, pos):
    s, P, w = it.c.extra['string'], it.c.extra['P'], it.c.extra['w']; j, v = g['llen'], g['number']
    if P is None: return [('inside', s_and(s_le(0, j), s_le(j, w)))]
    return [('position', s_and(s_le(0, j), s_lt(j, w))), ('value so far', s_eq(v, 0 if isinstance(j, int) and j == 0 else val_(norm('b', [('A', P, 0, j)]), 128)))]
def _rf_inv(it, g, pos):
    s, P, w = it.c.extra['string'], it.c.extra['P'], it.c.extra['w']
    if P is None: return [('inside', s_le(pos, w))]
    return [('position', s_lt(pos, w)), ('value so far', s_eq(g['number'], 0 if isinstance(pos, int) and pos == 0 else val_(norm('b', [('A', P, 0, pos)]), 128)))]
RNF = LoopSpec('number so far, byte by byte', [('number', Int(0))], _rf_inv, guard=lambda it, seq, s: seq is not None)
RN = LoopSpec('number so far', [('number', Int(0)), ('llen', Int(0))], _rn_inv, variant=lambda it, g: s_add(it.c.extra['w'], -g['llen']))
@unit('C13', 'base 128 numbers are read back', loops=[RN, RNF], reach=['end'])
def u13(it):
    c = it.c; n = c.fresh('n', 0); d, w = number(n); P = Pos(128, None, n, w); s = rcat(d, tail(it))
    c.extra.update(string=s, P=P, w=w)
    v, l = it.to_list(it.call(D.read_number, [s]))
    c.oblige('bytes used', s_eq(l, w)); c.oblige('value', it.eqb(v, n))
RN2 = LoopSpec('number so far', [('number', Int(0)), ('llen', Int(0))], _rn_inv, variant=lambda it, g: s_add(it.c.extra['w'], -g['llen']))
@unit('C13', 'a truncated base 128 number is refused', loops=[RN2, RNF], reach=['refused'])
def u14(it):
    c = it.c; w = c.fresh('cut', 0); n = c.fresh('n', 0); c.assume(s_lt(n, POW(128, w)))
    s = norm('b', [('A', B128(Pos(128, None, n, w)), 0, w)]); c.extra.update(string=s, P=None, w=w)
    try: it.call(D.read_number, [s])
    except ProgExc as e: c.oblige_by('with the DER error', isinstance(e.exc, D.UnexpectedDER), 'path', repr(e.exc)); c.reach('refused'); return
    c.oblige_by('a truncated number is refused', False, 'path', 'accepted')
def comps(it):
    """components of unbounded number and size; their base 128 encodings one after the other"""
    c = it.c; n = c.fresh('n_components', 0); made = c.memo.setdefault('comps', [])
    def mk(l, i):
        a, new = c.atom2(('component', i), 'component')
        if new: c.fact(s_le(0, a)); made.append((i, a))
        return a
    return AList('components', n, mkitem=mk)
def k_enc_item(it, a, kw):
    c = it.c; c.trust('contract of encode_number (proved under C13)')
    for i, x in c.memo.get('comps', []):
        if is_int(a[0]) and same(a[0], x): return c.extra['X'].encoding(i)
    raise Unsupported('another number is encoded')
def k_read_item(it, a, kw):
    c = it.c; s = segs_of(a[0]); r = find_item(a[0])
    if r is not None and it.c.quick(s_le(r[0].EL(r[1]), rlen(a[0]))): c.trust('contract of read_number (proved under C13)'); return (r[0].item(r[1]), r[0].EL(r[1]))
    if s and s[0][0] == 'L' and is_int(s[0][1][0]) and c.decide(s_lt(s[0][1][0], 128)): return (s[0][1][0], 1)
    raise Unsupported('number read elsewhere')
def oid_head(it, p):
    """the first p of: the byte of the first two components, the components"""
    X = it.c.extra['X']
    return rcat(it.c.extra['head'], subseq(X.body(), 0, X.PL(p)))
def oid_rest(it, p, k):
    X = it.c.extra['X']
    if k:
        if not it.c.decide(s_lt(0, p)): return it.c.extra['body']
        p = s_add(p, -1)
    if not it.c.decide(s_lt(p, X.n)): return b''
    it.c.fact(s_le(s_add(X.PL(p), X.EL(p)), X.total)); it.c.fact(s_le(1, X.EL(p)))
    return norm('b', [('A', X.enc, X.PL(p), s_add(X.total, -X.PL(p)))])
def oid_numbers(it, p, k):
    X, f, s = (it.c.extra[x] for x in 'Xfs')
    if not k: return rcat([f, s], X.upto(p))
    if not it.c.decide(s_lt(0, p)): return []
    return rcat([s_add(s_mul(40, f), s)], X.upto(s_add(p, -1)))
def oid_loop(k):
    return LoopSpec('components read so far, %s' % ('the first pair being one of them' if k else 'after the first pair'), [('numbers', Defined('l', lambda it, p: oid_numbers(it, p, k))), ('body', Defined('b', lambda it, p: oid_rest(it, p, k))),
        ('off', Defined('int', lambda it, p: s_add(it.c.extra['X'].PL(s_add(p, -k)), 1) if not k or it.c.decide(s_lt(0, p)) else 0))],
        lambda it, g, pos: [('no more than there are', s_le(pos, s_add(it.c.extra['X'].n, k)))], optional=('body', 'off'), ghost=True)
OIDW = [LoopSpec('components written so far', [('body', Defined('b', oid_head))], lambda it, g, pos: []),
        LoopSpec('components in the list so far', [('pieces', Defined('l', lambda it, p: rcat([it.c.extra['head']], norm('l', [('A', EncBase(it.c.extra['X']), 0, p)]))))], lambda it, g, pos: [])]
def oid(it):
    c = it.c; X = comps(it); f = c.fresh('first', 0, 2); s = c.fresh('second', 0, 39); c.extra.update(X=X, f=f, s=s)
    h = mk_pos(256, None, s_add(s_mul(40, f), s), 1); c.extra['head'] = h; body = rcat(h, X.body()); c.extra['body'] = body
    c.assume(s_le(ndigits(256, rlen(body)), 126)); return X, f, s, tlv(6, body)
@unit('C13', 'object identifiers of any number of components', loops=OIDW, contracts={D.encode_length: k_enc_len, D.encode_number: k_enc_item}, join_rule=join_rule, comp_rule=enc_comp, sum_rule=sum_rule, reach=['end'], cost=2)
def u15(it):
    X, f, s, w = oid(it)
    oblige_eq(it, 'tag, length, components', it.call(D.encode_oid, [f, s, Splat(X.value('t'))]), w)
@unit('C13', 'object identifiers of any number of components are read back', loops=[oid_loop(1), oid_loop(0)], contracts={D.read_number: k_read_item}, reach=['end'], cost=2)
def u16(it):
    c = it.c; X, f, s, w = oid(it); t = tail(it)
    v, rest = it.to_list(it.call(D.remove_object, [rcat(w, t)]))
    oblige_eq(it, 'components', norm('l', segs_of(v)), rcat([f, s], X.value())); oblige_eq(it, 'trailing bytes', rest, t)
