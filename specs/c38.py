"""C38: versions, targets, hex"""
from .common import *
from nbc import util as U
@unit('C38', 'versions unpack to what was packed; parts out of range are refused', reach=['packed', 'refused'])
def u1(it):
    c = it.c; p = [c.fresh(n) for n in ('major', 'minor', 'revision', 'build')]
    ok = s_and(*[s_and(s_le(0, x), s_lt(x, 100)) for x in p[1:]])
    try: v = it.call(U.make_version, p)
    except ProgExc as e: c.oblige('only parts out of range are refused', s_not(ok)); c.reach('refused'); return
    if not c.oblige('parts out of range are refused', ok): return
    c.oblige('packed as decimal fields', it.eqb(v, p[0] * 1000000 + p[1] * 10000 + p[2] * 100 + p[3]))
    r = it.to_list(it.call(U.get_version, [v]))
    c.oblige('the four numbers come back', s_and(len(r) == 4, *[it.eqb(a, b) for a, b in zip(r, p)])); c.reach('packed')
def target(lo, hi):
    def u2(it):
        c = it.c
        e = lo + c.choose(hi - lo); low = c.fresh('low', 0, (1 << 24) - 1)
        bits = s_add(low, e << 24); c.inputs['bits'] = bits
        m = s_divmod(low, 1 << 23)[1]
        t = s_divmod(s_mul(m, 256 ** e), 1 << 24)[0]
        if not c.decide(s_lt(t, 1 << 256)): return
        r = it.call(U.get_target, [bits])
        oblige_eq(it, 'target is the mantissa scaled by 256**(exponent-3)', r, mk_pos(256, None, t, 32)); c.reach('e')
    unit('C38', 'compact targets, exponent %d..%d' % (lo, hi - 1), reach=['e'])(u2)
for _lo in range(0, 256, 32): target(_lo, _lo + 32)
@unit('C38', 'reversed hex', reach=['end'])
def u3(it):
    c = it.c; x = whole(Sym('x', c.fresh('n', 0))); c.inputs['x'] = x
    h = it.call(U.bin_to_hex, [x])
    oblige_eq(it, 'hex digits of the reversed bytes', h, mk_pos(16, 'hex', val(x, le=True), s_mul(2, rlen(x))))
    oblige_eq(it, 'hex_to_bin inverts', it.call(U.hex_to_bin, [h]), x)
# ---- targets of headers
from pyvc.absl import Fn
from .proto import F, PK, field, STRUCTS
class AnyCoin(SObj):
    """a coin with some proof-of-work hash"""
    def s_getattr(self, it, a):
        if a == 'proof_of_work': return Fn(self.work)
        raise Unsupported('attribute %s of a coin' % a)
    def work(self, it, a, kw):
        e = it.c.extra; oblige_eq(it, 'the proof of work is that of the first eighty bytes', a[0], e['head']); return whole(e['work'])
def k_target(it, a, kw):
    e = it.c.extra; it.c.oblige('the target of the bits of the header', it.eqb(a[0], e['bits'])); return mk_pos(256, None, e['target'], 32)
for read in (0, 1):
    @unit('C38', 'a header meets its target exactly when the work, read little-endian, is at most that (%s)' % ('read from the wire' if read else 'built'), contracts={**PK.get('contracts', {}), U.get_target: k_target}, reach=['met', 'missed'], **{k: v for k, v in PK.items() if k != 'contracts'})
    def u4(it, read=read):
        c = it.c; e = c.extra; ps = [field(it, t, f, 0) for f, t in STRUCTS[F.BlockHeader]]; e['head'] = rcat(b'', *[p[1] for p in ps[:-1]])
        o = it.to_list(it.call_body(F.CompoundType.__dict__['parse'].__func__, [F.BlockHeader, rcat(b'', *[p[1] for p in ps])], {}))[1] if read else it.call(F.BlockHeader, [p[0] for p in ps])
        e['bits'] = it.getattr(o, 'bits'); e['work'] = Sym('work', 32); e['target'] = c.fresh('target', 0, (1 << 256) - 1)
        r = it.truth(it.call(U.verify_target, [AnyCoin(), o]))
        if c.decide(s_le(val(whole(e['work']), le=True), e['target'])): c.oblige_by('met', r is True, 'path', repr(r)); c.reach('met')
        else: c.oblige_by('not met', r is False, 'path', repr(r)); c.reach('missed')
