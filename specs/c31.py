"""C31: transaction, block and Merkle hashes"""
from .proto import *
from nbc import util
from pyvc.interp import SIter
def header(it, how): return [field(it, t, f, how) for f, t in STRUCTS[F.BlockHeader]]
for how in (0, 1):
    @unit('C31', 'a block header is hashed over its first 80 bytes%s' % (' (float timestamp)' if how else ''), reach=['end'], **PK)
    def u1(it, how=how):
        c = it.c; ps = header(it, how); o = it.call(F.BlockHeader, [p[0] for p in ps])
        want = sha256d(rcat(b'', *[p[1] for p in ps[:-1]])); c.oblige('eighty bytes', s_eq(rlen(rcat(b'', *[p[1] for p in ps[:-1]])), 80))
        oblige_eq(it, 'hash', it.getattr(o, 'hash'), want); oblige_eq(it, 'hash read again', it.getattr(o, 'hash'), want)
    @unit('C31', 'a transaction is hashed over its serialization%s' % (' (other argument forms)' if how else ''), reach=['end'], **PK)
    def u2(it, how=how):
        c = it.c; ps = [field(it, t, f, how) for f, t in STRUCTS[F.Txn]]; o = it.call(F.Txn, [p[0] for p in ps])
        want = sha256d(rcat(b'', *[p[1] for p in ps]))
        oblige_eq(it, 'hash', it.getattr(o, 'hash'), want); oblige_eq(it, 'hash read again', it.getattr(o, 'hash'), want)
        oblige_eq(it, 'serialization is unchanged by reading the hash', it.call(it.getattr(o, 'binary'), []), rcat(b'', *[p[1] for p in ps]))
    for cls in (F.Txn, F.BlockHeader):
        @unit('C31', 'hash of a %s read from the wire%s' % (cls.__name__, ' (other argument forms)' if how else ''), reach=['end'], **PK)
        def u3(it, how=how, cls=cls):
            ps = [field(it, t, f, how) for f, t in STRUCTS[cls]]; b = rcat(b'', *[p[1] for p in ps])
            l, o = it.to_list(it.call_body(fn_of(F.CompoundType, 'parse'), [cls, rcat(b, tail(it))], {}))
            want = sha256d(b if cls is F.Txn else rslice(b, 0, 80))
            for k in ('', ' read again'): oblige_eq(it, 'hash' + k, it.getattr(o, 'hash'), want)
@unit('C31', 'block header helper', reach=['end'])
def u4(it):
    ps = header(it, 0)
    oblige_eq(it, 'eighty header bytes', it.call(util.get_block_header, [p[0] for p in ps[:-1]]), rcat(b'', *[p[1] for p in ps[:-1]]))
# -- Merkle root
class Level(Base):
    """hashes of level k of the tree over the list"""
    elem_lo = elem_hi = None
    def __init__(self, k): self.k = k; self.n = nlev(k); self._key = ('level', k)
    def elem(self, i): return app('node', (self.k, i), 32)
    def value(self, kind='l'): return norm(kind, [('A', self, 0, self.n)])
def nlev(k):
    """number of hashes of level k"""
    c = core.CUR
    if isinstance(k, int) and k == 0: return c.extra['count']
    a, new = c.atom2(('nlev', k), 'nlev')
    if new:
        c.fact(s_le(1, a))
    return a
def node(k, i): return app('node', (k, i), 32)
def next_level(it, k):
    """specification of level k+1: hashes of pairs of level k, the last one paired with itself"""
    c = it.c; n = nlev(k); c.fact(s_eq(nlev(s_add(k, 1)), s_divmod(s_add(n, 1), 2)[0]))
def comp_rule(it, src, seq, elem):
    c = it.c
    i = c.fresh('i', 0, None, record=False); c.fact(s_lt(i, seq.n))
    e = elem(i)
    if kind_of(e) != 'b': return None
    a = is_app(e, 'node')
    if a is not None:
        if same(a[1], i) and c.quick(s_eq(seq.n, nlev(a[0]))): return Level(a[0]).value()
        return None
    for k in c.extra.get('levels', []):
        n = nlev(k); next_level(it, k)
        if not c.quick(s_eq(seq.n, nlev(s_add(k, 1)))): continue
        j = s_add(s_mul(2, i), 1); last = not c.decide(s_lt(j, n)); j2 = s_add(n, -1) if last else j
        want = sha256d(rcat(node(k, s_mul(2, i)), node(k, j2)))
        if c.quick(it.eqb(e, want)): return Level(s_add(k, 1)).value()
    return None
def expected(it, pos):
    if not any(same(pos, k) for k in it.c.extra['levels']): it.c.extra['levels'].append(pos)
    return Level(pos).value()
LOOP = LoopSpec('the hashes of one level', [('branches', Defined('l', expected))], lambda it, g, pos: [], ghost=True, variant=lambda it, g: rlen(g['branches']), hint=dict(branches=('branches',)))
def up(it):
    k = it.c.extra['levels'][-1]; next_level(it, k); return s_add(k, 1)
class Parents(object):
    """the hashes of the next level up to the loop position"""
    def fresh_at(self, it, name, pos): return subseq(Level(up(it)).value(), 0, pos)
    def view(self, it, v): return v if kind_of(v) == 'l' else None
    def check(self, it, v, pos):
        if isinstance(pos, int) and pos == 0: return s_eq(rlen(v), 0)
        w = self.fresh_at(it, '', pos)
        if len(segs_of(v)) == 1 and segs_of(v) == segs_of(w): return True
        k = s_add(up(it), -1); i = s_add(pos, -1)
        if not it.c.quick(s_eq(rlen(v), pos)): return False
        j = s_add(s_mul(2, i), 1); j2 = s_add(nlev(k), -1) if not it.c.decide(s_lt(j, nlev(k))) else j
        return s_and(it.eqb(rslice(v, 0, i), self.fresh_at(it, '', i)), it.eqb(rindex(v, i), sha256d(rcat(node(k, s_mul(2, i)), node(k, j2)))))
def level_loop(it, seq, s):
    if not isinstance(seq, SIter): return False
    return it.c.quick(s_eq(seq.n, nlev(up(it))))
LEVEL = LoopSpec('the next level', [('parents', Parents())], lambda it, g, pos: [], guard=level_loop)
class TxItem(Item):
    def s_getattr(self, it, a):
        if a == 'hash': return node(0, self.i)
        return Item.s_getattr(self, it, a)
for kind in 'lt':
    @unit('C31', 'the Merkle root of a %s of transactions' % dict(l='list', t='tuple')[kind], loops=[LOOP, LEVEL], comp_rule=comp_rule, reach=['end'])
    def u5(it, kind=kind):
        c = it.c; n = c.fresh('n', 1); c.extra['count'] = n; c.extra['levels'] = [0]
        X = AList('txns', n, cls=F.Txn, mkitem=lambda l, i: TxItem(l, i, F.Txn))
        r = it.call(util.get_merkle_root, [X.value(kind)])
        a = is_app(r, 'node') if kind_of(r) == 'b' else None
        if not c.oblige_by('the result is a hash of the tree', a is not None, 'path', repr(r)): return
        c.oblige('the only hash of its level', s_and(s_eq(nlev(a[0]), 1), s_eq(a[1], 0)))
# -- the hash functions
from nbc.util import hash as H
from pyvc.models import HC
def digest(it, name, x): return it.call(it.getattr(HC()[0](name, x), 'digest'), [])
for nm, spec in dict(sha1=lambda it, x: digest(it, 'sha1', x), sha256=lambda it, x: digest(it, 'sha256', x), sha256d=lambda it, x: digest(it, 'sha256', digest(it, 'sha256', x)),
                     ripemd160=lambda it, x: digest(it, 'ripemd160', x), hash160=lambda it, x: digest(it, 'ripemd160', digest(it, 'sha256', x))).items():
    for mod in (H, util):
        @unit('C31', '%s of any bytes (%s)' % (nm, mod.__name__), reach=['end'])
        def u9(it, nm=nm, spec=spec, mod=mod):
            x = whole(Sym('data', it.c.fresh('n', 0))); it.c.inputs['data'] = x; oblige_eq(it, nm, it.call(getattr(mod, nm), [x]), spec(it, x))
# -- made from a stored block
from nbc.protocol import messages as MS
from pyvc.absl import AObj
for cls, names in ((F.BlockHeader, ['version', 'prev_block', 'merkle_root', 'timestamp', 'bits', 'nonce', 'txn_count']), (MS.Block, ['version', 'prev_block', 'merkle_root', 'timestamp', 'bits', 'nonce', 'txns'])):
    @unit('C31', 'a %s made from a stored block' % cls.__name__, reach=['end'], **PK)
    def u10(it, cls=cls, names=names):
        c = it.c; fs = dict((f, field(it, t, f, 0)[0]) for f, t in (STRUCTS[F.BlockHeader] if cls is F.BlockHeader else MESSAGES["block"]))
        b = {('previous_hash' if f == 'prev_block' else 'transactions' if f == 'txns' else f): v for f, v in fs.items()}
        if cls is F.BlockHeader: n = b.pop('txn_count'); b['transactions'] = norm('l', [('A', Sym('transactions', n, 0, None), 0, n)])
        o = it.call(cls.__dict__['from_block'].__func__, [AObj(**b)])
        c.oblige_by('of its kind', type(o) is cls, 'path', repr(o))
        for f in names: c.oblige(f, it.eqb(it.getattr(o, f), fs[f]) if f != 'txns' else it.eqb(norm('l', segs_of(it.getattr(o, f))), norm('l', segs_of(fs[f]))))
