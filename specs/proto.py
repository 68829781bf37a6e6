"""Shared contracts of the protocol format types"""
from .common import *
from pyvc.absl import *
from pyvc import absl
from nbc.protocol import format as F, messages as M
def varint(n):
    """the bytes of a count, by cases (specification)"""
    c = core.CUR
    if c.decide(s_lt(n, 0xfd)): return mk_pos(256, None, n, 1)
    if c.decide(s_le(n, 0xffff)): return rcat(b'\xfd', mk_pos(256, None, n, 2, le=True))
    if c.decide(s_le(n, 0xffffffff)): return rcat(b'\xfe', mk_pos(256, None, n, 4, le=True))
    return rcat(b'\xff', mk_pos(256, None, n, 8, le=True))
def avarint(n):
    """the bytes of a count, abstractly (contract of FtVarInteger proved under C26)"""
    c = core.CUR; w, new = c.atom2(('wvar', n), 'wvar')
    if new: c.fact(s_or(*[s_eq(w, k) for k in (1, 3, 5, 9)]))
    return whole(App('varint', (n,), w))
def k_varint_parse(it, a, kw):
    s = segs_of(a[-1])
    if s and s[0][0] == 'A' and isinstance(s[0][1], App) and s[0][1].fn == 'varint' and same(s[0][2], 0) and same(s[0][3], s[0][1].n):
        it.c.trust('contract of FtVarInteger (proved under C26)'); return (s[0][1].n, s[0][1].args[0])
    return it.call_body(fn_of(F.FtVarInteger, 'parse'), a, kw)
def tail(it, name='rest'): return whole(Sym(name, it.c.fresh('n_' + name, 0, record=False)))
def sbytes(it, name, n=None, lo=0):
    if n is None: n = it.c.fresh('n_' + name, lo, record=False)
    r = whole(Sym(name, n)); it.c.inputs[name] = r
    return r
def orig(fn):
    """call the real body"""
    return lambda it, a, kw: it.call_body(fn, a, kw)
def fn_of(cls, name):
    v = None
    for k in cls.__mro__:
        if name in k.__dict__: v = k.__dict__[name]; break
    return v.__func__ if isinstance(v, (classmethod, staticmethod)) else v
def parse_loop(lst, base):
    """loop that reads the items of lst(it); base(it) = number of bytes before the first item, data(it) = the input"""
    exp = lambda f: lambda it, pos: f(it, pos)
    roles = [('ret', Defined('l', lambda it, p: lst(it).upto(p))),
             ('off', Defined('int', lambda it, p: s_add(base(it), lst(it).PL(p)))),
             ('index', Defined('int', lambda it, p: p)), ('left', Defined('int', lambda it, p: s_add(lst(it).n, -p))),
             ('used', Defined('int', lambda it, p: lst(it).PL(p))), ('data', Defined('b', lambda it, p: rslice(it.c.extra['input'], s_add(base(it), lst(it).PL(p)), None)))]
    inv = lambda it, g, pos: [('within the count', s_le(pos, lst(it).n))]
    return LoopSpec('items read so far', roles, inv, optional=('off', 'index', 'left', 'used', 'data'), ghost=True, hint=dict(index=('i',)))
# -- ip addresses: the text of sixteen bytes (contracts proved under C27)
class IpText(Opaque):
    def s_truth(self, it): return True
    def s_isinstance(self, it, t): return issubclass(str, t)
def iptext(x):
    o = IpText(('iptext', x), str); o.bytes = x; return o
def k_ip_validate(it, a, kw):
    if isinstance(a[-1], IpText): return a[-1]
    return it.call_body(fn_of(F.FtIPAddress, 'validate'), a, kw)
def k_ip_binary(it, a, kw):
    it.c.trust('contract of FtIPAddress (proved under C27): the text read from sixteen bytes is valid and is written as those bytes')
    if isinstance(a[-1], IpText): return a[-1].bytes
    return it.call_body(fn_of(F.FtIPAddress, 'binary'), a, kw)
def k_ip_parse(it, a, kw):
    d = a[-1]
    if not it.c.decide(s_le(16, rlen(d))): raise ProgExc(ValueError('unpack requires a buffer of 16 bytes'))
    return (16, iptext(rslice(d, 0, 16)))
IPC = {fn_of(F.FtIPAddress, n): k for n, k in (('validate', k_ip_validate), ('binary', k_ip_binary), ('parse', k_ip_parse))}
# ------------------------------------------------------------------ structures and messages (specification tables)
U32, I32, U64, I64, U16, U8 = ('n', 'I'), ('n', 'i'), ('n', 'Q'), ('n', 'q'), ('n', 'H'), ('n', 'B')
STRUCTS = {
 F.NetworkAddress: [('timestamp', ('n', 'I', True)), ('services', U64), ('address', ('ip',)), ('port', ('N', 'H'))],
 F.InventoryVector: [('object_type', U32), ('hash', ('b', 32))],
 F.OutPoint: [('hash', ('b', 32)), ('index', U32)],
 F.TxnIn: [('previous_output', ('c', F.OutPoint)), ('signature_script', ('s',)), ('sequence', U32)],
 F.TxnOut: [('value', I64), ('pk_script', ('s',))],
 F.Txn: [('version', U32), ('tx_in', ('a', F.TxnIn, 1)), ('tx_out', ('a', F.TxnOut, 1)), ('lock_time', U32)],
 F.BlockHeader: [('version', U32), ('prev_block', ('b', 32)), ('merkle_root', ('b', 32)), ('timestamp', ('n', 'I', True)), ('bits', U32), ('nonce', U32), ('txn_count', ('v',))],
}
INV = [('inventory', ('a', F.InventoryVector, 0, 50000))]
LOC = [('version', U32), ('block_locator_hashes', ('a', 32, 1)), ('hash_stop', ('b', 32))]
MESSAGES = {
 'version': [('version', I32), ('services', U64), ('timestamp', ('n', 'q', True)), ('addr_recv', ('c0', F.NetworkAddress)), ('addr_from', ('c0', F.NetworkAddress)),
             ('nonce', ('b', 8)), ('user_agent', ('s',)), ('start_height', I32), ('relay', U8)],
 'verack': [], 'getaddr': [], 'mempool': [], 'addr': [('addr_list', ('a', F.NetworkAddress, 0, 1000))], 'inv': INV, 'getdata': INV, 'notfound': INV,
 'getblocks': LOC, 'getheaders': LOC, 'tx': STRUCTS[F.Txn],
 'block': [('version', U32), ('prev_block', ('b', 32)), ('merkle_root', ('b', 32)), ('timestamp', ('n', 'I', True)), ('bits', U32), ('nonce', U32), ('txns', ('a', F.Txn, 0))],
 'headers': [('headers', ('a', F.BlockHeader, 0))], 'ping': [('nonce', ('b', 8))], 'pong': [('nonce', ('b', 8))],
 'reject': [('message', ('s',)), ('ccode', U8), ('reason', ('s',))], 'alert': [('payload', ('s',)), ('signature', ('s',))],
}
MSGCLS = {'version': M.Version, 'verack': M.VersionAck, 'getaddr': M.GetAddress, 'mempool': M.MemoryPool, 'addr': M.Address, 'inv': M.Inventory, 'getdata': M.GetData,
  'notfound': M.NotFound, 'getblocks': M.GetBlocks, 'getheaders': M.GetHeaders, 'tx': M.Transaction, 'block': M.Block, 'headers': M.Headers, 'ping': M.Ping, 'pong': M.Pong, 'reject': M.Reject, 'alert': M.Alert}
WIDTH = dict(b=1, B=1, h=2, H=2, i=4, I=4, q=8, Q=8)
def limits(f):
    w = 8 * WIDTH[f]
    return (-(1 << w - 1), (1 << w - 1) - 1) if f.islower() else (0, (1 << w) - 1)
class Float(SObj):
    """a finite float: floor, and whether it is an integer"""
    _cls = float
    def __init__(self, name):
        c = core.CUR; self.fl = c.fresh(name + '_floor'); self.frac = c.fresh(name + '_frac', 0, 1)
    def trunc(self):
        return self.fl if core.CUR.decide(s_or(s_le(0, self.fl), s_eq(self.frac, 0))) else s_add(self.fl, 1)
    def s_cmp(self, it, op, l, r):
        x, o = (r, op) if l is self else (l, {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}[op])
        if not is_int(x): raise Unsupported('float comparison')
        if o == 'Lt': return s_lt(self.fl, x)
        if o == 'GtE': return s_le(x, self.fl)
        if o == 'LtE': return s_or(s_lt(self.fl, x), s_and(s_eq(self.fl, x), s_eq(self.frac, 0)))
        return s_not(self.s_cmp(it, 'LtE', self, x))
    def s_int(self, it, base): return self.trunc()
def field(it, kind, nm, how=0):
    """(value, bytes, value read back) of an arbitrary valid field value; how: text for strings, floats for timestamps, tuples for lists"""
    c = it.c; k = kind[0]
    if k in 'nN':
        lo, hi = limits(kind[1]); w = WIDTH[kind[1]]
        if how and len(kind) > 2:
            v = Float(nm); c.assume(s_le(lo, v.fl)); c.assume(s_le(v.fl, hi)); x = v.trunc()
        else: v = x = c.fresh(nm, lo, hi)
        return v, mk_pos(256, None, s_divmod(x, 1 << 8 * w)[1], w, le=k == 'n'), x
    if k == 'b': v = sbytes(it, nm, kind[1]); return v, v, v
    if k == 'ip': b = sbytes(it, nm, 16); v = iptext(b); return v, b, v
    if k == 's':
        n = c.fresh('n_' + nm, 0, (1 << 64) - 1); b = sbytes(it, nm, n)
        return (norm('s', segs_of(b)) if how else b), rcat(varint(n), b), b
    if k == 'v': v = c.fresh(nm, 0, (1 << 64) - 1); return v, varint(v), v
    if k in ('c', 'c0'):
        parts = [field(it, t, nm + '.' + f, how) for f, t in STRUCTS[kind[1]]]
        v = it.call(kind[1], [p[0] for p in parts])
        bs = [p[1] for p in parts]; rs = [p[2] for p in parts]
        if k == 'c0': bs, rs = bs[1:], [0] + rs[1:]
        return v, rcat(b'', *bs), ('struct', kind[1], rs)
    if k == 'a':
        n = c.fresh('n_' + nm, kind[2], kind[3] if len(kind) > 3 else (1 << 64) - 1)
        if kind[2] == 0 and c.decide(s_eq(n, 0)):
            e = () if how else it.note_alloc([]); return e, b'\0', it.note_alloc([])
        if isinstance(kind[1], int):
            mk = lambda l, i: norm('b', [('A', l.enc, s_mul(l.width, i), l.width)])
            X = AList(nm, n, width=kind[1], mkitem=mk)
        else: X = AList(nm, n, cls=kind[1])
        X.elem_cls = kind[1]
        return X.value('t' if how else 'l'), rcat(varint(n), X.body()), X.value('l')
    raise Unsupported(kind)
def check_read(it, what, v, want):
    """the value read back is the one written"""
    c = it.c
    if isinstance(want, tuple) and want and want[0] == 'struct':
        if not c.oblige_by(what + ': type', type(v) is want[1], 'path', repr(type(v))): return
        for (f, t), w in zip(STRUCTS[want[1]], want[2]): check_read(it, what + '.' + f, it.getattr(v, f), w)
        return
    if kind_of(want) == 'l':
        if kind_of(v) not in ('l', 't'): c.oblige_by(what + ' is a list', False, 'path', repr(v)); return
        v = norm('l', segs_of(v))
    oblige_eq(it, what, v, want)
# contracts used by callers; each is proved where it is named
def k_compound_parse(it, a, kw):
    cls, d = a
    r = find_item(d)
    if r is not None and r[0].elem_cls is cls:
        it.c.trust('contract of CompoundType.parse on list elements (proved under C28 for each element type)')
        return (r[0].EL(r[1]), r[0].item(r[1]))
    return it.call_body(fn_of(F.CompoundType, 'parse'), a, kw)
def k_parse_var_set(it, a, kw):
    d, kind = a; s = segs_of(d)
    for j, g in enumerate(s):
        if g[0] != 'A' or g[1] not in it.c.memo.get('alists', {}) or not same(g[2], 0): continue
        X = it.c.memo['alists'][g[1]]; pre = norm('b', s[:j])
        if not it.c.quick(s_eq(g[3], X.total)): break
        if not it.c.quick(it.eqb(pre, avarint(X.n))) and not it.c.quick(it.eqb(pre, varint(X.n))): break
        # the child must be a parser of these elements
        if X.n is not None and it.c.quick(s_lt(0, X.n)) or it.c.decide(s_lt(0, X.n)):
            first = norm('b', [('A', X.enc, 0, X.EL(0))])
            l, v = it.to_list(it.call(it.getattr(kind, 'parse'), [rcat(first, tail(it, 'after'))]))
            if not it.c.quick(s_and(s_eq(l, X.EL(0)), it.eqb(v, X.item(0)))): raise Unsupported('element parser')
        it.c.trust('contract of parse_var_set (proved under C26)')
        return (s_add(rlen(pre), X.total), X.value('l'))
    return it.call_body(F.parse_var_set, a, kw)
def allvalid_comp(it, src, seq, elem):
    """[f(x) for x in items] keeps the items on which f is the identity; explicit elements are mapped one by one"""
    c = it.c
    if not (isinstance(src, Rope) and any(g[0] == 'A' and isinstance(g[1], ItemBase) for g in src.segs)): return None
    at = 0; out = []
    for g in src.segs:
        n = seglen(g)
        if g[0] == 'L':
            for j in range(len(g[1])): out.append(('L', (elem(s_add(at, j)),)))
        elif c.quick(s_lt(0, n)) or not c.decide(s_eq(n, 0)):
            i = c.fresh('any_i', 0, None, record=False); c.fact(s_lt(i, n))
            x = rindex(src, s_add(at, i)); e = elem(s_add(at, i))
            if e is None or not c.quick(it.eqb(e, x)): return None
            out.append(g)
        at = s_add(at, n)
    return norm('l', out) if out else it.note_alloc([])
PC = dict(IPC); PC.update({fn_of(F.CompoundType, 'parse'): k_compound_parse, F.parse_var_set: k_parse_var_set})
# a loop over the elements of an abstract list that checks them, or writes them
def over(it, seq, s, one):
    u = it.cur_seq
    return isinstance(u, Rope) and u.kind in 'lt' and any(g[0] == 'A' and isinstance(g[1], ItemBase) for g in u.segs) and (not one or len(u.segs) == 1)
def lst_of(it): return it.cur_seq.segs[0][1].lst
def no_bad(it, g, pos):
    at = it.c.extra.get('bad_at'); u = it.cur_seq
    return [('every element so far is valid', s_le(pos, at))] if at is not None and any(g[0] == 'L' for g in u.segs) else []
CHECKED = [LoopSpec('elements checked', [('out', Grown('l', lambda it, p: subseq(it.cur_seq, 0, p)))], no_bad, guard=lambda it, seq, s: over(it, seq, s, False)),
           LoopSpec('elements checked, nothing kept', [], no_bad, guard=lambda it, seq, s: over(it, seq, s, False))]
WRITTEN = [LoopSpec('elements written', [('out', Grown('b', lambda it, p: subseq(lst_of(it).body(), 0, lst_of(it).PL(p))))], lambda it, g, pos: [], guard=lambda it, seq, s: over(it, seq, s, True)),
           LoopSpec('elements written as pieces', [('out', Grown('l', lambda it, p: norm('l', [('A', EncBase(lst_of(it)), 0, p)])))], lambda it, g, pos: [], guard=lambda it, seq, s: over(it, seq, s, True))]
PK = dict(contracts=PC, join_rule=join_rule, comp_rule=allvalid_comp, loops=CHECKED + WRITTEN)
