"""C30: fields are validated on construction"""
from .proto import *
import itertools
NAN, INF = float('nan'), float('inf')
def candidates(kind):
    """names of the argument forms tried for a field; every one with all its values"""
    out = ['int', 'float', 'nan', 'inf', '-inf', 'bytes', 'text', 'None', 'object', 'struct']
    if kind[0] == 'a': out += ['list', 'tuple', 'bad element', 'bad tuple element']
    if kind[0] == 'ip': out.remove('text'); out += ['address']
    return out
def valid_struct(cls): return Opaque(('a valid', cls.__name__), cls)
class Inst(Opaque):
    def s_isinstance(self, it, t): return issubclass(self._cls, t)
def candidate(it, kind, how):
    """(argument, is it valid)"""
    c = it.c; k = kind[0]; num = k in 'nN'
    if how == 'int':
        v = c.fresh('v')
        if num: lo, hi = limits(kind[1]); return v, s_and(s_le(lo, v), s_le(v, hi))
        return v, s_and(s_le(0, v), s_lt(v, 1 << 64)) if k == 'v' else False
    if how == 'float':
        v = Float('v')
        if num and len(kind) > 2: lo, hi = limits(kind[1]); return v, s_and(s_le(lo, v.fl), s_le(v.fl, hi))
        return v, False
    if how in ('nan', 'inf', '-inf'): return dict(nan=NAN, inf=INF)[how.strip('-')] * (-1 if how[0] == '-' else 1), False
    if how == 'bytes':
        b = sbytes(it, 'v'); return b, s_eq(rlen(b), kind[1]) if k == 'b' else k == 's'
    if how == 'text':
        b = whole(Sym('v', c.fresh('n_v', 0)), 's'); c.inputs['v'] = b; return b, k == 's'
    if how == 'None': return None, False
    if how == 'object': return Inst(('an object',), object), False
    if how == 'struct':
        j = c.choose(len(STRUCTS)); cls = list(STRUCTS)[j]; return Inst(('a valid', cls.__name__), cls), (k == 'c' and kind[1] is cls) or (k == 'c0' and cls is F.NetworkAddress)
    if how == 'address': return iptext(sbytes(it, 'v', 16)), True
    n = c.fresh('n_v', 0); mk = None
    if isinstance(kind[1], int): X = AList('v', n, width=kind[1], mkitem=lambda l, i: norm('b', [('A', l.enc, s_mul(l.width, i), l.width)]))
    else: X = AList('v', n, cls=kind[1])
    X.elem_cls = kind[1]; lo = kind[2]; hi = kind[3] if len(kind) > 3 else None
    if how in ('list', 'tuple'): return X.value(how[0]), s_and(s_le(lo, n), True if hi is None else s_le(n, hi))
    at = c.extra['bad_at'] = c.fresh('at', 0); c.assume(s_le(at, n)); bad = [None, 7, b'', Inst(('a', 'wrong'), F.OutPoint if kind[1] is not F.OutPoint else F.TxnIn), Inst(('an object',), object)][c.choose(5)]
    if kind[1] == 32 and bad == b'': bad = sbytes(it, 'bad'); c.assume(s_not(s_eq(rlen(bad), 32)))
    return norm('t' if 'tuple' in how else 'l', segs_of(X.upto(at)) + [('L', (bad,))] + [('A', X.items, at, s_add(n, -at))]), False
def k_isvalid(it, a, kw): return it.call_body(fn_of(F.FtCompoundType, 'validate'), a, kw)
def default(it, kind, f):
    """a valid value for the other fields"""
    if kind[0] in ('c', 'c0'): return Inst(('a valid', (kind[1]).__name__), kind[1])
    return field(it, kind, f)[0]
def k_ip(it, a, kw):
    o = a[-1]
    if isinstance(o, IpText): return o
    if kind_of(o) == 's': raise Unsupported('address text (C27)')
    return it.call_body(fn_of(F.FtIPAddress, 'validate'), a, kw)
PK3 = dict(PK); PK3['contracts'] = dict(PC); PK3['contracts'][fn_of(F.FtIPAddress, 'validate')] = k_ip
SPECS = [(cls.__name__, cls, fs) for cls, fs in STRUCTS.items()] + [(n + ' message', MSGCLS[n], fs) for n, fs in MESSAGES.items() if fs]
for nm, cls, fs in SPECS:
    @unit('C30', '%s: any value in any field' % nm, reach=['built', 'refused'], max_forks=200, max_paths=20000, **PK3)
    def u1(it, cls=cls, fs=fs):
        c = it.c; j = c.choose(len(fs)); f, kind = fs[j]; hs = candidates(kind); how = hs[c.choose(len(hs))]
        c.inputs['field'] = f; c.inputs['form'] = how; c.inputs['class'] = cls.__name__
        v, ok = candidate(it, kind, how)
        args = [v if i == j else default(it, t, g) for i, (g, t) in enumerate(fs)]
        optional = (cls is M.Version and f == 'relay')
        try: o = it.call(cls, args)
        except ProgExc as e:
            c.oblige('%s (%s): a valid value is accepted' % (f, how), s_not(ok) if not optional else False); c.reach('refused'); return
        got = it.getattr(o, f); c.reach('built')
        if optional and not c.decide(ok): c.oblige_by('an invalid relay flag takes the default', got is True, 'path', repr(got)); return
        if not c.oblige('%s (%s): an invalid value is refused' % (f, how), ok): return
        if how in ('list', 'tuple'):
            c.oblige_by('lists are stored as immutable tuples', kind_of(got) == 't' or isinstance(got, tuple), 'path', repr(got))
            oblige_eq(it, '%s stored' % f, norm('l', segs_of(got)), norm('l', segs_of(v)))
        elif isinstance(v, SObj): c.oblige_by('%s stored' % f, got is v, 'path', repr(got))
        else: oblige_eq(it, '%s stored' % f, got, v)
@unit('C30', 'every field is given exactly once', reach=['built', 'refused'], max_paths=20000)
def u2(it):
    c = it.c
    def child(i): return AObj(validate=Fn(lambda it, a, kw: validate(it, i, a[0])), binary=Fn(lambda it, a, kw: b'%d' % i))
    seen = {}
    def validate(it, i, v):
        r = it.c.choose(3); seen[i] = (v, r)
        if r == 0: return Opaque(('checked', i))
        if r == 1: return None
        raise ProgExc(ValueError('invalid'))
    cls = type('Spec', (F.CompoundType,), dict(properties=[('f%d' % i, child(i)) for i in range(3)]))
    cls.__module__ = 'nbc.protocol.spec'
    npos = c.choose(5); names = ['f0', 'f1', 'f2', 'other']; m = c.choose(16); kws = [n for b, n in enumerate(names) if m >> b & 1]
    args = [Opaque(('arg', i)) for i in range(npos)]; kw = {n: Opaque(('kw', n)) for n in kws}
    once = npos <= 3 and 'other' not in kws and sorted(['f%d' % i for i in range(npos)] + kws) == ['f0', 'f1', 'f2']
    try: o = it.call(cls, args, kw)
    except ProgExc as e:
        c.oblige_by('a complete and valid set of fields is accepted', not (once and len(seen) == 3 and all(r == 0 for _, r in seen.values())), 'path', '%d positional, %s' % (npos, kws)); c.reach('refused'); return
    c.reach('built')
    c.oblige_by('every field exactly once', once, 'path', '%d positional, %s' % (npos, kws))
    for i in range(3):
        if not c.oblige_by('field %d is validated and valid' % i, i in seen and seen[i][1] == 0, 'path'): continue
        c.oblige_by('field %d is what was given' % i, seen[i][0] is (args[i] if i < npos else kw.get('f%d' % i)), 'path')
        c.oblige_by('field %d is the validated value' % i, it.truth(it.eqb(it.getattr(o, 'f%d' % i), Opaque(('checked', i)))), 'path')
    oblige_eq(it, 'serialized in the order of the fields', it.call(fn_of(F.CompoundType, 'binary'), [o]), b'012')
