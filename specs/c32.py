"""C32: alert payloads"""
from .proto import *
from nbc import util
from nbc.util import ecc
FIELDS = ['version', 'relay_until', 'expiration', 'id', 'cancel', 'set_cancel', 'min_ver', 'max_ver', 'set_sub_ver', 'priority', 'comment', 'status_bar', 'reserved']
def num(it, nm, f):
    v, b, _ = field(it, ('n', f), nm); return v, b
def k_string(it, a, kw):
    """contract of FtVarString.parse on the elements of a list (proved under C26)"""
    d = a[-1]; r = find_item(d)
    if r is not None and r[0].elem_cls == 'string':
        it.c.trust('contract of FtVarString.parse (proved under C26)'); return (r[0].EL(r[1]), r[0].item(r[1]))
    return it.call_body(fn_of(F.FtVarString, 'parse'), a, kw)
class Text(Item):
    def s_isinstance(self, it, t): return issubclass(bytes, t)
def alert(it):
    c = it.c; vals = {}; parts = []
    for nm, f in (('version', 'i'), ('relay_until', 'q'), ('expiration', 'q'), ('id', 'i'), ('cancel', 'i')):
        v, b = num(it, nm, f); vals[nm] = v; parts.append(b)
    n = c.fresh('n_cancels', 0, (1 << 64) - 1)
    def mkint(l, i):
        u = val_(norm('b', [('A', l.enc, s_mul(4, i), 4)]), 256, None, True); return s_add(s_divmod(s_add(u, 1 << 31), 1 << 32)[1], -(1 << 31))
    X = AList('cancels', n, width=4, mkitem=mkint); X.elem_cls = int; vals['set_cancel'] = X.value('l'); parts += [avarint(n), X.body()]
    for nm in ('min_ver', 'max_ver'):
        v, b = num(it, nm, 'i'); vals[nm] = v; parts.append(b)
    m = c.fresh('n_subvers', 0, (1 << 64) - 1)
    Y = AList('subvers', m, cls=bytes, mkitem=lambda l, i: Text(l, i, bytes)); Y.elem_cls = 'string'; vals['set_sub_ver'] = Y.value('l'); parts += [avarint(m), Y.body()]
    v, b = num(it, 'priority', 'i'); vals['priority'] = v; parts.append(b)
    for nm in ('comment', 'status_bar', 'reserved'):
        n = c.fresh('n_' + nm, 0, (1 << 64) - 1); v = sbytes(it, nm, n); vals[nm] = v; parts.append(rcat(avarint(n), v))
    return rcat(b'', *parts), vals
K = dict(PC); K[fn_of(F.FtVarString, 'parse')] = k_string; K[fn_of(F.FtVarInteger, 'parse')] = k_varint_parse
def check(it, o, nm, vals, what):
    got = it.getattr(o, nm); want = vals[nm]
    if kind_of(want) == 'l': 
        if not it.c.oblige_by(what + ' is a list', kind_of(got) in ('l', 't'), 'path', repr(got)): return
        got = norm('l', segs_of(got))
    oblige_eq(it, what, got, want)
for k in range(len(FIELDS)):
    @unit('C32', 'reading %s first, then every field' % FIELDS[k], reach=['end'], contracts=K, max_forks=400, max_paths=5000, time=250)
    def u1(it, k=k):
        c = it.c; p, vals = alert(it); c.assume(s_lt(rlen(p), 1 << 32)); p = rcat(p, tail(it))
        s = sbytes(it, 'signature'); c.assume(s_lt(rlen(p), 1 << 64)); c.assume(s_lt(rlen(s), 1 << 64))
        o = it.call(M.Alert, [p, s])
        check(it, o, FIELDS[k], vals, FIELDS[k])
        for nm in FIELDS: check(it, o, nm, vals, nm + ' read later')
        oblige_eq(it, 'payload unchanged', it.getattr(o, 'payload'), p)
@unit('C32', 'an alert verifies exactly when its signature is valid for its payload', reach=['end'])
def u2(it):
    c = it.c; p, s, k = sbytes(it, 'payload'), sbytes(it, 'signature'), sbytes(it, 'key'); o = it.call(M.Alert, [p, s])
    def ver(it, a, kw):
        c.trust('contract of ecc.verify: valid for the double SHA-256 of its first argument (C11)')
        d = dict(zip(('data', 'public_key', 'signature'), a)); d.update(kw); return app_bool(it, d['data'], d['public_key'], d['signature'])
    it.contracts[ecc.verify] = ver
    r = it.call(it.getattr(o, 'verify'), [k]); c.oblige('verdict', s_iff(r if isinstance(r, (bool, SBool)) else it.truth(r), app_bool(it, p, k, s)))
def app_bool(it, *a):
    x, new = it.c.atom2(('verifies',) + a, 'verifies')
    if new: it.c.fact(s_and(s_le(0, x), s_le(x, 1)))
    return s_eq(x, 1)
