"""C29: only well-formed messages are accepted"""
from .proto import *
from .c28 import frame
@unit('C29', 'the registered message types', reach=['end'])
def u1(it):
    c = it.c; reg = M.Message.MessageTypes
    c.oblige_by('exactly the documented commands are registered', sorted(reg) == sorted(MSGCLS), 'evaluation', repr(sorted(reg)))
    for k in MSGCLS:
        c.oblige_by('%s: type' % k, reg.get(k) is MSGCLS[k] and MSGCLS[k].command == k, 'evaluation')
    for k in ('filterload', 'filteradd', 'filterclear', 'merkleblock'): c.oblige_by('%s is not registered' % k, k not in reg, 'evaluation')
def any_parse(it, a, kw):
    """contract of the field parser (next unit): a message or a parameter error"""
    cls, d = a; it.c.extra['payload'] = d
    if it.c.decide(s_eq(it.c.fresh('wellformed', 0, 1), 1)):
        o = it.native(cls.__new__, [cls], {}); it.note_alloc(o); it.setattr(o, '_properties', it.note_alloc({})); it.c.extra['msg'] = o
        return (it.c.fresh('used', 0, record=False), o)
    raise ProgExc(F.ParameterError('field', b''))
@unit('C29', 'acceptance of a frame', reach=['accepted', 'format', 'unknown', 'parameter'], contracts={fn_of(F.CompoundType, 'parse'): any_parse}, max_forks=400, max_paths=20000)
def u2(it):
    c = it.c; magic = sbytes(it, 'magic', 4); m = sbytes(it, 'm', 4); n = c.fresh('n', 0, (1 << 32) - 1)
    cmd = mk_seq('b', [c.fresh('cmd%d' % i, 0, 255) for i in range(12)]); c.inputs['cmd'] = cmd
    chk = sbytes(it, 'chk', 4); p = sbytes(it, 'payload', n)
    fr = rcat(m, cmd, mk_pos(256, None, n, 4, le=True), chk, p, tail(it))
    good = it.eqb(m, magic); sumok = it.eqb(chk, subseq(sha256d(p), 0, 4))
    names = lambda k: s_or(*[it.eqb(cmd, b'\0' * j + k.encode() + b'\0' * (12 - j - len(k))) for j in range(13 - len(k))])
    try: r = it.call(fn_of(M.Message, 'parse'), [M.Message, fr, magic])
    except ProgExc as e:
        x = e.exc
        if isinstance(x, M.MsgFormatError): c.oblige('a format error is a bad magic or checksum', s_not(s_and(good, sumok))); c.reach('format')
        elif isinstance(x, M.UnknownMsgError):
            c.oblige('the checks of magic and checksum come first', s_and(good, sumok))
            c.oblige('an unknown message has an unregistered command', s_not(s_or(*[it.eqb(cmd, k.encode() + b'\0' * (12 - len(k))) for k in MSGCLS]))); c.reach('unknown')
        elif isinstance(x, F.ParameterError):
            c.oblige('only for well-framed messages', s_and(good, sumok)); c.reach('parameter')
            c.oblige_by('raised while the payload was parsed', 'payload' in c.extra and c.quick(it.eqb(c.extra['payload'], p)), 'path')
        else: c.oblige_by('refused with the documented error', False, 'path', repr(x))
        return
    c.oblige('the magic matches', good); c.oblige('the checksum matches', sumok)
    if not c.oblige_by('the payload was parsed', 'msg' in c.extra and r is c.extra['msg'], 'path', repr(r)): return
    oblige_eq(it, 'exactly the payload was parsed', c.extra['payload'], p)
    t = type(r)
    if not c.oblige_by('a registered type', t in MSGCLS.values() and MSGCLS.get(t.command) is t, 'path', repr(t)): return
    c.oblige('the command names the type', names(t.command)); c.reach('accepted')
class Trunc(object): pass
def k_pvs_cut(it, a, kw):
    d, kind = a
    for j, g in enumerate(segs_of(d)):
        if g[0] == 'A' and g[1] in it.c.memo.get('alists', {}):
            X = it.c.memo['alists'][g[1]]; pre = norm('b', segs_of(d)[:j])
            if not it.c.quick(it.eqb(pre, varint(X.n))): raise Unsupported('count')
            if it.c.decide(s_lt(g[3], X.total)):
                it.c.trust('contract of parse_var_set: a list cut short is refused (proved under C26)')
                raise ProgExc(ValueError('truncated list'))
            break
    return k_parse_var_set(it, a, kw)
PK2 = dict(PK); PK2['contracts'] = dict(PC); PK2['contracts'][F.parse_var_set] = k_pvs_cut
for name in MESSAGES:
    if not MESSAGES[name]: continue
    @unit('C29', '%s message cut short' % name, reach=['refused'], max_forks=200, max_paths=20000, **PK2)
    def u3(it, name=name):
        c = it.c; magic = sbytes(it, 'magic', 4); cls = MSGCLS[name]
        ps = [field(it, t, f) for f, t in MESSAGES[name]]; want = rcat(b'', *[p[1] for p in ps])
        cut = c.fresh('cut', 0); c.assume(s_lt(cut, rlen(want))); c.assume(s_lt(rlen(want), 1 << 32))
        norelay = name == 'version' and c.decide(s_eq(cut, s_add(rlen(want), -1)))
        try: it.call(fn_of(M.Message, 'parse'), [M.Message, frame(magic, name, rslice(want, 0, cut)), magic])
        except ProgExc as e:
            c.oblige_by('refused with a parameter error', isinstance(e.exc, F.ParameterError), 'path', repr(e.exc)); c.oblige_by('a version without relay byte is complete', not norelay, 'path'); c.reach('refused'); return
        c.oblige_by('a message cut short is refused', norelay, 'path', 'accepted')
@unit('C29', 'any failure of a field parser is a parameter error', reach=['refused', 'read'])
def u4(it):
    c = it.c; n = 3
    def mk(i):
        def parse(it, a, kw):
            oblige_eq(it, 'field %d starts where the previous one ended' % i, a[0], subseq(d, off[0], rlen(d)))
            if it.c.decide(s_eq(it.c.fresh('ok%d' % i, 0, 1), 1)):
                used = it.c.fresh('used%d' % i, 0, record=False); off[0] = s_add(off[0], used); it.c.assume(s_le(off[0], rlen(d))); v = Opaque(('value', i)); return (used, v)
            raise ProgExc([ValueError, IndexError, KeyError][i]('bad'))
        return AObj(parse=Fn(parse))
    d = sbytes(it, 'd'); off = [0]
    cls = type('Spec', (F.CompoundType,), dict(properties=[('f%d' % i, mk(i)) for i in range(n)]))
    try: l, o = it.to_list(it.call_body(fn_of(F.CompoundType, 'parse'), [cls, d], {}))
    except ProgExc as e: c.oblige_by('a parameter error', isinstance(e.exc, F.ParameterError), 'path', repr(e.exc)); c.reach('refused'); return
    c.oblige('bytes used', s_eq(l, off[0])); c.oblige_by('type', type(o) is cls, 'path')
    for i in range(n): c.oblige_by('field %d' % i, it.truth(it.eqb(it.getattr(o, 'f%d' % i), Opaque(('value', i)))), 'path')
    c.reach('read')
@unit('C29', 'the frame length is announced from the twentieth byte on', reach=['short', 'known'])
def u5(it):
    c = it.c; d = sbytes(it, 'data'); r = it.call(M.Message.first_msg_len, [d])
    if c.decide(s_lt(rlen(d), 20)): c.oblige_by('not announced yet', r is None, 'path', repr(r)); c.reach('short'); return
    if c.oblige_by('announced', r is not None, 'path'): c.oblige('header and payload', it.eqb(r, s_add(24, val_(subseq(d, 16, 20), 256, None, True)))); c.reach('known')
