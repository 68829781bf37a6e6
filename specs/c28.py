"""C28: every message survives the wire"""
from .proto import *
def frame(magic, command, payload):
    n = rlen(payload)
    return rcat(magic, command.encode() + b'\0' * (12 - len(command)), mk_pos(256, None, n, 4, le=True), subseq(shad(payload), 0, 4), payload)
def shad(x):
    return sha256d(x)
for cls in STRUCTS:
    for how in (0, 1):
        @unit('C28', '%s is read back as written%s' % (cls.__name__, ' (other argument forms)' if how else ''), reach=['end'], **PK)
        def us(it, cls=cls, how=how):
            c = it.c; ps = [field(it, t, f, how) for f, t in STRUCTS[cls]]
            o = it.call(cls, [p[0] for p in ps])
            b = it.call(it.getattr(o, 'binary'), [])
            want = rcat(b'', *[p[1] for p in ps])
            oblige_eq(it, 'bytes', b, want)
            l, v = it.to_list(it.call_body(fn_of(F.CompoundType, 'parse'), [cls, rcat(want, tail(it))], {}))
            c.oblige('bytes consumed', s_eq(l, rlen(want)))
            check_read(it, 'read back', v, ('struct', cls, [p[2] for p in ps]))
for name in MESSAGES:
    for how in ((0, 1) if MESSAGES[name] else (0,)):
        @unit('C28', '%s message%s' % (name, ' (other argument forms)' if how else ''), reach=['end'], **PK)
        def um(it, name=name, how=how):
            c = it.c; cls = MSGCLS[name]; magic = sbytes(it, 'magic', 4)
            ps = [field(it, t, f, how) for f, t in MESSAGES[name]]
            if any(t[0] == 'a' for f, t in MESSAGES[name]): pass
            o = it.call(cls, [p[0] for p in ps])
            want = rcat(b'', *[p[1] for p in ps])
            c.assume(s_lt(rlen(want), 1 << 32))
            b = it.call(it.getattr(o, 'binary'), [magic])
            fr = frame(magic, name, want)
            oblige_eq(it, 'frame', b, fr)
            m = it.call(fn_of(M.Message, 'parse'), [M.Message, fr, magic])
            if not c.oblige_by('type read back', type(m) is cls, 'path', repr(type(m))): return
            for (f, t), p in zip(MESSAGES[name], ps): check_read(it, f, it.getattr(m, f), p[2])
            oblige_eq(it, 'magic', it.getattr(m, 'magic'), magic)
@unit('C28', 'a version message without the relay byte', reach=['end'], **PK)
def ur(it):
    c = it.c; magic = sbytes(it, 'magic', 4)
    ps = [field(it, t, f) for f, t in MESSAGES['version'][:-1]]
    want = rcat(b'', *[p[1] for p in ps]); c.assume(s_lt(rlen(want), 1 << 32))
    m = it.call(fn_of(M.Message, 'parse'), [M.Message, frame(magic, 'version', want), magic])
    for (f, t), p in zip(MESSAGES['version'], ps): check_read(it, f, it.getattr(m, f), p[2])
    c.oblige_by('relay is true', it.getattr(m, 'relay') is True, 'path', repr(it.getattr(m, 'relay')))
