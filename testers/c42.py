from .wire import *
from . import c32, net, base
def text(T, o, fields):
    before = [(f, getattr(o, f)) for f in fields]; b = o.binary(b'abcd') if isinstance(o, M.Message) else o.binary()
    for what, f in (('str', lambda: str(o)), ('_debug', lambda: o._debug())):
        if what == '_debug' and not hasattr(o, what): continue
        t = f(); T.ok(isinstance(t, str) and len(t) > 0, 'a text', t)
        if what == 'str' and not isinstance(o, M.Alert): T.ok(all(n in t for n in fields), 'every field is named', t[:200])
        for n, v in before: T.ok(getattr(o, n) is v or getattr(o, n) == v, 'unchanged', n)
    T.eq(o.binary(b'abcd') if isinstance(o, M.Message) else o.binary(), b, 'its bytes')
def message(T, name, vs, read):
    o = make(name, vs)
    if read: o = M.Message.parse(o.binary(b'abcd'), b'abcd')
    text(T, o, [f for f, t in MSG[name][1]])
def structure(T, name, v): text(T, build(('c', name), v), [f for f, t in STRUCTS[name]])
def alert(T, vs, rest): text(T, M.Alert(c32.encode(vs) + rest, b'sig'), ['payload', 'signature'])
def levels(T, name, vs):
    """a connection handles and sends the same whatever is logged"""
    seen = []
    for level in range(5):
        nd = net.node(); got = []; m = make(name, vs); setattr(nd, 'command_' + m.name, lambda peer, **kw: got.append((peer, kw)))
        o, s = net.peer(nd); net.clear(o, s); nd._log_level = level; nd._log.truncate(0)
        o.handle_message(m); o.send_message(m); out = net.clear(o, s); T.eq(len(got), 1, 'handled once'); T.ok(got[0][0] is o, 'for the peer'); seen.append((out, sorted((k, repr(v) if not isinstance(v, (list, tuple)) else len(v)) for k, v in got[0][1].items() if not hasattr(v, 'binary'))))
        if level >= 2: T.eq(nd._log.getvalue(), '', 'nothing is logged')
        else: T.eq(nd._log.getvalue().strip(chr(0)).count('(%s)' % o.ip) >= 2, True, 'both are logged')
    for x in seen[1:]: T.eq(x, seen[0], 'the same at every level')
def log(T, lv, at, peer):
    nd = net.node(); nd._log_level = lv; k = (lv + 3 * at) % len(net.WHERE); o = net.peer(nd, net.WHERE[k])[0] if peer else None; nd._log.truncate(0); nd._log.seek(0); nd.log('an entry', peer=o, level=at)
    T.eq(nd._log.getvalue(), '' if at < lv else '(%s) an entry\n' % (net.WHERE[k][0] if peer else 'node'), 'log')
def run(T):
    R = T.rng
    for lv in range(5):
        for at in range(5): T.case(log, lv, at, False); T.case(log, lv, at, True)
    for name in MSG:
        if name != 'alert': T.case(levels, name, [gen(T, t) for f, t in MSG[name][1]])
    while T.more():
        for name in MSG:
            if name != 'alert': T.case(message, name, [gen(T, t) for f, t in MSG[name][1]], R.random() < .5)
        for s in STRUCTS: T.case(structure, s, gen(T, ('c', s)))
        T.case(alert, c32.values(T), T.bytes(0, 3)); n = R.choice([k for k in MSG if k != 'alert']); T.case(levels, n, [gen(T, t) for f, t in MSG[n][1]])
