"""C44: how a connection introduces itself, answers and stays alive.  Times are mathematical numbers."""
from .proto import *
from .node import *
from .c34 import send_attr
class Now(Float):
    """a moment between 1970 and 2106"""
    def __init__(self, name): Float.__init__(self, name); c = core.CUR; c.assume(s_le(0, self.fl)); c.assume(s_le(self.fl, (1 << 32) - 1))
def ip(it, name): b = sbytes(it, name, 16); return iptext(b)
def frames(it, magic_of):
    """contract of Message.binary (proved under C28), abstractly: the bytes of a message; which message they are of is remembered"""
    made = it.c.extra['made'] = []
    def k(it, a, kw):
        a = list(a) + ([kw['magic']] if 'magic' in kw else [])
        if not it.c.oblige_by('for the network of the node', len(a) == 2 and a[1] == magic_of(), 'path'): raise PathEnd()
        it.c.trust('contract of Message.binary (proved under C28)')
        m = a[0]; n = it.c.fresh('n_frame', 24, record=False); b = whole(Sym('frame%d' % len(made), n)); made.append((m, b)); return b
    it.contracts[fn_of(M.Message, 'binary')] = k; return made
def one(it, made, cls, queued, had, what):
    """exactly one message, of this class, behind what was queued"""
    c = it.c
    if not c.oblige_by('%s: one message' % what, len(made) == 1 and type(made[0][0]) is cls, 'path', repr([type(m) for m, b in made])): raise PathEnd()
    oblige_eq(it, '%s: queued whole, behind what was queued' % what, queued, rcat(had, made[0][1])); return made[0][0]
def is_random(it, v): s = segs_of(v); return len(s) == 1 and s[0][0] == 'A' and getattr(s[0][1], 'name', '').startswith('urandom')
for incoming in (True, False):
    @unit('C44', 'a new %s connection introduces itself' % ('incoming' if incoming else 'outgoing'), reach=['end'] + ([] if incoming else ['dialing failed']), max_paths=20000, **dict(PK, contracts={**PC, **NODE}))
    def u0(it, incoming=incoming):
        c = it.c; node = new_node(); it.note_alloc(node); port, nport = c.fresh('port', 0, 65535), c.fresh('node_port', 0, 65535); a, e = ip(it, 'address'), ip(it, 'external'); now = Now('now'); ha = c.choose(2)
        node._address = ('0.0.0.0', nport); node.external_ip = e; h = c.fresh('height', -(1 << 31), (1 << 31) - 1); node.blockchain_height = h; ua = sbytes(it, 'agent', None); node.user_agent = ua
        c.extra['clock'] = lambda it: now; made = frames(it, lambda: node.coin.magic); dialed = []; inits = []
        def k_init(it, x, kw): c.trust('asyncore.dispatcher puts the channel in the map'); inits.append((x[1:], kw)); return None
        def k_connect(it, x, kw):
            c.trust('asyncore.dispatcher.connect dials, or fails'); dialed.append(x[1])
            if c.choose(2): raise ProgExc(OSError('unreachable'))
            return None
        it.contracts.update({asyncore.dispatcher.__init__: k_init, asyncore.dispatcher.connect: k_connect, asyncore.dispatcher.create_socket: lambda it, x, kw: None})
        sock = Sock() if incoming else None; kw = dict(node=node, address=(a, port)); o = C.Connection.__new__(C.Connection); it.note_alloc(o)
        if incoming: kw['sock'] = sock
        try: it.call_body(C.Connection.__init__, [o], kw)
        except ProgExc as x:
            c.oblige_by('fails only when dialing fails', not incoming and isinstance(x.exc, OSError), 'path', repr(x.exc)); c.oblige_by('closed, and the node told', c.extra.get('closed') == 1 and c.extra.get('told') == [o], 'path'); c.oblige_by('nothing was written', not made, 'path'); c.reach('dialing failed'); return
        c.oblige_by('stays open', not c.extra.get('closed'), 'path')
        if incoming: c.oblige_by('uses the socket, in the map of the node', dialed == [] and len(inits) == 1 and inits[0][1].get('sock', (list(inits[0][0]) + [None])[0]) is sock and inits[0][1].get('map', (list(inits[0][0]) + [None, None])[1]) is node, 'path', repr(inits))
        else:
            if c.oblige_by('dials once', len(dialed) == 1, 'path', repr(dialed)): oblige_eq(it, 'the address', dialed[0], (a, port))
            c.oblige_by('in the map of the node', len(inits) == 1 and inits[0][1].get('map', (list(inits[0][0]) + [None, None])[1]) is node, 'path', repr(inits))
        c.oblige_by('knows who called', it.truth(it.getattr(o, 'incoming')) is incoming, 'path'); oblige_eq(it, 'its address', it.getattr(o, 'address'), (a, port))
        m = one(it, made, M.Version, o.__dict__[send_attr()], b'', 'the first message'); G = lambda n, x=m: it.getattr(x, n)
        oblige_eq(it, 'protocol version', G('version'), node.coin.protocol_version); oblige_eq(it, 'services', G('services'), o.SERVICES); c.oblige_by('the time', G('timestamp') is now, 'path')
        oblige_eq(it, 'user agent', G('user_agent'), ua); oblige_eq(it, 'height', G('start_height'), h); oblige_eq(it, 'no relay', G('relay'), 0)
        c.oblige_by('a random nonce of eight bytes', is_random(it, G('nonce')), 'path', repr(G('nonce'))); c.oblige('eight bytes', s_eq(rlen(G('nonce')), 8))
        for f, x, p in (('addr_recv', a, port), ('addr_from', e, nport)):
            r = G(f); c.oblige_by(f + ': the IP', it.getattr(r, 'address') is x, 'path'); oblige_eq(it, f + ': the port', it.getattr(r, 'port'), p); oblige_eq(it, f + ': the services', it.getattr(r, 'services'), o.SERVICES)
        for f in ('services', 'version', 'start_height', 'user_agent', 'external_ip'): c.oblige_by('nothing is known of the peer: %s' % f, it.getattr(o, f) is None, 'path')
        c.oblige_by('not acknowledged', it.truth(it.getattr(o, 'verack')) is False, 'path'); c.reach('end')
@unit('C44', 'a connection that cannot introduce itself is closed', reach=['end'], **dict(PK, contracts={**PC, **NODE}))
def u1(it):
    c = it.c; node = new_node(); it.note_alloc(node); now = Now('now'); c.extra['clock'] = lambda it: now; made = frames(it, lambda: node.coin.magic); k = c.choose(3)
    it.contracts.update({asyncore.dispatcher.__init__: lambda it, x, kw: None, asyncore.dispatcher.connect: lambda it, x, kw: None, asyncore.dispatcher.create_socket: lambda it, x, kw: None})
    if k == 1: node.external_ip = 'no address'
    if k == 2: node.blockchain_height = 1 << 31
    o = C.Connection.__new__(C.Connection); it.note_alloc(o); kw = dict(node=node, address=('example.org' if k == 0 else '1.2.3.4', 8333))
    if c.choose(2): kw['sock'] = Sock()
    try: it.call_body(C.Connection.__init__, [o], kw); e = None
    except ProgExc as x: e = x.exc
    c.oblige_by('fails', isinstance(e, Exception), 'path', repr(e)); c.oblige_by('closed, and the node told', c.extra.get('closed') == 1 and c.extra.get('told') == [o], 'path', repr(c.extra.get('closed'))); c.oblige_by('nothing was written', not made, 'path')
ANSWERS = {'ping': M.Pong, 'version': M.VersionAck, 'pong': None, 'verack': None}
for name, ans in ANSWERS.items():
    @unit('C44', 'the answer to a %s' % name, reach=['end'], max_paths=20000, **dict(PK, contracts={**PC, **NODE}))
    def u2(it, name=name, ans=ans):
        c = it.c; node, o = connection(it); fs = MESSAGES[name]; m = it.call(MSGCLS[name], [field(it, t, f)[0] for f, t in fs]); at = send_attr(); S = sbytes(it, 'queued'); o.__dict__[at] = S; node._log_level = c.choose(5); it.contracts.update(DESCRIBED)
        made = frames(it, lambda: node.coin.magic); it.contracts[BN.BaseNode._check_external_ip] = lambda it, a, kw: None
        it.call(C.Connection.handle_message, [o, m]); q = o.__dict__[at]
        if ans is None: oblige_eq(it, 'nothing is sent', q, S); c.oblige_by('no message', not made, 'path')
        else:
            r = one(it, made, ans, q, S, 'the answer')
            if name == 'ping': oblige_eq(it, 'the same nonce', it.getattr(r, 'nonce'), it.getattr(m, 'nonce'))
        c.oblige_by('stays open', not c.extra.get('closed'), 'path')
def time_attrs():
    """the fields that hold the time of the last write, read and ping: written by the real code at known times"""
    import time as T
    now = [7.25]; old = T.time; T.time = lambda: now[0]
    try:
        nd = new_node(); p = C.Connection(node=nd, address=('10.1.2.4', 4568), sock=Sock())
        def new(f, *a):
            b = dict(p.__dict__); now[0] += 100000; f(*a); l = [k for k, v in p.__dict__.items() if v == now[0] and b.get(k) != v]
            if len(l) != 1: raise Unsupported('the field that holds a time')
            return l[0]
        p.send = lambda d: len(d); tx = new(p.handle_write)
        p.recv = lambda n: b'x'; rx = new(p.handle_read); p.close = lambda: None
        ping = new(p.readable)
        return tx, rx, ping
    finally: T.time = old
@unit('C44', 'staying alive', reach=['ping', 'silent', 'closed', 'ping and closed'], contracts=NODE)
def u3(it):
    c = it.c; tx, rx, pg = time_attrs(); node, o = connection(it, twin=True); at = send_attr(); S = sbytes(it, 'queued'); o.__dict__[at] = S
    now = c.fresh('now', 0); last = {}
    for n, k in (('sent', tx), ('received', rx), ('pinged', pg)): v = last[n] = c.fresh('last_' + n, 0); c.assume(s_le(v, now)); o.__dict__[k] = v
    t = [now]
    def clock(it): x = c.fresh('moment', 0, record=False); c.assume(s_le(t[-1], x)) if len(t) > 1 else c.assume(s_eq(x, now)); t.append(x); return x
    c.extra['clock'] = clock; made = frames(it, lambda: node.coin.magic); never = lambda n: s_eq(last[n], 0); ago = lambda n: s_add(now, s_mul(-1, last[n]))
    r = it.call(C.Connection.readable, [o])
    ping = c.decide(s_and(s_not(never('sent')), s_lt(1800, ago('sent')), s_lt(300, ago('pinged')))); dead = c.decide(s_and(s_not(never('received')), s_lt(10800, ago('received'))))
    if ping:
        m = one(it, made, M.Ping, o.__dict__[at], S, 'a ping'); c.oblige_by('with a random nonce', is_random(it, it.getattr(m, 'nonce')), 'path'); c.oblige('its time is remembered', s_le(now, o.__dict__[pg])); c.oblige_by('which is a time asked for', any(c.quick(s_eq(x, o.__dict__[pg])) for x in t), 'path')
    else: c.oblige_by('no ping', not made, 'path', repr(made)); oblige_eq(it, 'nothing is sent', o.__dict__[at], S); oblige_eq(it, 'the time of the last ping is kept', o.__dict__[pg], last['pinged'])
    oblige_eq(it, 'the time of the last write is kept', o.__dict__[tx], last['sent']); oblige_eq(it, 'the time of the last read is kept', o.__dict__[rx], last['received'])
    if dead: c.oblige_by('closed, and the node told', c.extra.get('closed') == 1 and c.extra.get('told') == [o], 'path')
    else: c.oblige_by('stays open', not c.extra.get('closed'), 'path')
    c.oblige_by('readable exactly while open', it.truth(r) is (not dead), 'path', repr(r)); c.reach({(1, 0): 'ping', (0, 0): 'silent', (0, 1): 'closed', (1, 1): 'ping and closed'}[int(ping), int(dead)])
@unit('C44', 'the times are those of the last write and read', reach=['sent', 'received', 'failed'], contracts=NODE)
def u4(it):
    c = it.c; tx, rx, pg = time_attrs(); node, o = connection(it, twin=True); at = send_attr(); S = sbytes(it, 'queued', None, 1); o.__dict__[at] = S; k = c.choose(2); now = c.fresh('now', 0); c.extra['clock'] = lambda it: now; old = {n: c.fresh('last_%d' % j, 0) for j, n in enumerate((tx, rx, pg))}; o.__dict__.update(old); fails = c.choose(2)
    def sock(it, d):
        if fails: raise ProgExc(OSError('broken'))
        return b'x' if k else c.fresh('accepted', 0)
    c.extra['sock'] = sock; it.contracts[fn_of(M.Message, 'first_msg_len')] = lambda it, a, kw: None
    it.call(C.Connection.handle_read if k else C.Connection.handle_write, [o])
    if fails: c.oblige_by('closed', c.extra.get('closed') == 1, 'path'); c.reach('failed'); return
    for n in (tx, rx, pg): oblige_eq(it, 'time', o.__dict__[n], now if n == (rx if k else tx) else old[n])
    c.reach('received' if k else 'sent')
@unit('C44', 'a new connection was never heard from nor pinged', reach=['end'])
def u5(it):
    tx, rx, pg = time_attrs(); p = C.Connection(node=new_node(), address=('10.1.2.4', 4568), sock=Sock()); it.c.oblige_by('zero', p.__dict__[tx] == 0 and p.__dict__[rx] == 0 and p.__dict__[pg] == 0, 'evaluation')
