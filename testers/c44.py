from .net import *
import socket as SK
def readna(b): return int.from_bytes(b[:8], 'little'), W.iptext(b[8:24]), int.from_bytes(b[24:26], 'big')
def hello(T, frames, nd, address, now, what='introduction'):
    T.eq([c for c, p in frames], ['version'], what); p = frames[0][1]
    T.eq(int.from_bytes(p[:4], 'little'), nd.coin.protocol_version, 'protocol version'); T.eq(int.from_bytes(p[4:12], 'little'), 1, 'services'); T.eq(int.from_bytes(p[12:20], 'little'), int(now), 'time')
    T.eq(readna(p[20:46]), (1, address[0], address[1]), 'address of the peer'); T.eq(readna(p[46:72]), (1, nd.external_ip, nd.port), 'address of the node')
    ua = nd.user_agent if isinstance(nd.user_agent, bytes) else nd.user_agent.encode('latin-1'); q = p[80:]; k = len(W.count(len(ua))); T.eq(q[:k + len(ua)], W.count(len(ua)) + ua, 'user agent')
    T.eq(int.from_bytes(q[k + len(ua):k + len(ua) + 4], 'little', signed=True), nd.blockchain_height, 'height'); T.eq(q[k + len(ua) + 4:], b'\0', 'relay'); return p[72:80]
def setup(ext, port, agent, height):
    nd = node(address=('127.0.0.1', port)); nd.external_ip = ext; nd.blockchain_height = height
    if agent is not None: nd.user_agent = agent
    return nd
def intro(T, incoming, address, ext, port, agent, height, now):
    nd = setup(ext, port, agent, height); dialed = []; old = C.Connection.connect, C.Connection.create_socket
    with Clock(now):
        seen = []
        for _ in range(3):
            s = Sock()
            try:
                C.Connection.connect = lambda me, a: dialed.append(a); C.Connection.create_socket = lambda me, *a: me.set_socket(s)
                o = C.Connection(nd, address, s) if incoming else C.Connection(nd, address)
            finally: del C.Connection.connect, C.Connection.create_socket
            T.ok(o in list(nd.values()) and o.writable(), 'in the map'); T.eq(bool(o.incoming), incoming, 'incoming'); seen.append(hello(T, split(clear(o, s), nd.coin.magic), nd, address, now))
        T.ok(len(set(seen)) == 3, 'fresh nonces', seen)
        T.eq(dialed, [] if incoming else [address] * 3, 'dialed')
def unreachable(T, address, err):
    nd = node(); s = Sock()
    try:
        def connect(me, a): raise err
        C.Connection.connect = connect; C.Connection.create_socket = lambda me, *a: me.set_socket(s); before = len(nd.peers); gone = []; nd.disconnected = gone.append
        T.raises(type(err), C.Connection, nd, address)
    finally: del C.Connection.connect, C.Connection.create_socket
    T.eq(len(nd.peers), before, 'peers left'); T.ok(s.closed >= 1, 'closed'); T.eq(len(gone), 1, 'node told')
def mute(T, address, ext, height, incoming):
    nd = node(); nd.external_ip = ext; nd.blockchain_height = height; s = Sock()
    try:
        C.Connection.connect = lambda me, a: None; C.Connection.create_socket = lambda me, *a: me.set_socket(s); before = len(nd.peers)
        T.raises(Exception, C.Connection, nd, address, *([s] if incoming else []))
    finally: del C.Connection.connect, C.Connection.create_socket
    T.eq(len(nd.peers), before, 'peers left'); T.ok(s.closed >= 1, 'closed')
def chat(T, sent, cut):
    """a history of received messages: the answers"""
    nd = node(); p, s = peer(nd); clear(p, s); want = []; data = b''
    for name, x in sent:
        if name == 'version': m = P.Version(70002, 1, 5, P.NetworkAddress(0, 1, '1.2.3.4', 5), P.NetworkAddress(0, 1, '1.2.3.5', 6), x, 'ua', 7, 0); want.append(('verack', b''))
        elif name == 'ping': m = P.Ping(x); want.append(('pong', x))
        elif name == 'pong': m = P.Pong(x)
        elif name == 'verack': m = P.VersionAck()
        data += m.binary(nd.coin.magic)
    for i in range(0, len(data), cut): s.inq.append(data[i:i + cut]); p.handle_read()
    T.eq(split(clear(p, s), nd.coin.magic), want, 'answers')
def alive(T, ops):
    """ops: ('wait', seconds) ('read',) ('write',) ('poll',): pings and closing, against a reference"""
    nd = node(); t0 = 1e9
    with Clock(t0) as clk:
        p, s = peer(nd, twin=True); queued = True; tx = rx = pg = 0
        for op in ops:
            if op[0] == 'wait': clk.t += op[1]
            elif op[0] == 'read': s.inq.append(b'\0'); p.handle_read(); rx = clk.t
            elif op[0] == 'write':
                if p.writable(): clear(p, s); tx = clk.t
            else:
                n = len(p._send_buffer) if hasattr(p, '_send_buffer') else None; r = p.readable()
                ping = bool(tx and clk.t - tx > 1800 and clk.t - pg > 300); dead = bool(rx and clk.t - rx > 10800)
                if ping: pg = clk.t
                T.eq(bool(r), not dead, 'readable'); T.eq(s.closed > 0, dead, 'closed')
                if ping or not dead:
                    wr = clear(p, s)
                    got = [c for c, d in split(wr, nd.coin.magic)]
                    if wr: tx2 = tx; tx = clk.t
                    T.eq(got.count('ping'), int(ping), 'pings')
                if dead: return
def run(T):
    ips = ['1.2.3.4', '255.255.255.255', '0.0.0.0', '10.0.0.1', '2001:db8:0:0:0:0:0:1']
    for k, a in enumerate(ips):
        for inc in (True, False): T.case(intro, inc, (a, (0, 1, 8333, 65535, 255)[k]), ips[k - 1], (20303, 0, 65535, 1, 256)[k], (None, '', 'x' * 252, 'y' * 253, 'z' * 300)[k], (0, -1, 2 ** 31 - 1, -2 ** 31, 1)[k], (1.5e9, 0.0, 4294967295.0, 1.75, 2.0)[k])
    for e in (OSError('x'), ValueError('y')): T.case(unreachable, ('10.0.0.2', 8333), e)
    for inc in (True, False):
        T.case(mute, ('example.org', 1), '1.2.3.4', 0, inc); T.case(mute, ('1.2.3.4', 1), 'nowhere', 0, inc); T.case(mute, ('1.2.3.4', 1), '1.2.3.4', 1 << 31, inc); T.case(mute, ('1.2.3.4', 70000), '1.2.3.4', 0, inc)
    for w in (1799, 1800, 1801, 300, 301, 10800, 10801, 1800.5):
        T.case(alive, [('write',), ('wait', w), ('poll',), ('poll',), ('wait', 1), ('poll',)]); T.case(alive, [('read',), ('wait', w), ('poll',)]); T.case(alive, [('write',), ('read',), ('wait', w), ('poll',), ('wait', 301), ('poll',)])
        T.case(alive, [('wait', w), ('poll',)])
    while T.more():
        R = T.rng; ip4 = lambda: '.'.join(str(R.randint(0, 255)) for _ in range(4))
        if R.random() < .3: T.case(intro, R.random() < .5, (ip4(), R.randint(0, 65535)), ip4(), R.randint(0, 65535), ''.join(chr(R.randint(32, 126)) for _ in range(R.randint(0, 40))), R.randint(-2 ** 31, 2 ** 31 - 1), R.random() * 4e9)
        T.case(chat, [(R.choice(('ping', 'ping', 'version', 'pong', 'verack')), T.bytes(8, 8)) for _ in range(R.randint(1, 6))], R.choice((1, 7, 24, 1000)))
        T.case(alive, [R.choice((('wait', R.choice((1, 200, 301, 900, 1801, 4000, 10801))), ('read',), ('write',), ('poll',), ('poll',))) for _ in range(R.randint(2, 14))])
