"""C49: a new node is as configured

The constructor runs on symbolic arguments; sockets are those of the caller (asyncore.dispatcher and the operating system
by contract)."""
import errno, socket, threading
from .node import *
from nbc.node import raw as RAW
from nbc import coins, util
from pyvc.absl import AObj, Fn
class Failed(OSError):
    errno = None
D = asyncore.dispatcher
def system(it):
    """the operations on the socket of the node, each of which may fail"""
    c = it.c; e = c.extra; ev = e['events'] = []
    def op(name):
        def f(it, a, kw):
            if a[0] is not e.get('node', a[0]): raise Unsupported('socket of something else')
            e['node'] = a[0]; ev.append((name,) + tuple(a[1:])); it.c.trust('asyncore.dispatcher: creating, binding and listening on a socket works or fails with an OSError')
            if name in ('create_socket', 'bind', 'listen') and c.choose(2):
                x = Failed('socket'); n = x.errno = c.fresh('errno', 0, 200); e['failed'] = x, n; raise ProgExc(x)
            if name == 'getsockname': return e['own']
        return f
    return {getattr(D, n): op(n) for n in ('create_socket', 'set_reuse_addr', 'bind', 'listen', 'getsockname')}
def start(it, with_address, bootstrap, seek=None, cls=None):
    c = it.c; e = c.extra; it.contracts.update(system(it)); e['own'] = (Opaque(('own host',)), c.fresh('own_port', 1, 65535)); host = Opaque(('host',), str); port = c.fresh('port', 0, 65535)
    seeds = [('a.seed', 1), ('b.seed', 2)]
    coin = AObj(name='somecoin', dns_seeds=seeds); log = Opaque(('log',)); data = Opaque(('data directory',)) ; sp, mp = seek if seek is not None else c.fresh('seek_peers', 0), c.fresh('max_peers', 0)
    e.update(coin=coin, seeds=seeds, log=log, data=data, seek=sp, max=mp, host=host, port=port)
    kw = dict(data_dir=data, address=(host, port) if with_address else None, seek_peers=sp, max_peers=mp, bootstrap=bootstrap, log=log, coin=coin)
    return it.call(cls or BN.BaseNode, [], kw)
CON = {**NODE, D.__init__: lambda it, a, kw: None}
def configured(it, nd, with_address):
    c = it.c; e = c.extra; G = lambda n: it.getattr(nd, n); ev = e['events']; names = [x[0] for x in ev]; want = (e['host'], e['port']) if with_address else ('127.0.0.1', 0)
    def addr(a, w): return isinstance(a, tuple) and len(a) == 2 and (a[0] is w[0] or a[0] == w[0]) and it.c.entails(s_eq(a[1], w[1]))
    c.oblige_by('a stream socket', names.count('create_socket') == 1 and ev[names.index('create_socket')][1:] == (socket.AF_INET, socket.SOCK_STREAM), 'path', repr(ev))
    c.oblige_by('bound, reusing the address, and listening, in this order', [n for n in names if n != 'getsockname'] == ['create_socket', 'set_reuse_addr', 'bind', 'listen'], 'path', repr(names))
    b = ev[names.index('bind')]; c.oblige_by('to the address asked for', len(b) == 2 and addr(b[1], want), 'path', repr(b)); c.oblige('with a backlog', s_le(1, ev[names.index('listen')][1]))
    rep = e['own'] if not with_address or c.decide(s_eq(e['port'], 0)) else want
    c.oblige_by('its address', addr(G('address'), rep), 'path', repr(G('address'))); c.oblige_by('its IP', G('ip') is rep[0], 'path'); c.oblige('its port', it.eqb(G('port'), rep[1]))
    x = G('external_ip'); c.oblige_by('the guess of its external address', x is want[0] or x == want[0], 'path', repr(x))
    for n in ('coin',): c.oblige_by(n, G(n) is e['coin'], 'path')
    c.oblige_by('data directory', G('data_dir') is e['data'], 'path'); c.oblige('height', it.eqb(G('blockchain_height'), 0)); c.oblige_by('logs errors only', it.truth(it.eqb(G('log_level'), BN.BaseNode.LOG_LEVEL_ERROR)), 'path')
    c.oblige_by('the user agent names the coin', isinstance(G('user_agent'), str) and G('user_agent').startswith('/nbc:') and G('user_agent').endswith('(somecoin)/'), 'path', repr(G('user_agent')))
    c.oblige_by('no peers', it.to_list(G('peers')) == [], 'path')
for wa, cls in ((0, BN.BaseNode), (1, BN.BaseNode), (1, RAW.RawNode)):
    @unit('C49', 'a %s %s' % ('node' if cls is BN.BaseNode else 'raw node', 'that listens' if wa else 'without an address'), contracts=CON, reach=['started', 'address in use', 'another error'])
    def u1(it, wa=wa, cls=cls):
        c = it.c; e = c.extra
        try: nd = start(it, wa, c.choose(2) == 1, cls=cls)
        except ProgExc as x:
            if 'failed' not in e: c.oblige_by('no failure of its own', False, 'path', repr(x.exc)); return
            f, n = e['failed']
            if c.decide(s_eq(n, errno.EADDRINUSE)): c.oblige_by('reported as address in use', isinstance(x.exc, BN.AddrInUseError), 'path', repr(x.exc)); c.reach('address in use')
            else: c.oblige_by('the error itself', x.exc is f, 'path', repr(x.exc)); c.reach('another error')
            return
        c.oblige_by('failures are reported', 'failed' not in e, 'path'); configured(it, nd, wa); c.reach('started')
@unit('C49', 'limits and seeds of a new node are those given', contracts={**CON, random.randint: lambda it, a, kw: it.c.fresh('random', a[0], a[1])}, reach=['full', 'dialed', 'seeds', 'no seeds'])
def u2(it):
    c = it.c; e = c.extra; boot = c.choose(2) == 1; e['events'] = None
    try: nd = start(it, 1, boot, cls=(BN.BaseNode, RAW.RawNode)[c.choose(2)])
    except ProgExc: raise PathEnd()
    dialed = []
    class Dial: pass
    it.contracts[C.Connection] = lambda it, a, kw: dialed.append(dict(zip(('address', 'node'), a), **kw)['address'])
    k = c.choose(2)
    if k == 0:
        a = ('10.0.0.9', 9); r = it.truth(it.call(it.getattr(nd, 'add_peer'), [a, False])); n = it.call(len, [nd])
        if c.decide(s_le(e['max'], n)): c.oblige_by('no more than its limit', r is False and not dialed, 'path', repr(dialed)); c.reach('full')
        else: c.oblige_by('dialed below its limit', r is True and dialed == [a], 'path', repr(dialed)); c.reach('dialed')
    else:
        e['seeds'].append(('c.seed', 3)); c.assume(s_lt(5, e['max'])); it.call(it.getattr(nd, 'add_any_peer'), [])
        if boot: c.oblige_by('a seed of the coin at the time', len(dialed) == 1 and dialed[0] in e['seeds'][:2], 'path', repr(dialed)); c.reach('seeds')
        else: c.oblige_by('none', dialed == [], 'path', repr(dialed)); c.reach('no seeds')
@unit('C49', 'a new node seeks as many peers as asked', contracts=CON, reach=['end'])
def u3(it):
    c = it.c; e = c.extra; k = c.choose(6)          # every number: below five each, from five on all at once
    try: nd = start(it, 1, False, k if k < 5 else c.fresh('seek_peers', 5), (BN.BaseNode, RAW.RawNode)[c.choose(2)])
    except ProgExc: raise PathEnd()
    n = [0]
    def any_peer(it, a, kw): n[0] += 1
    it.contracts[BN.BaseNode.add_any_peer] = any_peer; it.call(it.getattr(nd, 'heartbeat'), [])
    c.oblige_by('as many attempts as are missing, at most five', n[0] == k, 'path', repr(n))
@unit('C49', 'user agent, log level and external address can be set', contracts=CON, reach=['end'])
def u4(it):
    c = it.c
    try: nd = start(it, 1, False)
    except ProgExc: raise PathEnd()
    lv = c.fresh('level', 0, 5)
    for n, v in (('user_agent', Opaque(('agent',), str)), ('log_level', lv), ('external_ip', '1.2.3.4')):
        it.setattr(nd, n, v); c.oblige_by(n, it.getattr(nd, n) is v, 'path', repr(it.getattr(nd, n)))
class Started(SObj):
    """a thread"""
    def __init__(self, it, kw): self.kw, self.daemon, self.started = kw, bool(kw.get('daemon')), 0; it.c.extra.setdefault('threads', []).append(self)
    def s_getattr(self, it, a):
        if a == 'daemon': return self.daemon
        if a in ('start', 'setDaemon'): return Fn(lambda it, x, kw: getattr(self, a)(*x))
        raise Unsupported('attribute %s of a thread' % a)
    def s_setattr(self, it, a, v):
        if a != 'daemon': raise Unsupported('attribute %s of a thread' % a)
        self.daemon = v
    def setDaemon(self, v): self.daemon = v
    def start(self): self.started += 1; self.as_daemon = self.daemon
def k_thread(it, a, kw): it.c.trust('threading.Thread runs its target in the background'); return Started(it, kw)
@unit('C49', 'starting a server', contracts={**CON, threading.Thread: k_thread, time.sleep: lambda it, a, kw: None}, reach=['end'])
def u5(it):
    c = it.c; served = []; nd = AObj(serve_forever=Fn(lambda it, a, kw: served.append(tuple(a)))); it.call(BN.startServer, [nd]); ts = c.extra.get('threads', [])
    c.oblige_by('in one background thread, not waited for', len(ts) == 1 and ts[0].started == 1 and not served, 'path'); t = ts[0]
    c.oblige_by('that ends with the program', t.as_daemon is True, 'path'); it.call(t.kw['target'], list(t.kw.get('args', ())), dict(t.kw.get('kwargs', {}))); c.oblige_by('serving the node', served == [()], 'path', repr(served))
@unit('C49', 'a node with nothing configured', contracts={**CON, util.default_data_directory: lambda it, a, kw: it.c.extra['dir']}, reach=['end'])
def u6(it):
    c = it.c; e = c.extra; e['dir'] = Opaque(('default directory',)); it.contracts.update(system(it)); e['own'] = ('127.0.0.1', c.fresh('own_port', 1, 65535)); cls = (BN.BaseNode, RAW.RawNode)[c.choose(2)]
    try: nd = it.call(cls, [], {})
    except ProgExc: raise PathEnd()
    G = lambda n: it.getattr(nd, n)
    c.oblige_by('the default data directory', G('data_dir') is e['dir'], 'path', repr(G('data_dir'))); c.oblige_by('the coin', G('coin') is coins.Newbitcoin, 'path'); c.oblige('its own port', it.eqb(G('port'), e['own'][1]))
    k = c.choose(3); dialed = []; it.contracts[random.randint] = lambda it, a, kw: it.c.fresh('random', a[0], a[1]); it.contracts[C.Connection] = lambda it, a, kw: dialed.append(1)
    if k == 0: it.call(it.getattr(nd, 'add_any_peer'), []); c.oblige_by('a plain node bootstraps, a raw one does not', len(dialed) == (cls is BN.BaseNode), 'path', repr(dialed))
    elif k == 1:
        for full in (124, 125):
            for i in range(full): nd._peers[i] = AObj(address=('10.0.0.1', i))
            del dialed[:]; r = it.truth(it.call(it.getattr(nd, 'add_peer'), [('10.0.0.9', 9), False])); c.oblige_by('125 channels at most', r is (full < 125) and bool(dialed) is (full < 125), 'path', repr((full, r, dialed)))
    else:
        n = [0]
        def any_peer(it, a, kw): n[0] += 1
        it.contracts[BN.BaseNode.add_any_peer] = any_peer; other = new_node()
        for i in range(13): nd._peers[i] = connection(it, other, ('10.0.1.%d' % i, 1))[1]
        it.contracts[random.choice.__func__] = lambda it, a, kw: a[-1][0]; it.contracts[C.Connection.send_message] = lambda it, a, kw: None; it.call(it.getattr(nd, 'heartbeat'), []); c.oblige_by('16 peers sought', n[0] == 3, 'path', repr(n))
