from .net import *
import nbc.node as N, asyncore, os, sys, contextlib
START = {k: (v, type(v)(v) if type(v) in (dict, list, set) else v) for k, v in vars(N).items()}
class GW(object):
    """a gateway: maps external ports; the calls whose number is in bad fail"""
    lanaddr = '192.168.1.2'; discoverdelay = 0
    def __init__(self, T, taken, bad, refuse): self.T, self.maps, self.bad, self.refuse, self.n, self.log, self.mine, self.err = T, {(p, k): 'other' for p, k in taken}, set(bad), refuse, 0, [], {}, []
    def ok(self, b, *a):
        if not b: self.err.append(a)
    def sound(self): self.T.ok(not self.err, 'asked of the gateway', *self.err)
    def call(self, name, *a):
        self.n += 1; self.log.append((name,) + a)
        if self.n in self.bad: raise (OSError if self.n % 2 else Exception)('gateway')
    def discover(self): self.call('discover'); return 1
    def selectigd(self): self.call('selectigd')
    def externalipaddress(self): self.call('externalipaddress'); return '8.8.8.8'
    def statusinfo(self): self.call('statusinfo'); return 'Connected'
    def connectiontype(self): self.call('connectiontype'); return 'IP'
    def getspecificportmapping(self, p, k):
        self.call('get', p, k); self.ok(0 < p < 65536, 'a port was looked up that cannot be', p); return ('1.1.1.1', 1) if (p, k) in self.maps else None
    def addportmapping(self, p, k, lan, port, label, x):
        self.call('add', p, k, port); self.ok(0 < p < 65536 and (p, k) not in self.maps and lan == self.lanaddr, 'a mapping was asked for that is not free', p, k, lan)
        if self.refuse: return False
        self.maps[p, k] = 'mine'; self.mine[p, k] = port; return True
    def deleteportmapping(self, p, k):
        self.log.append(('delete', p, k)); self.ok(self.maps.get((p, k)) == 'mine', 'a mapping was removed that the node did not make', p, k); self.maps.pop((p, k), 0); self.mine.pop((p, k), 0); return True
@contextlib.contextmanager
def world(gw):
    g = vars(N)
    for k in list(g):
        if k not in START: del g[k]
    for k, (v, w) in START.items():
        g[k] = v
        if type(v) is list: v[:] = w
        elif type(v) in (dict, set): v.clear(); v.update(w)
    if gw is not None: N.miniupnpc = type('miniupnpc', (), dict(UPnP=staticmethod(lambda: gw)))
    old = sys.stdout, asyncore.loop; sys.stdout = open(os.devnull, 'w')
    try: yield
    finally: sys.stdout.close(); sys.stdout, asyncore.loop = old
def free(gw, port, k): return [p for p in range(port, 65536) if (p, k) not in gw.maps]
def add(T, gw, port, k):
    f = free(gw, port, k); before = dict(gw.mine); n = len(gw.log); bad = any(x > gw.n for x in gw.bad); N.add_portmap(port, k, 'test'); new = {x: y for x, y in gw.mine.items() if x not in before}
    if not f or gw.refuse: T.ok(not new, 'mapped', new)
    elif not bad: T.ok(list(new.values()) == [port] and [x[1] for x in new] == [k], 'not mapped although a port was free', new, gw.log[-3:])
    return new
def session(T, taken, bad, refuse, ops):
    gw = GW(T, taken, bad, refuse)
    with world(gw):
        made = {}
        for op, port, k in ops:
            if op == 'add': made[port, k] = add(T, gw, port, k)
            else:
                want = made.pop((port, k), {}); n = len(gw.log); N.remove_portmap(port, k); T.eq([x[1:] for x in gw.log[n:] if x[0] == 'delete'], list(want), 'removed')
        for port, k in list(made): N.remove_portmap(port, k)
        gw.sound(); T.ok(not gw.mine, 'a mapping was left', gw.mine)
def serve(T, listen, taken, bad, refuse, lib, end):
    gw = GW(T, taken, bad, refuse); port = 5555; nd = node(address=('127.0.0.1', port) if listen else None); ran = []; at = []; e = dict(stop=N.StopNode, os=OSError, key=KeyboardInterrupt, end=None)[end]
    nd.socket = s = Sock()
    with world(gw if lib else None):
        def loop(*a, **k):
            T.ok(k.get('map', a[2] if len(a) > 2 else None) is nd, 'another map'); T.ok(not s.closed, 'closed before serving'); ran.append(dict(gw.mine)); at.append(len(gw.log))
            if e: raise e('end')
        asyncore.loop = loop; got = None
        try: nd.serve_forever()
        except (Exception, KeyboardInterrupt) as x: got = type(x)
        T.eq(len(ran), 1, 'served'); T.ok(got is (None if end in ('stop', 'end') else e), 'the way it ended', got); T.eq(s.closed, 1, 'closed')
        if not listen or not lib: T.eq([x for x in gw.log if x[0] in ('add', 'delete')], [], 'asked of the gateway')
        elif not bad and not refuse and free(gw, port, 'TCP'): T.eq(list(ran[0].values()), [port], 'mapped while serving')
        gw.sound(); T.ok(not gw.mine, 'a mapping was left', gw.mine); T.ok(all(x[0] != 'delete' for x in gw.log[:at[0]]) and all(x[0] != 'add' for x in gw.log[at[0]:]), 'order', gw.log)
def run(T):
    B = (8333, 'TCP')
    for listen in (True, False):
        for end in ('stop', 'os', 'key', 'end'):
            for lib in (True, False):
                for taken in ((), ((5555, 'TCP'),), ((5555, 'TCP'), (5556, 'TCP')), ((5555, 'UDP'),)):
                    T.case(serve, listen, taken, [], False, lib, end)
            for bad in range(1, 9): T.case(serve, listen, (), [bad], False, True, end)
            T.case(serve, listen, (), [], True, True, end)
    for p in (1, 80, 8333, 65534, 65535):
        for n in (0, 1, 2, 5):
            tk = [(x, 'TCP') for x in range(p, min(p + n, 65536))]
            for bad in ([], [1], [2], [5], [6], [7], [6 + n], [7 + n], [6 + n, 7 + n]):
                for refuse in (False, True): T.case(session, tk, bad, refuse, [('add', p, 'TCP'), ('remove', p, 'TCP'), ('remove', p, 'TCP'), ('add', p, 'TCP'), ('remove', p, 'TCP')])
    for order in ((0, 1), (1, 0)):
        for a, b in (((8333, 'TCP'), (8334, 'TCP')), ((8333, 'TCP'), (8333, 'UDP')), ((65535, 'TCP'), (65534, 'TCP')), ((8334, 'TCP'), (8333, 'TCP'))):
            for tk in ((), ((8333, 'TCP'),), ((8334, 'TCP'), (8333, 'UDP')), ((65535, 'TCP'),)):
                T.case(session, tk, [], False, [('add',) + a, ('add',) + b] + [('remove',) + (a, b)[i] for i in order])
    T.case(session, [(x, 'TCP') for x in range(8333, 65536)], [], False, [('add',) + B, ('remove',) + B])
    for h in T.hints:
        if isinstance(h.get('port'), int): p = h['port'] % 65535 + 1; T.case(session, [], [], False, [('add', p, 'TCP'), ('remove', p, 'TCP')]); T.case(session, [(p, 'TCP')], [], False, [('add', p, 'TCP'), ('remove', p, 'TCP')])
    while T.more():
        ps = [T.rng.choice((1 + T.below(65535), 8333, 8334, 65535)) for _ in range(3)]; ks = ('TCP', 'UDP')
        tk = [(min(p + T.rng.randrange(4), 65535), T.rng.choice(ks)) for p in ps for _ in range(T.rng.randrange(4))]; ops = []; on = set()
        for _ in range(T.rng.randint(1, 8)):
            x = (T.rng.choice(ps), T.rng.choice(ks)); ops.append((('remove',) if x in on else ('add',)) + x); on ^= {x}
        T.case(session, tk, [T.rng.randrange(1, 40) for _ in range(T.rng.choice((0, 0, 1, 2)))], T.rng.random() < .1, ops)
