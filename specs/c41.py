"""C41: the port mapping asked of the gateway is removed, and no other.

The gateway is any object with the methods the code uses: each call may fail, and which external ports are already mapped is
unknown (and changes only by what the node does)."""
from .node import *
import nbc.node as N
class Text(SObj):
    def __init__(self, key): self.key = key
    def ckey(self): return ('gw text', self.key)
    def s_str(self, it): return whole(Sym('gw_' + self.key, it.c.atom2(('gw len', self.key), 'len')[0], 0, 0x10ffff), 's')
class Gateway(SObj):
    def __init__(self, it):
        self.it = it; self.log = []; self.mine = []; self.q = None; self.fail = it.c.extra.get('may fail', True); self.broken = False
    def taken(self, p, proto):
        """0/1: external port p is mapped by someone else"""
        c = self.it.c; x, new = c.atom2(('taken', proto, c.norm(p) if isinstance(p, SInt) else p), 'taken')
        if new:
            c.fact(s_and(s_le(0, x), s_le(x, 1)))
            if self.q is not None and p is not self.q: c.fact(s_implies(s_eq(p, self.q), s_eq(x, self.taken(self.q, proto))))
        return x
    def used(self, p, proto): return s_or(s_eq(self.taken(p, proto), 1), *[s_eq(p, e) for e, r, k in self.mine if r == proto])
    def s_setattr(self, it, a, v): pass
    def s_getattr(self, it, a):
        if a == 'lanaddr': return Text('lan')
        if a == 'discoverdelay': return 200
        if a in ('discover', 'selectigd', 'externalipaddress', 'statusinfo', 'connectiontype', 'getspecificportmapping', 'addportmapping', 'deleteportmapping'): return Fn(lambda it, x, kw: self.ask(it, a, x))
        raise Unsupported('%s of the gateway' % a)
    def ask(self, it, a, x):
        c = it.c; c.trust('gateway: any answers, or failures; a mapping added stays until it is deleted')
        bad = self.fail and bool(c.choose(2))
        if a == 'addportmapping': self.log.append(('add', x)); self.check(it, x)
        if a == 'deleteportmapping': self.log.append(('delete', x)); self.check_delete(it, x)
        if bad: self.broken = True; raise ProgExc((Exception, OSError)[c.choose(2)]('gateway'))
        if a == 'discover': return c.fresh('devices', 0)
        if a == 'getspecificportmapping': return None if not c.decide(self.used(x[0], x[1])) else Opaque(('mapping', len(self.log)))
        if a == 'addportmapping':
            if c.choose(2): self.log.append('refused'); return False
            self.mine.append((x[0], x[1], x[3])); return True
        if a == 'deleteportmapping':
            self.mine = [m for m in self.mine if not self.the(it, m, x)]; return bool(c.choose(2))
        return Text(a)
    def the(self, it, m, x): return m[1] == x[1] and it.c.decide(s_eq(m[0], x[0]))
    def check(self, it, x):
        c = it.c; e, proto, lan, port = x[:4]; want = c.extra['asked']
        c.oblige_by('for the protocol', proto == want[1], 'path', repr(proto)); c.oblige('to the port that listens', it.eqb(port, want[0])); c.oblige_by('to this machine', isinstance(lan, Text) and lan.key == 'lan', 'path')
        c.oblige('a port there is', s_and(s_le(want[0], e), s_le(e, 65535))); c.oblige('a free one', s_not(self.used(e, proto)))
    def check_delete(self, it, x):
        c = it.c; want = c.extra['asked']; c.oblige('only the mapping that was made', s_or(*[s_and(s_eq(m[0], x[0]), s_eq(m[2], want[0])) for m in self.mine if m[1] == x[1]]))
def library(it):
    g = Gateway(it); L = Fn(lambda it, a, kw: g)
    class Lib(SObj):
        def s_getattr(self, it, a):
            if a == 'UPnP': return L
            raise Unsupported('%s of the UPnP library' % a)
    N.miniupnpc = Lib(); it.contracts[print] = lambda it, a, kw: [it.call(str, [x]) for x in a] and None; return g
def port(it, nm='port'):
    p = it.c.fresh(nm, 1, 65535); return p
def iff(a, b): return s_and(s_implies(a, b), s_implies(b, a))
def lower(it, g, p):
    c = it.c; q = c.extra['gw'].q
    return s_implies(s_and(s_le(c.extra['asked'][0], q), s_lt(q, p)), c.extra['gw'].used(q, c.extra['asked'][1]))
class Answer(object):
    """what the gateway said about a port: None or a mapping"""
    def fresh(self, it, name): return SAns(it, it.c.fresh(name, 0, 1))
    def view(self, it, v):
        if v is None: return 0
        if isinstance(v, SAns): return v.x
        return 1 if isinstance(v, Opaque) else None
class SAns(SObj):
    def __init__(self, it, x): self.x = x
    def s_isnone(self, it): return s_eq(self.x, 0)
    def s_truth(self, it): return it.c.decide(s_eq(self.x, 1))
    def s_eq(self, it, o): return s_eq(self.x, 0) if o is None else self is o
SEARCH = LoopSpec('searching', [('e', Int()), ('r', Answer())], lambda it, g, pos: [('in range', s_and(s_le(it.c.extra['asked'][0], g['e']), s_le(g['e'], 65535))), ('the answer is about it', iff(s_eq(g['r'], 1), it.c.extra['gw'].used(g['e'], it.c.extra['asked'][1]))), ('mapped up to it', lower(it, g, g['e']))])
FOR = LoopSpec('going through the ports', [], lambda it, g, pos: [('a for loop', False)] if pos is None else [('mapped up to it', lower(it, g, s_add(it.c.extra['asked'][0], pos)))])
PRINT = {}
def ask(it, p, proto='TCP'):
    it.c.extra['asked'] = (p, proto)
def start(it, g):
    c = it.c; q = g.q = c.fresh('any_port', 1, 65535); g.taken(q, 'TCP'); c.extra['gw'] = g
def loops(): return [SEARCH, FOR]
@unit('C41', 'a mapping is asked for, when a port is free', loops=loops(), reach=['mapped', 'refused', 'none free', 'failed'], shared=('nbc.node',), max_paths=20000)
def u0(it):
    c = it.c; g = library(it); start(it, g); p = port(it); ask(it, p)
    it.call(N.add_portmap, [p, 'TCP', 'label'])
    if g.mine: c.oblige_by('asked once', len(g.mine) == 1 and len([x for x in g.log if x[0] == 'add']) == 1, 'path'); c.reach('mapped')
    elif g.broken: c.reach('failed')
    elif 'refused' in g.log: c.reach('refused')
    else: c.oblige('no port was free', s_implies(s_le(p, g.q), g.used(g.q, 'TCP'))); c.reach('none free')
    g.broken = False; n = list(g.mine); it.call(N.remove_portmap, [p, 'TCP'])
    c.oblige_by('removed again', g.broken or not g.mine, 'path', repr(g.mine)); c.oblige_by('nothing but what was made', len([x for x in g.log if x[0] == 'delete']) == len(n), 'path', repr(g.log))
    k = len(g.log); it.call(N.remove_portmap, [p, 'TCP']); c.oblige_by('once', g.log[k:] == [] or g.broken, 'path')
@unit('C41', 'two mappings are kept apart', loops=loops(), reach=['both'], shared=('nbc.node',), max_paths=20000)
def u1(it):
    c = it.c; c.extra['may fail'] = False; g = library(it); start(it, g); p, r = port(it), port(it, 'other_port'); k = c.choose(2); c.assume(s_not(s_eq(p, r)) if k else True); pk, rk = 'TCP', 'TCP' if k else 'UDP'
    ask(it, p, pk); g.taken(g.q, rk); it.call(N.add_portmap, [p, pk, 'a']); a = list(g.mine)
    ask(it, r, rk); it.call(N.add_portmap, [r, rk, 'b']); b = g.mine[len(a):]
    first = c.choose(2)
    for (x, y), mine in (((p, pk), a), ((r, rk), b))[::1 if first else -1]:
        ask(it, x, y); n = len(g.log); before = len(g.mine); it.call(N.remove_portmap, [x, y])
        c.oblige_by('one removed when one was made', before - len(g.mine) == len(mine) == len(g.log) - n, 'path', repr((before, g.mine, mine)))
    c.oblige_by('none left', not g.mine, 'path')
    if a and b: c.reach('both')
def loop_contract(it, g, st):
    def k(it, a, kw):
        c = it.c; c.trust('asyncore.loop serves until nothing is left or a handler ends it'); c.oblige_by('the node is served', kw.get('map', a[2] if len(a) > 2 else None) is st['node'], 'path'); c.oblige_by('once', not st.get('served'), 'path')
        st['served'] = len(g.log) if g else 1; c.extra['closed'] = 0
        if g: g.broken = False
        e = [None, N.StopNode, OSError, RuntimeError, KeyboardInterrupt, SystemExit][c.choose(6)]
        st['end'] = e
        if e: st['exc'] = e('end'); raise ProgExc(st['exc'])
    it.contracts[asyncore.loop] = k
def serve(it, g, st, node):
    c = it.c; st['node'] = node; loop_contract(it, g, st)
    try: it.call(BN.BaseNode.serve_forever, [node]); got = None
    except ProgExc as e: got = e.exc
    if not c.oblige_by('the node served', 'served' in st, 'path', repr(got)): return
    c.oblige_by('it ends quietly when stopped, else with the error', got is None if st['end'] in (None, N.StopNode) else got is st['exc'], 'path', repr((st['end'], got)))
    c.oblige_by('closed', c.extra.get('closed') == 1, 'path', repr(c.extra.get('closed')))
def k_hclose(it, a, kw):
    it.c.trust('asyncore.dispatcher.handle_close closes the channel'); return it.call(it.getattr(a[0], 'close'))
SERVE = {**NODE, asyncore.dispatcher.handle_close: k_hclose}
def listening(it, p, **kw):
    """a node whose port is p: the fields that hold the address it was given"""
    probe = new_node(address=('127.0.0.9', 4321)); l = [k for k, v in probe.__dict__.items() if v == ('127.0.0.9', 4321)]
    node = new_node(**kw); it.note_alloc(node)
    for k in l: node.__dict__[k] = ('127.0.0.1', p)
    return node
@unit('C41', 'a listening node has its port mapped while it serves', loops=loops(), reach=['mapped', 'not mapped'], contracts=SERVE, shared=('nbc.node',), max_paths=20000)
def u2(it):
    c = it.c; st = {}; g = library(it); start(it, g); p = port(it); ask(it, p); node = listening(it, p); serve(it, g, st, node)
    adds = [i for i, x in enumerate(g.log) if x[0] == 'add']; dels = [i for i, x in enumerate(g.log) if x[0] == 'delete']; s = st.get('served', 0)
    c.oblige_by('asked for before serving', all(i < s for i in adds), 'path'); c.oblige_by('removed after serving', all(i >= s for i in dels), 'path')
    if g.mine: c.oblige_by('its removal was asked for', bool(dels) and g.broken, 'path', repr(g.log))
    if dels: c.reach('mapped')
    else: c.reach('not mapped')
@unit('C41', 'a node that does not listen asks for nothing', loops=loops(), reach=['end'], contracts=SERVE, shared=('nbc.node',))
def u3(it):
    c = it.c; st = {}; g = library(it); start(it, g); p = port(it); ask(it, p); node = listening(it, p, address=None); serve(it, g, st, node)
    c.oblige_by('no mapping', [x for x in g.log if x[0] in ('add', 'delete')] == [], 'path', repr(g.log))
@unit('C41', 'without a gateway library the node serves all the same', reach=['end'], contracts=SERVE, shared=('nbc.node',))
def u4(it):
    c = it.c; st = {}; it.contracts[print] = lambda it, a, kw: None; p = port(it); node = listening(it, p); serve(it, None, st, node)
