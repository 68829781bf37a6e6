"""Shared by the node properties: a connection and a node in an arbitrary state.

The objects are created by running the real constructors (natively, on concrete values, with the asyncore stand-in);
a unit then puts symbolic values in the fields it is about."""
import time, os, traceback, random, sys
try: import asyncore
except ImportError:
    from pyvc import stubs; stubs.install(); import asyncore
from .proto import *
from nbc.node import basenode as BN, connection as C
def k_recv(it, a, kw): it.c.trust('socket: receiving gives any bytes, none at the end, or fails'); return it.c.extra['sock'](it, a[1])
def k_send(it, a, kw): it.c.trust('socket: sending accepts any number of the bytes or fails'); return it.c.extra['sock'](it, a[1])
def k_close(it, a, kw):
    it.c.trust('asyncore.dispatcher.close closes the socket and takes the channel out of the map')
    it.c.extra['closed'] = it.c.extra.get('closed', 0) + 1
    return None
def k_disc(it, a, kw): it.c.extra.setdefault('told', []).append(a[1]); return None
NODE = {asyncore.dispatcher.recv: k_recv, asyncore.dispatcher.send: k_send, asyncore.dispatcher.close: k_close, BN.BaseNode.disconnected: k_disc,
    time.time: lambda it, a, kw: it.c.extra['clock'](it) if 'clock' in it.c.extra else Opaque(('time', len(it.c.trace))), traceback.format_exc: lambda it, a, kw: 'traceback',
    BN.BaseNode.log: lambda it, a, kw: None}
def new_node(**kw):
    d = dict(data_dir='/nonexistent', address=('127.0.0.1', 1234), log=None); d.update(kw)
    return BN.BaseNode(**d)
class Sock(object):
    def close(self): pass
def connection(it, node=None, address=('10.201.202.203', 51423), twin=False, unknown=None):
    """a connection; twin: after another one from the same address"""
    node = node or new_node()
    if twin: it.note_alloc(C.Connection(node=node, address=address, sock=Sock()))
    o = C.Connection(node=node, address=address, sock=Sock())
    it.note_alloc(node); it.note_alloc(o)
    if unknown is None: unknown = (Opaque(('peer ip',), str), it.c.fresh('peer_port', 0, 65535))
    if unknown:                                   # made with a concrete address, which is then replaced by an unknown one
        for x in {id(x): x for x in [o] + list(node.values()) if x is not node}.values():
            for k, v in list(x.__dict__.items()):
                if type(v) not in (tuple, str, int): continue
                if v == address: x.__dict__[k] = unknown
                elif v in address and v: x.__dict__[k] = unknown[address.index(v)]
    return node, o
def buffer_attr(it, node, o):
    """the field that keeps received bytes: the one that holds a single byte received by a fresh connection"""
    p = C.Connection(node=new_node(), address=('10.1.2.4', 4568), sock=Sock())
    before = dict(p.__dict__); p.recv = lambda n: b'Z'
    C.Connection.handle_read(p)
    l = [k for k, v in p.__dict__.items() if v == b'Z' and before.get(k) == b'']
    if len(l) != 1: raise Unsupported('the field that keeps received bytes')
    return l[0]
def described(it, a, kw):
    """contract of describing a message: some text, and nothing changes (proved under C42)"""
    c = it.c; c.trust('contract of str() and _debug() of messages (proved under C42)'); n = c.fresh('n_text', 1, record=False); return whole(Sym('description%d' % len(c.trace), n, 0, 0x10ffff), 's')
DESCRIBED = {F.CompoundType.__str__: described}
for _c in set(MSGCLS.values()):
    for _m in ('__str__', '_debug'):
        _f = getattr(_c, _m, None)
        if isinstance(_f, type(described)): DESCRIBED[_f] = described
