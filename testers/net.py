"""Node, connections and sockets for the node testers."""
import io, sys, time, hashlib
from . import base
import asyncore
from nbc.node import basenode as BN, connection as C
from nbc import protocol as P
from . import wire as W
class Sock(object):
    def __init__(self): self.inq = []; self.out = b''; self.accept_n = []; self.closed = 0
    def recv(self, n):
        x = self.inq.pop(0)
        if isinstance(x, Exception): raise x
        return x
    def send(self, d):
        k = self.accept_n.pop(0) if self.accept_n else len(d)
        if isinstance(k, Exception): raise k
        k = min(k, len(d)); self.out += d[:k]; return k
    def close(self): self.closed += 1
def node(cls=None, **kw):
    d = dict(data_dir='/nonexistent', address=('127.0.0.1', 1234), log=io.StringIO()); d.update(kw)
    return (cls or BN.BaseNode)(**d)
WHERE = [('10.1.2.3', 4567), ('127.0.0.1', 8333), ('0.0.0.0', 0), ('255.255.255.255', 65535), ('192.168.1.1', 33333), ('2001:db8:0:0:0:0:0:1', 443), ('8.8.8.8', 80)]
def where(i): return WHERE[i] if 0 <= i < len(WHERE) else ('10.9.%d.%d' % (i // 200, i % 200), 8333 + i % 3)
def peer(nd, address=None, twin=False):
    address = address or WHERE[getattr(sys, 'case_key', 0) % len(WHERE)]
    if twin: C.Connection(node=nd, address=address, sock=Sock())          # another connection from the same address
    s = Sock(); o = C.Connection(node=nd, address=address, sock=s); return o, s
class Clock(object):
    """time.time for the modules under test"""
    def __init__(self, t): self.t = t
    def __enter__(self): self.old = time.time; time.time = lambda: self.t; return self
    def __exit__(self, *a): time.time = self.old
def clear(o, s):
    """let everything queued so far leave"""
    while o.writable(): o.handle_write()
    x = s.out; s.out = b''; return x
def split(data, magic):
    """the frames in a byte string, decoded by the rules of the wire: [(command, payload)]"""
    out = []
    while data:
        base_ = data[:24]; n = int.from_bytes(base_[16:20], 'little'); p = data[24:24+n]
        if base_[:4] != magic or len(p) != n or W.dsha(p)[:4] != base_[20:24]: raise base.Bad('what was sent is not a sequence of frames: %r' % data[:60])
        out.append((base_[4:16].rstrip(b'\0').decode(), p)); data = data[24+n:]
    return out
