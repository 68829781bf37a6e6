"""Stand-in for the asyncore module (removed in Python 3.12): the same names and the same book-keeping of channels;
sockets are supplied by the caller."""
import sys, types
def install():
    if 'asyncore' in sys.modules: return
    m = types.ModuleType('asyncore')
    count = [1000]
    class dispatcher(object):
        connected = False; accepting = False; addr = None; socket = None; _fileno = None
        def __init__(self, sock=None, map=None):
            self._map = map
            if sock is not None: self.set_socket(sock, map); self.connected = True
        def add_channel(self, map=None):
            if map is None: map = self._map
            if map is not None: map[self._fileno] = self
        def del_channel(self, map=None):
            if map is None: map = self._map
            if map is not None and self._fileno in map: del map[self._fileno]
            self._fileno = None
        def set_socket(self, sock, map=None):
            self.socket = sock; count[0] += 1; self._fileno = count[0]; self.add_channel(map)
        def create_socket(self, family=None, type=None): self.set_socket(None)
        def set_reuse_addr(self): pass
        def bind(self, addr): self.addr = addr
        def getsockname(self): return self.addr
        def listen(self, n): self.accepting = True
        def connect(self, addr): self.connected = True; self.addr = addr
        def accept(self): return self.socket.accept()
        def send(self, data): return self.socket.send(data)
        def recv(self, n): return self.socket.recv(n)
        def close(self):
            self.connected = False; self.accepting = False; self.del_channel()
            if self.socket is not None: self.socket.close()
        def handle_error(self): self.handle_close()
        def handle_close(self): self.close()
    m.dispatcher = dispatcher
    m.socket_map = {}
    m.ExitNow = type('ExitNow', (Exception,), {})
    m.loop = lambda *a, **k: None
    sys.modules['asyncore'] = m
