"""C50: failures of one connection

The event loop (asyncore) is a contract: whatever leaves a handler of a channel is given to the handle_error of that
channel, in the context of the exception."""
import socket
from .node import *
D = asyncore.dispatcher
KINDS = [OSError, ConnectionRefusedError, ConnectionResetError, TimeoutError, ValueError, KeyError, AttributeError]
def logged(it, a, kw):
    d = dict(zip(('node', 'message', 'peer', 'level'), a)); d.update(kw); d.setdefault('peer', None); d.setdefault('level', BN.BaseNode.LOG_LEVEL_INFO); it.c.extra.setdefault('log', []).append(d)
def pair(it, node=None):
    """a node with a connection and another one, perhaps from the same address, that came before or after it"""
    k = it.c.choose(3); nd = node or new_node(); a = ('10.1.2.3', 4567); other = lambda: it.note_alloc(C.Connection(node=nd, address=a if k else ('10.1.2.9', 99), sock=Sock()))
    x = other() if k < 2 else None; nd, o = connection(it, nd, a); x = x or other(); it.c.extra['other'] = x; return nd, o
def failing(it, what):
    """one of the kinds of exceptions"""
    k = KINDS[it.c.choose(len(KINDS))]; x = k(what); it.c.extra['error'] = x; return x
def current(it, a, kw):
    x = it.c.extra['error']; it.c.trust('sys.exc_info gives the exception being handled'); return (type(x), x, Opaque(('traceback object',)))
CON = {**NODE, BN.BaseNode.log: logged, sys.exc_info: current, traceback.print_exc: lambda it, a, kw: None, print: lambda it, a, kw: None}
def loop(it, chan, handler, args=()):
    """what the event loop does with a channel"""
    it.c.trust('asyncore: what leaves a handler of a channel is given to its handle_error')
    try: it.call(it.getattr(chan, handler), list(args))
    except ProgExc as x: it.c.extra['error'] = x.exc; it.c.extra['left'] = x.exc; it.call(it.getattr(chan, 'handle_error'), [])
def default_error(it, a, kw): it.c.trust('asyncore.dispatcher.handle_error closes the channel'); return it.call(it.getattr(a[0], 'handle_close'), [])
def default_close(it, a, kw): return it.call(it.getattr(a[0], 'close'), [])
CON.update({getattr(D, n): f for n, f in (('handle_error', default_error), ('handle_close', default_close)) if hasattr(D, n)})
def snapshot(nd): return [(k, v) for k, v in nd._peers.items()]
def others(it, nd, before): it.c.oblige_by('no other channel is touched', all(any(y is v for y in nd._peers.values()) for k, v in before), 'path')
def closing(it, o):
    """closing works or fails"""
    def close(it, a, kw):
        k_close(it, a, kw); it.c.oblige_by('only this connection', a[0] is o, 'path')
        if it.c.choose(2): raise ProgExc(OSError('closing'))
    it.contracts[D.close] = close
@unit('C50', 'an error while a connection is handled', contracts=CON, reach=['socket', 'other'])
def u1(it):
    c = it.c; e = c.extra; nd, o = pair(it); before = snapshot(nd); closing(it, o); x = failing(it, 'failed')
    it.call(C.Connection.handle_error, [o])
    c.oblige_by('the connection is closed and the node told', e.get('closed') == 1 and e.get('told') == [o], 'path', repr((e.get('closed'), e.get('told')))); l = e.get('log', []); sk = isinstance(x, socket.error)
    c.oblige_by('reported once, for this peer', len(l) == 1 and l[0]['peer'] is o, 'path', repr(l))
    c.oblige_by('a failing socket for information, other errors as errors', l[0]['level'] == (BN.BaseNode.LOG_LEVEL_INFO if sk else BN.BaseNode.LOG_LEVEL_ERROR), 'path', repr((x, l[0]['level'])))
    if not sk: c.oblige_by('with what happened', isinstance(l[0]['message'], str) and 'traceback' in l[0]['message'], 'path', repr(l[0]['message']))
    others(it, nd, [b for b in before if b[1] is not o]); c.reach('socket' if sk else 'other')
@unit('C50', 'closing a connection', contracts=CON, reach=['end'])
def u2(it):
    c = it.c; e = c.extra; nd, o = pair(it); closing(it, o); it.call(C.Connection.handle_close, [o]); c.oblige_by('closed once and the node told', e.get('closed') == 1 and e.get('told') == [o], 'path', repr((e.get('closed'), e.get('told'))))
@unit('C50', 'reading fails', contracts=CON, reach=['end'])
def u3(it):
    c = it.c; e = c.extra; nd, o = pair(it); closing(it, o); x = failing(it, 'reading')
    def sock(it, k): raise ProgExc(x)
    e['sock'] = sock; loop(it, o, 'handle_read'); c.oblige_by('this connection is closed and the node told', (e.get('closed') or 0) >= 1 and e.get('told') and all(t is o for t in e['told']), 'path', repr((e.get('closed'), e.get('told'))))
@unit('C50', 'writing fails', contracts=CON, reach=['end'])
def u4(it):
    c = it.c; e = c.extra; nd, o = pair(it); closing(it, o); x = failing(it, 'writing')
    def sock(it, k): raise ProgExc(x)
    e['sock'] = sock; loop(it, o, 'handle_write'); c.oblige_by('this connection is closed and the node told', (e.get('closed') or 0) >= 1 and e.get('told') and all(t is o for t in e['told']), 'path', repr((e.get('closed'), e.get('told'))))
@unit('C50', 'an invalid message', contracts=CON, reach=['end'])
def u5(it):
    c = it.c; e = c.extra; nd, o = pair(it); it.call(it.getattr(nd, 'invalid_command'), [o, sbytes(it, 'payload'), M.MsgFormatError('malformed')])
    c.oblige_by('is reported, and nothing is closed', len(e.get('log', [])) == 1 and not e.get('closed') and not e.get('told'), 'path', repr((e.get('log'), e.get('closed'))))
@unit('C50', 'accepting a connection fails or not', contracts=CON, reach=['accept failed', 'connection failed', 'close failed', 'served', 'nobody'])
def u6(it):
    c = it.c; e = c.extra; nd, o = pair(it, new_node(**({} if c.choose(2) else dict(address=None)))); before = snapshot(nd); how = c.choose(3); cl = []
    def close(it, a, kw): k_close(it, a, kw); cl.append(a[0])
    it.contracts[D.close] = close
    def sclose(it, a, kw):
        if c.choose(2): e['sock failed'] = 1; raise ProgExc(OSError('closing'))
    def accept(it, a, kw):
        it.c.trust('asyncore.dispatcher.accept gives a socket and its address, or None, or fails')
        if how == 0: raise ProgExc(failing(it, 'accept'))
        return None if how == 1 else (AObj(close=Fn(sclose)), ('10.1.2.9', 99))
    def made(it, a, kw):
        if c.choose(2): e['not made'] = 1; raise ProgExc(failing(it, 'connection'))
        e['made'] = 1; return Opaque(('connection',))
    it.contracts[D.accept] = accept; it.contracts[C.Connection] = made; loop(it, nd, 'handle_accept')
    c.oblige_by('the node keeps listening', not cl and not e.get('closed'), 'path', repr(cl)); others(it, nd, before); l = e.get('log', [])
    if 'left' in e: c.oblige_by('reported as an error', len(l) == 1 and l[0]['level'] == BN.BaseNode.LOG_LEVEL_ERROR and 'traceback' in l[0]['message'], 'path', repr(l))
    c.reach('accept failed' if how == 0 else 'nobody' if how == 1 else 'close failed' if 'sock failed' in e else 'connection failed' if 'not made' in e else 'served')
@unit('C50', 'a node is always ready to accept', contracts=CON, reach=['end'])
def u7(it):
    c = it.c; nd, o = connection(it); before = snapshot(nd); c.oblige_by('readable', it.truth(it.call(it.getattr(nd, 'readable'), [])), 'path'); it.call(it.getattr(nd, 'begin_loop'), []); others(it, nd, before); c.oblige_by('nothing is closed', not c.extra.get('closed'), 'path')
