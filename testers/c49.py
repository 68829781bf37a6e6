"""starting a node"""
from .net import *
import errno, socket, threading, sys, os, time
from nbc.node import basenode as BN, raw as RAW
from nbc import coins, util
class Fails(Exception): pass
def scripted(log, fail, no, own):
    """the node's dispatcher methods with scripted outcomes"""
    def op(n):
        def f(me, *a):
            log.append((n,) + a)
            if n == fail: raise no if isinstance(no, Exception) else OSError(no, 'scripted')
            if n == 'getsockname': return own
        return f
    return {n: op(n) for n in ('create_socket', 'set_reuse_addr', 'bind', 'listen', 'getsockname')}
class SomeCoin(object): name = 'somecoin'
def start(T, which, addr, fail, no, boot, seek, limit, own):
    base = (BN.BaseNode, RAW.RawNode)[which]; log = []; coin = type('K', (SomeCoin,), dict(dns_seeds=[('a.seed', 1), ('b.seed', 2)])); sink = open(os.devnull, 'w')
    cls = type('Scripted', (base,), scripted(log, fail, no, own)); d = object()
    try:
        try: nd = cls(data_dir=d, address=addr, seek_peers=seek, max_peers=limit, bootstrap=boot, log=sink, coin=coin)
        except Exception as e:
            T.ok(fail is not None, 'started', repr(e)); w = getattr(no, 'errno', no) == errno.EADDRINUSE
            T.ok(isinstance(e, BN.AddrInUseError) if w else isinstance(e, OSError) and (e is no or e.errno == no), 'the error reported', repr(e), no); return
        T.ok(fail is None, 'a failure is reported', fail, no); want = addr or ('127.0.0.1', 0)
        T.eq([x for x in log if x[0] not in ('listen', 'getsockname')], [('create_socket', socket.AF_INET, socket.SOCK_STREAM), ('set_reuse_addr',), ('bind', want)], 'socket'); T.ok(sum(x[0] == 'listen' for x in log) == 1 and log.index(('bind', want)) < [x[0] for x in log].index('listen'), 'listens', log)
        rep = own if want[1] == 0 else want; T.eq((nd.address, nd.ip, nd.port), (rep, rep[0], rep[1]), 'address'); T.eq(nd.external_ip, want[0], 'external address'); T.eq(nd.blockchain_height, 0, 'height')
        T.ok(nd.coin is coin and nd.data_dir is d, 'coin, directory'); T.eq(nd.log_level, nd.LOG_LEVEL_ERROR, 'log level'); T.ok(nd.user_agent.startswith('/nbc:') and nd.user_agent.endswith('(somecoin)/'), 'agent', nd.user_agent); T.eq(nd.peers, [], 'peers')
        dialed = []; old = BN.connection.Connection; BN.connection.Connection = lambda **k: dialed.append(k['address'])
        try:
            r = nd.add_peer(('10.0.0.9', 9), False); ok = len(nd) < limit; T.ok(r is ok and dialed == [('10.0.0.9', 9)] * ok, 'limit', limit, dialed)
            del dialed[:]; coin.dns_seeds.append(('c.seed', 3))
            if limit > 5:
                nd.add_any_peer(); T.ok(len(dialed) == 1 and dialed[0] in coin.dns_seeds[:2] if boot else dialed == [], 'seeds', dialed)
            n = []; nd.add_any_peer = lambda: n.append(1); nd.heartbeat(); T.eq(len(n), max(0, min(5, seek)), 'attempts')
        finally: BN.connection.Connection = old
        for k, v in (('user_agent', '/x/'), ('log_level', 0), ('external_ip', '1.2.3.4')): setattr(nd, k, v); T.eq(getattr(nd, k), v, k)
        for k, v in (('user_agent', ''), ('log_level', 4), ('external_ip', '::1')): setattr(nd, k, v); T.eq(getattr(nd, k), v, k)
    finally: sink.close()
def default(T, which):
    cls = type('Scripted', ((BN.BaseNode, RAW.RawNode)[which],), scripted([], None, None, ('127.0.0.1', 4321))); nd = cls()
    T.eq((nd.data_dir, nd.port), (util.default_data_directory(), 4321), 'defaults'); T.ok(nd.coin is coins.Newbitcoin, 'coin')
    got = []; nd.add_peer = lambda a, force=True: got.append(a) or True; nd.add_any_peer(); T.eq(len(got), 1 - which, 'seeds dialed'); del nd.add_peer
    class P(object):
        address = ('10.0.0.1', 1)
    old = BN.connection.Connection; BN.connection.Connection = lambda *a, **k: got.append(k.get('address'))
    try:
        for n in (124, 125):
            for i in range(n): nd[i] = P()
            del got[:]; T.eq(nd.add_peer(('10.0.0.9', 9), False), n < 125, 'below its limit'); T.eq(len(got), int(n < 125), 'dialed')
    finally: BN.connection.Connection = old
    del got[:]; nd = cls(); nd.add_any_peer = lambda: got.append(1); nd.heartbeat(); T.eq(len(got), 5, 'peers sought')
    for i in range(13): peer(nd, ('10.0.1.%d' % i, 1))
    del got[:]; nd.heartbeat(); T.eq(len(got), 3, 'peers sought')
def server(T, late):
    go, seen = threading.Event(), []
    class Node(object):
        def serve_forever(self): seen.append(threading.current_thread()); go.wait(5); seen.append('end')
    old = BN.time.sleep; BN.time.sleep = lambda s: None
    try: BN.startServer(Node())
    finally: BN.time.sleep = old
    for _ in range(500):
        if seen: break
        time.sleep(0.01)
    T.ok(len(seen) == 1 and seen[0] is not threading.current_thread() and seen[0].daemon, 'served in the background by a daemon thread', seen); go.set()
def run(T):
    import warnings; warnings.simplefilter('ignore'); R = T.rng
    for h in T.hints:
        n = h.get('errno')
        for w in (0, 1):
            for f in ('create_socket', 'bind', 'listen'):
                if isinstance(n, int): T.case(start, w, ('10.0.0.1', 8333), f, n, True, 3, 8, ('10.0.0.1', 99))
            if isinstance(h.get('port'), int): T.case(start, w, ('10.0.0.1', h['port']), None, None, True, 3, 8, ('10.0.0.1', 99))
    for w in (0, 1):
        T.case(default, w)
        for a in (None, ('10.0.0.1', 0), ('10.0.0.1', 1), ('0.0.0.0', 8333), ('10.0.0.1', 65535)):
            for boot in (False, True):
                for seek, limit in ((0, 0), (1, 1), (3, 2), (5, 8), (6, 9), (16, 125)): T.case(start, w, a, None, None, boot, seek, limit, ('10.0.0.7', 4567))
            for f in ('create_socket', 'bind', 'listen'):
                for no in (errno.EADDRINUSE, 48, errno.EACCES, errno.EADDRNOTAVAIL, errno.EMFILE, 0): T.case(start, w, a, f, no, False, 1, 8, ('10.0.0.7', 4567))
    T.case(server, 0)
    while T.more(1): T.case(start, R.randrange(2), R.choice([None, ('10.0.0.%d' % R.randrange(256), R.choice([0, R.randrange(65536)]))]), R.choice([None, None, 'bind', 'listen']), R.choice([98, 48, R.randrange(1, 130)]), R.random() < .5, R.randrange(20), R.randrange(20), ('127.0.0.%d' % R.randrange(256), R.randrange(1, 65536)))
