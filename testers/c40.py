from .base import *
import threading, socket, time, contextlib, os, json, io
from nbc.util import bootstrap as B
from nbc import util as UT
class World(object):
    """threads that run when told to, at a virtual time; a lock that knows whether it is held"""
    def __init__(self): self.threads = []; self.now = 1000.0; self.locks = []; self.arrive = {}; self.main = True; self.escaped = []; self.other = None; self.unlocked = None
    def held(self): return any(l.h for l in self.locks)
    def run(self, t):
        if t.done: return
        t.done = True; m, self.main = self.main, False
        try: t.target(*t.args, **t.kwargs)
        except Exception as e: self.escaped.append(e)
        finally: self.main = m
    def until(self, when, stop=None):
        """time passes; threads whose answer arrives run; early return when stop() holds"""
        for t in sorted([t for t in self.threads if t.started and not t.done], key=lambda t: self.at(t)):
            if stop and stop(): return
            if self.at(t) > when: break
            self.now = max(self.now, self.at(t)); self.run(t)
        if not (stop and stop()): self.now = max(self.now, when)
    def at(self, t): return self.arrive.get(self.threads.index(t), 0)
@contextlib.contextmanager
def world():
    W = World()
    class Lock(object):
        def __init__(self): self.h = False; W.locks.append(self)
        def acquire(self, *a, **k):
            if self.h: raise Bad('the lock is taken twice: nobody gets on')
            self.h = True; return True
        def release(self):
            if not self.h: raise RuntimeError('release unlocked lock')
            self.h = False
            if W.other: f, W.other = W.other, None; f()
        def locked(self): return self.h
        def __enter__(self): return self.acquire()
        def __exit__(self, *a): self.release()
    class Thread(object):
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target, self.args, self.kwargs, self.daemon, self.started, self.done = target, args, kwargs or {}, daemon, False, False
        def setDaemon(self, d): self.daemon = d
        def is_alive(self): return self.started and not self.done
        def start(self):
            if self.started: raise RuntimeError('threads can only be started once')
            if W.held(): raise Bad('a thread is started under the lock')
            self.started = True; W.threads.append(self)
            if W.arrive.get(len(W.threads) - 1) == 0: W.run(self)
        def join(self, timeout=None):
            if W.held(): raise Bad('waits while holding the lock')
            if not self.started: raise RuntimeError('cannot join thread before it is started')
            if timeout is None: timeout = 10 ** 9
            if timeout > 0: W.until(W.now + timeout, lambda: self.done)
    keep = [(threading, n, getattr(threading, n)) for n in ('Lock', 'RLock', 'Thread')] + [(time, n, getattr(time, n)) for n in ('time', 'monotonic', 'perf_counter', 'sleep')] + [(socket, 'getaddrinfo', socket.getaddrinfo)]
    old = sys.stdout
    try:
        threading.Lock = threading.RLock = Lock; threading.Thread = Thread; time.time = time.monotonic = time.perf_counter = lambda: W.now
        def sleep(d): W.until(W.now + d)
        time.sleep = sleep; sys.stdout = io.StringIO(); yield W
    finally:
        sys.stdout = old
        for m, n, v in keep: setattr(m, n, v)
def guard(W, o):
    """the shared list complains when it is touched without the lock"""
    for k, v in list(vars(o).items()):
        if type(v) is list and not v:
            class Guarded(list): pass
            def wrap(n):
                f = getattr(list, n)
                def g(me, *a, **kw):
                    if not W.held(): W.unlocked = n
                    return f(me, *a, **kw)
                return g
            for n in ('append', 'extend', 'insert', 'pop', 'remove', '__len__', '__getitem__', '__delitem__', '__setitem__', '__iter__'): setattr(Guarded, n, wrap(n))
            setattr(o, k, Guarded())
class Answers(list):
    """the seeder is used between two answers of a lookup"""
    def __init__(self, xs, f): list.__init__(self, xs); self.f = f
    def __iter__(self):
        for x in list.__iter__(self): yield x; self.f()
def seeding(T, answers, order, early, pops, as_tuple):
    """answers: per seed, how many, or None for a failure; order: in which order lookups end; early: lookups that end before the constructor returns; pops: entries taken between two lookups"""
    with world() as W:
        W.unlocked = None; n = len(answers); asked = []; held = []; out = []; S = []
        seeds = [('seed%d.example' % i, 8000 + i) for i in range(n)]; seeds = tuple(seeds) if as_tuple else seeds
        def answer(h, p, *a, **kw):
            if W.main: raise Bad('the constructor waits for a lookup')
            if W.held(): raise Bad('a lookup under the lock: nobody can use the seeder meanwhile')
            asked.append((h, p)); i = seeds.index((h, p)) if (h, p) in seeds else 0; k = answers[i]
            if k is None or isinstance(k, str): raise dict(value=ValueError, key=KeyError).get(k, socket.gaierror)('no such host')
            xs = [('10.%d.0.%d' % (i, j), p) for j in range(k)]
            def between():
                if S and not W.held():
                    if out is not None and len(S[0]) and pops: take(S[0])
            held.extend(xs); return Answers([(socket.AF_INET, socket.SOCK_STREAM, 6, '', x) for x in xs], between)
        def take(s):
            x = s.pop(); out.append(x)
            if x not in held: raise Bad('pop: %r is not an address found, or was handed out before' % (x,))
            held.remove(x)
        socket.getaddrinfo = answer; W.arrive = {i: 0 if i in early else 10 ** 9 for i in range(n)}; s = B.DNSSeeder(seeds); T.ok(W.now == 1000.0, 'the constructor waits')
        T.eq(len(W.threads), n, 'lookups started'); T.ok(all(t.daemon for t in W.threads), 'a lookup keeps the program alive')
        if not early: guard(W, s)
        S.append(s)
        for i in order:
            if i < n: W.run(W.threads[i])
            T.ok(not W.held(), 'the lock is left held'); T.eq(len(s), len(held), 'number held')
            for _ in range(pops):
                if len(held): take(s); T.eq(len(s), len(held), 'number held after a pop')
        for t in W.threads: W.run(t)
        T.ok(not W.escaped, 'a failure escapes from a lookup', W.escaped); T.eq(sorted(asked), sorted(seeds), 'one lookup per seed, for that seed')
        T.eq(len(s), len(held), 'number held')
        while held: take(s)
        T.eq(len(s), 0, 'number held at the end')
        try: s.pop()
        except (LookupError, ValueError): pass
        else: raise Bad('pop of an empty seeder returns')
        T.ok(not W.held(), 'the lock is left held'); T.eq(len(s), 0, 'an empty seeder')
        T.ok(W.unlocked is None, 'the shared list is touched without the lock', W.unlocked)
def racing(T, k):
    """another thread pops between two critical sections of a pop"""
    with world() as W:
        xs = [('10.0.0.%d' % j, 1) for j in range(k)]; socket.getaddrinfo = lambda *a, **kw: [(2, 1, 6, '', x) for x in xs]
        s = B.DNSSeeder([('a', 1)])
        for t in W.threads: W.run(t)
        out = []
        def pop():
            try: out.append(s.pop())
            except LookupError: pass
        W.other = pop
        try: pop()
        except ValueError as e: raise Bad('pop fails (%s) because another thread popped; %d entries were held' % (e, k))
        T.eq(len(out), min(2, k), 'entries handed out to two threads'); T.eq(len(set(out)), len(out), 'entries handed out twice'); T.eq(len(s), k - len(out), 'number held')
class Coin(object): pass
def guessing(T, services, limit):
    """services: (delay, height or None for a failure); heights that arrive within the limit are in the answer, others never"""
    with world() as W:
        asked = []
        def q(i, d, h):
            def f():
                if W.main: raise Bad('the caller makes the query itself')
                if W.held(): raise Bad('a query under the lock: no other answer gets in meanwhile')
                asked.append(i)
                if h is None: raise ValueError('no answer')
                return h
            return f
        name = lambda i: '' if i == 1 and len(services) % 2 == 0 else 'service %d' % i
        class Guard(dict):
            def __setitem__(me, k, v):
                if not W.main and not W.held(): W.unlocked = 'write'
                dict.__setitem__(me, k, v)
            def copy(me):
                if not W.held(): W.unlocked = 'copy'
                return dict.copy(me)
        UT.dict = Guard
        c = Coin(); c.block_height_guess = [(name(i), q(i, d, h)) for i, (d, h) in enumerate(services)]
        t0 = W.now; W.arrive = {i: (t0 + d if d else 0) for i, (d, h) in enumerate(services)}
        
        try: r = UT.guess_block_height(c, limit)
        finally: del UT.dict
        T.ok(W.unlocked is None, 'the shared answers are used without the lock', W.unlocked); T.eq(len(W.threads), len(services), 'queries started'); T.ok(all(t.daemon for t in W.threads), 'a query keeps the program alive')
        T.ok(W.now <= t0 + max(limit, 0) + 1e-6, 'waits beyond the limit', W.now - t0); T.ok(not W.held(), 'the lock is left held')
        want = {name(i): h for i, (d, h) in enumerate(services) if h is not None and i in asked}; T.eq(dict(r), want, 'heights after %g s' % (W.now - t0))
        T.ok(W.now >= t0 + limit - 1e-6 or all(t.done for t in W.threads), 'gives up before the limit while answers are missing', W.now - t0)
        W.until(W.now + 10 ** 6); T.eq(dict(r), want, 'the answer, later'); T.eq(sorted(asked), list(range(len(services))), 'every service is asked once'); T.ok(not W.escaped, 'a failure escapes from a query', W.escaped)
class Reply(object):
    def __init__(self, b): self.b = b
    def read(self): return self.b
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
def query(T, text, path, want):
    """path None: a plain number; want: the number, or None; text None: the service cannot be reached"""
    keep = UT.urllib2.urlopen; n = []; old = sys.stdout; sys.stdout = io.StringIO()
    def urlopen(r, *a, **k):
        n.append(r if isinstance(r, str) else r.full_url)
        if text is None: raise OSError('unreachable')
        return Reply(text)
    UT.urllib2.urlopen = urlopen
    try:
        f = UT.fetch_url_int('http://h.example/q') if path is None else UT.fetch_url_json_path_int('http://h.example/q', path); T.eq(n, [], 'asked before it is called')
        for k in (1, 2):
            try: r = f()
            except OSError:
                T.ok(text is None and path is not None, 'fails although the service answered'); r = None
            T.eq(r, want, 'the number (call %d)' % k); T.eq(n, ['http://h.example/q'] * k, 'queries')
    finally: UT.urllib2.urlopen = keep; sys.stdout = old
def reference(text, path):
    try:
        d = json.loads(text)
        for c in path.split('/'):
            if isinstance(d, dict): d = d[c]
            elif isinstance(d, list): d = d[int(c)]
            else: return None
        return int(d)
    except Exception: return None
def run(T):
    for k in (1, 2, 3): T.case(racing, k)
    T.case(seeding, [2, 1, 0, 3], [2, 0, 3, 1], [], 1, False); T.case(seeding, [1, None, 2], [0, 1, 2], [], 0, True); T.case(seeding, [2, 3], [], [0], 0, False); T.case(seeding, [], [], [], 0, False)
    T.case(seeding, ['value', 'key', 2], [0, 1, 2], [], 0, False); T.case(seeding, [3, 2], [1, 0], [], 0, False)
    T.case(guessing, [(0, 7), (1, 8), (2, None), (9, 10)], 5.0); T.case(guessing, [(3, 1), (3, 2), (3, 3), (30, 4), (40, 5)], 4.0); T.case(guessing, [(1, 5)], -1.0); T.case(guessing, [], 5.0); T.case(guessing, [(4.5, 5), (0, 1)], 5.0); T.case(guessing, [(0, 5), (4.9, 1), (1, 2)], 5.0)
    T.case(query, b'{"a": {"b": [1, {"c": "17"}]}}', 'a/b/1/c', 17); T.case(query, b'[[5, 6]]', '0/1', 6); T.case(query, b'{"height": 0}', 'height', 0); T.case(query, b'nonsense', 'a', None); T.case(query, b'{"a": {"b": 1}}', 'a', None); T.case(query, b'{"a": 1}', 'a/b', None)
    T.case(query, None, 'a', None); T.case(query, None, None, None); T.case(query, b' 123\n', None, 123); T.case(query, b'', None, None); T.case(query, b'{"1": 4, "a": [3]}', '1', 4); T.case(query, b'null', 'a', None); T.case(query, b'{"a": null}', 'a', None)
    R = T.rng
    def value(d):
        k = R.random()
        if d == 0 or k < 0.2: return R.choice([0, 1, 17, 10 ** 12, '5', 'x', None, 2.5, True, -3])
        if k < 0.6: return [value(d - 1) for _ in range(R.randint(1, 3))]
        return {R.choice('ab01'): value(d - 1) for _ in range(R.randint(1, 3))}
    while T.more():
        n = R.randint(0, 5); o = list(range(n)); R.shuffle(o); e = sorted(R.sample(o, R.randint(0, n))) if R.random() < 0.3 else []
        T.case(seeding, [R.choice([None, 'value', 'key', 0, 1, 2, 3]) for _ in range(n)], o, e, R.randint(0, 2), R.random() < 0.3)
        n = R.randint(0, 6); T.case(guessing, [(R.choice([0, 0.5, 1, 2, 4.5, 8, 60]) + i / 64.0 if R.random() < 0.8 else 0, R.choice([None, 0, 5, 10 ** 6])) for i in range(n)], R.choice([5.0, 1.0, 0.25, 3, 0, -2.0, 100.0]))
        v = value(R.randint(1, 5)); p = []; d = v
        while isinstance(d, (list, dict)) and (R.random() < 0.9 or not p):
            k = R.randrange(len(d)) if isinstance(d, list) else R.choice(sorted(d)); p.append(str(k)); d = d[k]
        if not p or R.random() < 0.1: p.append(R.choice('ab019-'))
        t = json.dumps(v).encode(); p = '/'.join(p); T.case(query, t, p, reference(t, p))
