"""C40: lookups in the background share what they find.

Mutual exclusion is the contract of the lock: whatever other threads do, they do between two critical sections of this one, so at
every acquisition the shared list holds any entries (rely), and outside a critical section it must not be touched (ownership: every
access is an obligation).  What each critical section adds or takes is its guarantee."""
from .common import *
from pyvc.absl import *
from nbc.util import bootstrap as B
import threading, socket, random
class Entry(Opaque): pass
class Found(SObj):
    """the shared list during one critical section: n entries, any"""
    s_logs = True
    def __init__(self, it):
        self.it = it; self.open = True; self.k = it.c.extra['sections'] = it.c.extra.get('sections', 0) + 1
        self.n = it.c.fresh('n_found', 0, record=False); self.ops = []; self.grown = False
    def use(self):
        if not self.open: self.it.c.oblige_by('the shared list is only used under the lock', False, 'path'); raise PathEnd()
    def len(self):
        if self.grown: raise Unsupported('the number of entries after a change')
        return s_add(self.n, -len(self.ops))
    def s_len(self, it): self.use(); return self.len()
    def s_truth(self, it): self.use(); return s_lt(0, self.len())
    def entry(self, i):
        if self.ops or self.grown: raise Unsupported('an element of the list after a change')
        if isinstance(i, slice): raise Unsupported('a part of the list')
        i = s_add(self.n, i) if self.it.c.decide(s_lt(i, 0)) else i
        if not self.it.c.decide(s_and(s_le(0, i), s_lt(i, self.n))): raise ProgExc(IndexError('list index out of range'))
        return Entry(('found', self.k, i), tuple)
    def s_getitem(self, it, i): self.use(); return self.entry(i)
    def add(self, it, x): self.add_all(it, 1, lambda i: x)
    def add_all(self, it, n, elem):
        """accounted for at once, while the lock is held"""
        c = it.c; G, s = c.extra.get('G'), c.extra.get('who')
        if G is None: c.oblige_by('nothing is added here', False, 'path'); raise PathEnd()
        if not isinstance(n, int) and not c.decide(s_lt(0, n)): return
        if isinstance(n, int) and n == 1: i = 0
        else: i = c.fresh('any', 0, record=False); c.fact(s_lt(i, n))
        x = elem(i); x = it.to_list(x) if isinstance(x, (tuple, list)) else []; j = s_add(G.added, i)
        c.oblige_by('the address and port of an answer', len(x) == 2 and all(isinstance(y, Opaque) for y in x) and it.truth(it.eqb(x[0], Opaque(('ip', s, j), str))) and it.truth(it.eqb(x[1], Opaque(('to port', s, j), int))), 'path', repr(x))
        it.setattr(G, 'added', s_add(G.added, n)); self.grown = True
    def s_contains(self, it, x): self.use(); raise Unsupported('search in the shared list')
    def take(self, x): self.ops.append(('take', x))
    def s_delitem(self, it, i): self.use(); self.take(self.entry(i))
    def s_getattr(self, it, a):
        def f(it, x, kw):
            self.use()
            if a in ('append', 'insert'): self.add(it, x[-1]); return None
            if a == 'extend':
                q = it.iter_of(x[0])
                if isinstance(q, SIter): self.add_all(it, q.n, q.elem)
                else:
                    for y in q: self.add(it, y)
                return None
            if a == 'remove':
                if not (isinstance(x[0], Entry) and x[0].key[1] == self.k): raise Unsupported('remove of another value')
                if any(it.truth(y.s_eq(it, x[0])) for o, y in self.ops): raise Unsupported('removed twice')
                self.take(x[0]); return None
            if a == 'pop': e = self.entry(x[0] if x else -1); self.take(e); return e
            if a == '__len__': return self.len()
            raise Unsupported('%s of the shared list' % a)
        return Fn(f)
class Lock(SObj):
    def __init__(self): self.held = False; self.log = []; self.obj = self.field = None
    def acquire(self, it):
        c = it.c; c.trust('threading.Lock: at most one thread holds it')
        if not c.oblige_by('the lock is not taken twice', not self.held, 'path'): raise PathEnd()
        self.held = True
        if self.obj is not None: self.obj.__dict__[self.field] = Found(it)
        return True
    def release(self, it):
        if not it.c.oblige_by('only a held lock is released', self.held, 'path'): raise PathEnd()
        self.held = False
        if self.obj is not None:
            f = self.obj.__dict__[self.field]
            if not isinstance(f, Found): raise Unsupported('the shared list was replaced')
            f.open = False
            if f.ops: self.log.append(f)
    def s_getattr(self, it, a):
        if a in ('acquire', '__enter__'): return Fn(lambda it, x, kw: self.acquire(it))
        if a in ('release', '__exit__'): return Fn(lambda it, x, kw: self.release(it) if a == 'release' else (self.release(it), False)[1])
        if a == 'locked': return Fn(lambda it, x, kw: self.held)
        raise Unsupported('%s of a lock' % a)
    def share(self, it, obj):
        """from now on other threads may use the object"""
        if self.obj is not None: return
        fs = [k for k, v in obj.__dict__.items() if type(v) is list or isinstance(v, Rope) and v.kind == 'l' and v is not it.c.extra.get('seeds')]
        fs = [k for k in fs if it.c.extra.get('seeds') is not obj.__dict__[k]]
        if len(fs) != 1: raise Unsupported('the shared list of the seeder')
        it.c.oblige_by('nothing is found before the first lookup', type(obj.__dict__[fs[0]]) is list and obj.__dict__[fs[0]] == [], 'path')
        self.obj, self.field = obj, fs[0]; f = Found(it); f.open = False; obj.__dict__[self.field] = f
class Thread(SObj):
    def __init__(self, it, a, kw):
        names = ('group', 'target', 'name', 'args', 'kwargs'); d = dict(zip(names, a)); d.update(kw); self.i = None
        self.target, self.args, self.kwargs, self.daemon, self.started = d.get('target'), d.get('args', ()), d.get('kwargs') or {}, d.get('daemon'), False
    def ckey(self): return ('thread', seqkey(self.i)) if self.i is not None else ('thread object', id(self))
    def s_eq(self, it, o): return isinstance(o, Thread) and self.ckey() == o.ckey()
    def s_setattr(self, it, a, v):
        if a == 'daemon': self.daemon = v
        elif a not in ('name',): raise Unsupported('%s of a thread' % a)
    def s_getattr(self, it, a):
        if a == 'daemon': return self.daemon
        if a == 'setDaemon': return Fn(lambda it, x, kw: setattr(self, 'daemon', x[0]))
        if a == 'start': return Fn(lambda it, x, kw: self.start(it))
        if a in ('join', 'is_alive') and 'on ' + a in it.c.extra: return Fn(lambda it, x, kw: it.c.extra['on ' + a](it, self, *x, **kw))
        raise Unsupported('%s of a thread (the caller must not wait)' % a)
    def start(self, it):
        c = it.c; c.extra['on share'](it, self)
        c.oblige_by('a background thread does not keep the program alive', self.daemon is True, 'path'); c.oblige_by('started once', not self.started, 'path'); self.started = True
        c.extra['on start'](it, self)
    def run(self, it):
        """the body; no failure escapes"""
        c = it.c; L = c.extra['lock']
        try: it.call(self.target, list(it.to_list(self.args)), dict(self.kwargs))
        except ProgExc as e: c.oblige_by('no failure in the background escapes', False, 'path', repr(e.exc)); raise PathEnd()
        c.oblige_by('the lock is free afterwards', not L.held, 'path')
def world(it):
    L = Lock(); it.c.extra.update(lock=L); it.c.extra['on share'] = lambda it, t: L.share(it, it.c.extra['self']); it.contracts[threading.Lock] = it.contracts[threading.RLock] = lambda it, a, kw: L
    it.contracts[threading.Thread] = lambda it, a, kw: it.note_alloc(Thread(it, a, kw))
    def choice(it, a, kw):
        F = a[-1]
        if not isinstance(F, Found): raise Unsupported('random.choice')
        F.use()
        if not it.c.decide(s_lt(0, F.n)): raise ProgExc(IndexError('Cannot choose from an empty sequence'))
        return F.entry(index(it, F.n))
    def index(it, n): i = it.c.fresh('chosen', 0, record=False); it.c.fact(s_lt(i, n)); return i
    def rnd(it, a, kw, inc):
        lo, hi = (0, a[-1]) if len(a) == 2 else (a[-2], s_add(a[-1], inc))
        if not it.c.decide(s_lt(lo, hi)): raise ProgExc(ValueError('empty range'))
        return s_add(lo, index(it, s_add(hi, -lo)))
    it.contracts[random.choice.__func__] = choice
    it.contracts[random.randrange.__func__] = lambda it, a, kw: rnd(it, a, kw, 0); it.contracts[random.randint.__func__] = lambda it, a, kw: rnd(it, a, kw, 1)
    return L
def build(it, seeds):
    """the constructor, with the object known to the threads it starts"""
    o = B.DNSSeeder.__new__(B.DNSSeeder); it.note_alloc(o); it.c.extra.update(self=o, seeds=seeds); it.call(B.DNSSeeder.__init__, [o, seeds]); return o
def seed(i): return (Opaque(('host', i), str), Opaque(('port', i), int))
class Log(AObj):
    s_logs = True
    def s_setattr(self, it, a, v): it.log_write(self, a); self.__dict__[a] = v
def no_lookup(it, a, kw): it.c.oblige_by('the constructor does not wait for a lookup', False, 'path'); raise PathEnd()
def same_lock(it, pos):
    """a turn of a loop leaves the lock as it was"""
    h = it.c.extra['lock'].held
    if isinstance(pos, int) and pos == 0: it.c.extra['held before'] = h
    return [('the lock is held as before', h is it.c.extra['held before'])]
def shared_after(it, pos, where):
    """once a thread was started, others use what is shared"""
    if it.c.decide(s_lt(0, pos)): it.c.extra['lock'].share(it, where)
running = lambda want: lambda it, seq, s: it.c.extra.get('running', False) is want
SL = LoopSpec('lookups started', [('started', Int(0))], lambda it, g, pos: [('one per seed', s_eq(g['started'], pos))] + same_lock(it, pos), guard=running(False), hint=dict(started=('.started',)), at_body=lambda it, g, pos: it.c.extra.update(turn=pos), at_exit=lambda it, g, pos: shared_after(it, pos, it.c.extra['self']))
class Log(AObj):
    s_logs = True
    def s_setattr(self, it, a, v): it.log_write(self, a); self.__dict__[a] = v
class Info(SObj):
    """an answer of the resolver"""
    def __init__(self, s, i): self.s, self.i = s, i
    def s_getitem(self, it, k):
        if k in (4, -1): return (Opaque(('ip', self.s, self.i), str), Opaque(('to port', self.s, self.i), int))
        raise Unsupported('another part of the answer')
    def s_iter(self, it): return [Opaque(('part', self.s, self.i, k)) for k in range(4)] + [self.s_getitem(it, 4)]
    def ckey(self): return ('info', self.s, seqkey(self.i))
AL = LoopSpec('answers stored', [('added', Defined('int', lambda it, p: p))], lambda it, g, pos: same_lock(it, pos), ghost=True, guard=running(True), hint=dict(added=('.added',)))
def lookup(it, t, s):
    """thread t must ask for seed s, and add every answer once, or fail silently"""
    c = it.c; L = c.extra['lock']; n = c.fresh('n_answers', 0); G = Log(added=0); c.extra.update(G=G, who=s, running=True, loop_lvs=[(G, 'added')])
    def k(it, a, kw):
        c.oblige_by('no lookup under the lock', not L.held, 'path'); h, p = seed(s)
        if not c.oblige_by('the seed of this lookup', len(a) >= 2 and it.truth(it.eqb(a[0], h)) and it.truth(it.eqb(a[1], p)), 'path', repr(a[:2])): raise PathEnd()
        c.trust('socket.getaddrinfo: answers of five parts, the last one an address and a port, or any failure')
        r = c.choose(3)
        if r: c.extra['failed'] = True; raise ProgExc((None, socket.gaierror('unknown'), ValueError('anything'))[r])
        return AList('answers', n, mkitem=lambda l, i: Info(s, i)).value()
    it.contracts[socket.getaddrinfo] = k; t.run(it)
    if c.extra.get('failed'): c.reach('failed'); c.oblige('nothing is added', s_eq(G.added, 0)); return
    c.oblige('every answer', s_eq(G.added, n))
    if c.decide(s_lt(1, n)): c.reach('stored')
def no_lookup(it, a, kw): it.c.oblige_by('the constructor does not wait for a lookup', False, 'path'); raise PathEnd()
@unit('C40', 'one lookup per seed is started, for that seed, and nothing is waited for', loops=[SL, AL], reach=['loop lookups started body', 'end', 'stored', 'failed'])
def u1(it):
    c = it.c; L = world(it); n = c.fresh('n_seeds', 0); X = AList('seeds', n, mkitem=lambda l, i: seed(i)); G = Log(started=0); c.extra['loop_lvs'] = [(G, 'started')]
    it.contracts[socket.getaddrinfo] = no_lookup
    def on(it, t):
        if not c.oblige_by('not while the lock is held', not L.held, 'path'): raise PathEnd()
        if c.choose(2):
            with it.later(t.target): lookup(it, t, c.extra['turn'])
            raise PathEnd()
        it.setattr(G, 'started', s_add(G.started, 1))
    c.extra['on start'] = on; build(it, X.value()); c.oblige('as many as seeds', s_eq(G.started, n)); c.oblige_by('the lock is free', not L.held, 'path')
@unit('C40', 'a lookup that runs when the seeder is complete', loops=[AL], reach=['stored', 'failed'])
def u3(it):
    c = it.c; L = world(it); ts = []; c.extra['on start'] = lambda it, t: ts.append(t); it.contracts[socket.getaddrinfo] = no_lookup; build(it, [seed(i) for i in range(3)])
    if not c.oblige_by('one lookup per seed', len(ts) == 3, 'path'): return
    i = c.choose(3); lookup(it, ts[i], i)
def seeder(it):
    c = it.c; L = world(it); c.extra['on start'] = lambda it, t: None; o = build(it, []); L.share(it, o); return L, o
@unit('C40', 'the number found', reach=['end'])
def u4(it):
    c = it.c; L, o = seeder(it); r = it.call(len, [o]); f = o.__dict__[L.field]
    c.oblige_by('a look at the list under the lock', f.k > 1, 'path'); c.oblige('the number of entries', it.eqb(r, f.n)); c.oblige_by('nothing changes', not f.ops and not L.log, 'path'); c.oblige_by('the lock is free afterwards', not L.held, 'path')
@unit('C40', 'an entry is handed out once', reach=['taken', 'empty'])
def u5(it):
    c = it.c; L, o = seeder(it)
    try: r = it.call(B.DNSSeeder.pop, [o])
    except ProgExc as e:
        f = o.__dict__[L.field]; c.oblige_by('the lock is free afterwards', not L.held, 'path'); c.oblige_by('an error', isinstance(e.exc, (IndexError, LookupError, ValueError)), 'path', repr(e.exc)); c.oblige_by('nothing changes', not L.log, 'path'); c.oblige('only an empty list has none', s_eq(f.n, 0)); c.reach('empty'); return
    c.oblige_by('the lock is free afterwards', not L.held, 'path')
    if not c.oblige_by('one critical section takes one entry', len(L.log) == 1 and [p for p, x in L.log[0].ops] == ['take'], 'path', repr([f.ops for f in L.log])): return
    c.oblige_by('the one that was taken', isinstance(r, Entry) and it.truth(it.eqb(r, L.log[0].ops[0][1])), 'path', repr(r)); c.reach('taken')

# ---- asking several services for the height.  Times are mathematical numbers; computing takes no time, waiting does.
from nbc import util as UT
import time, builtins, json
UNIT = 10 ** 6
class Tm(SObj):
    """a time: any rational number, in units of 1 / UNIT (written constants are multiples of it)"""
    def __init__(self, v): self.v = v
    @staticmethod
    def of(x):
        if isinstance(x, Tm): return x.v
        if isinstance(x, (int, float)) and x * UNIT == int(x * UNIT): return int(x * UNIT)
        raise Unsupported('time computed with %r' % (x,))
    def ckey(self): return ('time', seqkey(self.v))
    def s_eq(self, it, o): return isinstance(o, (int, float, Tm)) and s_eq(self.v, Tm.of(o))
    def s_truth(self, it): return s_not(s_eq(self.v, 0))
    def s_isinstance(self, it, t): return issubclass(float, t)
    def s_cmp(self, it, op, l, r):
        l, r = Tm.of(l), Tm.of(r); return {'Lt': s_lt(l, r), 'LtE': s_le(l, r), 'Gt': s_lt(r, l), 'GtE': s_le(r, l)}[op]
    def s_binop(self, it, op, l, r):
        if op in ('Add', 'Sub'): return Tm(s_add(Tm.of(l), Tm.of(r) if op == 'Add' else -Tm.of(r) if isinstance(Tm.of(r), int) else s_mul(-1, Tm.of(r))))
        raise Unsupported('%s of times' % op)
class Heights(SObj):
    """the shared answers: any of them before a critical section"""
    s_logs = True
    def __init__(self, it): self.open = True; self.k = it.c.extra['sections'] = it.c.extra.get('sections', 0) + 1; self.puts = []
    def use(self, it):
        if not self.open: it.c.oblige_by('the shared answers are only used under the lock', False, 'path'); raise PathEnd()
    def s_setitem(self, it, k, v): self.use(it); self.puts.append((k, v)); it.c.extra.setdefault('puts', []).append((k, v))
    def copy(self, it):
        self.use(it)
        if self.puts: raise Unsupported('a copy after a change')
        return Copy(self.k, it.c.extra['clock'].now, it.c.extra['clock'].waited)
    def s_getattr(self, it, a):
        if a == 'copy': return Fn(lambda it, x, kw: self.copy(it))
        if a == '__setitem__': return Fn(lambda it, x, kw: self.s_setitem(it, x[0], x[1]))
        raise Unsupported('%s of the shared answers' % a)
class Copy(SObj):
    """what was there during critical section k; nobody else has it"""
    def __init__(self, k, now, waited): self.k, self.now, self.waited = k, now, waited
class Shared(Lock):
    """a lock that guards a dictionary of the running function"""
    cell = None
    def acquire(self, it):
        c = it.c; c.trust('threading.Lock: at most one thread holds it')
        if not c.oblige_by('the lock is not taken twice', not self.held, 'path'): raise PathEnd()
        self.held = True
        if self.cell is not None: self.put(it, Heights(it))
        return True
    def release(self, it):
        if not it.c.oblige_by('only a held lock is released', self.held, 'path'): raise PathEnd()
        self.held = False
        if self.cell is not None: self.now.open = False
    def put(self, it, h):
        self.now = h
        for fr, n in self.cell: fr.l[n] = h
    def share(self, it, fr):
        if self.cell is not None: return
        cell = []
        while fr is not None: cell += [(fr, n) for n, v in fr.l.items() if type(v) is dict]; fr = fr.parent
        if len(cell) != 1: raise Unsupported('the shared answers')
        it.c.oblige_by('no answers before the first query', cell[0][0].l[cell[0][1]] == {}, 'path'); self.cell = cell; h = Heights(it); h.open = False; self.put(it, h)
def source(it, i): return (Opaque(('service', i), str), Fn(lambda it, x, kw: query(it, i, x, kw)))
def query(it, i, x, kw):
    c = it.c; L = c.extra['lock']; c.oblige_by('no query under the lock', not L.held, 'path')
    if not c.oblige_by('the query of this thread, once', c.extra.get('running') and it.truth(it.eqb(i, c.extra['who'])) and not x and not kw and not c.extra.get('queried'), 'path', repr(i)): raise PathEnd()
    c.extra['queried'] = True
    if c.choose(2): c.extra['failed'] = True; raise ProgExc(ValueError('anything'))
    return Opaque(('height', i), int)
class Clock(Log): pass
THREADS = LoopSpec('queries started', [('started', Int(0)), ('list', Defined('l', lambda it, pos: it.c.extra['thr'].upto(pos)))], lambda it, g, pos: [('one per service', s_eq(g['started'], pos))] + same_lock(it, pos), optional=('list',), guard=lambda it, q, s: it.c.extra['phase'] == 'start',
    hint=dict(started=('.started',)), at_body=lambda it, g, pos: it.c.extra.update(turn=pos), at_exit=lambda it, g, pos: shared_after(it, pos, it.loop_frame) or it.c.extra.update(phase='wait', loop_lvs=[(it.c.extra['clock'], x) for x in ('now', 'waited', 'all')]))
def wait_inv(it, g, pos):
    E = it.c.extra; end = s_add(E['t0'], E['limit'])
    return [('each was waited for', s_eq(g['waited'], pos)), ('time goes on', s_le(E['t0'], g['now'])), ('not beyond the limit', s_or(s_le(g['now'], end), s_eq(g['now'], E['t0']))), ('every answer in time', s_or(s_eq(g['all'], 1), s_le(end, g['now'])))] + same_lock(it, pos)
WAIT = LoopSpec('waiting', [('now', Int()), ('waited', Int(0)), ('all', Int(0))], wait_inv, guard=lambda it, q, s: it.c.extra['phase'] == 'wait', hint=dict(now=('.now',), waited=('.waited',), all=('.all',)), at_body=lambda it, g, pos: it.c.extra.update(turn=pos))
def k_join(it, t, w=None, timeout=None):
    c = it.c; E = c.extra; K = E['clock']; w = w if timeout is None else timeout; c.trust('Thread.join(w): returns when the thread has ended or w has passed, at once when w is not positive')
    c.oblige_by('not while the lock is held', not E['lock'].held, 'path')
    if w is None: c.oblige_by('waits no longer than the limit', False, 'path'); raise PathEnd()
    w = Tm.of(w)
    if not c.oblige_by('the thread of this turn', t.i is not None and it.truth(it.eqb(t.i, E['turn'])), 'path'): raise PathEnd()
    pos = c.decide(s_lt(0, w))
    if pos: c.oblige('waits no longer than the limit', s_le(s_add(K.now, w), s_add(E['t0'], E['limit'])))
    it.setattr(K, 'waited', s_add(K.waited, 1))
    if c.choose(2): it.setattr(K, 'all', 0); it.setattr(K, 'now', s_add(K.now, w if pos else 0))
    else:
        d = c.fresh('d', 0, record=False)
        if pos: c.fact(s_le(d, w))
        else: c.fact(s_eq(d, 0))
        it.setattr(K, 'now', s_add(K.now, d))
    return None
def thr_comp(it, src, seq, elem):
    """a list of new threads"""
    i = it.c.fresh('any', 0, record=False); it.c.fact(s_lt(i, seq.n))
    if not isinstance(elem(i), Thread): return None
    def mk(l, j): t = elem(j); t.i = j; return t
    A = it.c.extra['thr'] = AList('threads', seq.n, mkitem=mk); return A.value()
def answering(it, t, i):
    """thread t must run query i and store its answer"""
    c = it.c; L = c.extra['lock']; c.extra.update(who=i, running=True, phase='run', puts=[]); t.run(it); p = c.extra['puts']
    if not c.oblige_by('the query was made', bool(c.extra.get('queried')), 'path'): return
    if c.extra.get('failed'): c.oblige_by('a failed query leaves nothing', p == [], 'path'); c.reach('failed'); return
    if c.oblige_by('one answer', len(p) == 1, 'path', repr(p)): c.oblige_by('the answer, by the name of the service', it.truth(it.eqb(p[0][0], Opaque(('service', i), str))) and it.truth(it.eqb(p[0][1], Opaque(('height', i), int))), 'path', repr(p)); c.reach('stored')
@unit('C40', 'the height is asked of every service, within the time limit', loops=[THREADS, WAIT], comp_rule=thr_comp, reach=['loop queries started body', 'loop waiting body', 'end', 'stored', 'failed'], max_paths=5000)
def u6(it):
    c = it.c; world(it); L = Shared(); K = Clock(now=0, waited=0, all=1); G = Log(started=0); n = c.fresh('n_services', 0); lim = c.fresh('limit', None); t0 = K.now = c.fresh('t0', 0); c.extra.update(lock=L, clock=K, t0=t0, limit=lim, phase='start', loop_lvs=[(G, 'started')])
    it.contracts[threading.Lock] = it.contracts[threading.RLock] = lambda it, a, kw: L
    for f in (time.time, time.monotonic, time.perf_counter): it.contracts[f] = lambda it, a, kw: Tm(K.now)
    def k_dict(it, a, kw):
        if len(a) == 1 and isinstance(a[0], Heights) and not kw: return a[0].copy(it)
        del it.contracts[dict]
        try: return it.call(dict, a, kw)
        finally: it.contracts[dict] = k_dict
    it.contracts[dict] = k_dict
    it.contracts[builtins.print] = lambda it, a, kw: None
    def mk(l, i): t = Thread(it, (), dict(daemon=True)); t.i = i; t.started = True; return t
    c.extra['thr'] = AList('threads', n, mkitem=mk); X = AList('services', n, mkitem=lambda l, i: source(it, i)); c.extra['on share'] = lambda it, t: L.share(it, getattr(t.target, 'frame', None)); c.extra['on join'] = k_join
    def on(it, t):
        if not c.oblige_by('not while the lock is held', not L.held, 'path'): raise PathEnd()
        t.i = c.extra['turn']
        if c.choose(2):
            with it.later(t.target): answering(it, t, c.extra['turn'])
            raise PathEnd()
        it.setattr(G, 'started', s_add(G.started, 1))
    c.extra['on start'] = on; r = it.call(UT.guess_block_height, [AObj(block_height_guess=X.value()), Tm(lim)])
    c.oblige_by('the lock is free', not L.held, 'path'); c.oblige('as many queries as services', s_eq(G.started, n))
    if not c.decide(s_lt(0, n)): c.oblige_by('no service, no answer', r == {}, 'path'); return
    if not c.oblige_by('a copy of the answers, which later ones do not enter', isinstance(r, Copy), 'path', repr(r)): return
    end = s_add(t0, lim); c.oblige('every answer in time is in it', s_or(s_and(s_eq(K.all, 1), s_eq(r.waited, n)), s_le(end, r.now))); c.oblige('not beyond the limit', s_or(s_le(K.now, end), s_eq(K.now, t0)))

# ---- one query: the answer of a web service
urllib2 = UT.urllib2
class Part(Opaque):
    """a value of the answer: what the first i components of the path lead to"""
    def __init__(self, i): Opaque.__init__(self, ('part', i)); self.i = i
    def kind(self, it):
        k = ('kind', self.ckey())
        if k not in it.c.memo: it.c.memo[k] = it.c.choose(5)
        return (dict, list, int, str, type(None))[it.c.memo[k]]
    def s_isinstance(self, it, t): return any(issubclass(self.kind(it), x) for x in (t if isinstance(t, tuple) else (t,)))
    def s_truth(self, it): raise Unsupported('truth of an answer')
    def s_isnone(self, it): return self.kind(it) is type(None)
    def bad(self, it, e): it.c.extra['bad'] = True; raise ProgExc(e)
    def s_getitem(self, it, x):
        k = self.kind(it)
        if k not in (dict, list): it.c.extra['bad'] = True; raise ProgExc(TypeError('not subscriptable'))
        if isinstance(x, Component): i, key = x.i, dict
        elif isinstance(x, Opaque) and x.key[0] == 'number of': i, key = x.key[1], list
        else: raise Unsupported('another part of the answer')
        it.c.oblige('the next component of the path', s_eq(i, self.i))
        if key is not k: it.c.oblige_by('objects by name, lists by number', False, 'path'); raise PathEnd()
        if it.c.choose(2): self.bad(it, KeyError('missing') if k is dict else IndexError('missing'))
        return Part(s_add(self.i, 1))
    def s_int(self, it, base):
        k = self.kind(it)
        if k not in (int, str): self.bad(it, TypeError('no number'))
        if k is str and it.c.choose(2): self.bad(it, ValueError('no number'))
        return Opaque(('value', self.i), int)
class Component(Opaque):
    def __init__(self, i): Opaque.__init__(self, ('component', i), str); self.i = i
    def s_int(self, it, base):
        if it.c.choose(2): it.c.extra['bad'] = True; raise ProgExc(ValueError('no number'))
        return Opaque(('number of', self.i), int)
    def s_getattr(self, it, a): raise Unsupported('%s of a component' % a)
class Path(Opaque):
    def s_getattr(self, it, a):
        if a != 'split': raise Unsupported('%s of the path' % a)
        def f(it, x, kw):
            if x != ['/'] or kw: raise Unsupported('split')
            return AList('components', it.c.extra['n'], mkitem=lambda l, i: Component(i)).value()
        return Fn(f)
class Payload(Opaque):
    def s_int(self, it, base):
        if it.c.choose(2): it.c.extra['bad'] = True; raise ProgExc(ValueError('no number'))
        return Opaque(('value of the answer',), int)
def service(it):
    """a web service: answers anything, or fails"""
    url = Opaque(('url',), str); E = it.c.extra
    def request(it, a, kw):
        c = it.c; u = a[0] if a else kw.get('url'); c.oblige_by('the URL', it.truth(it.eqb(u, url)), 'path', repr(u)); return Fn(None)
    def urlopen(it, a, kw):
        c = it.c; c.trust('urllib: the answer of the service, or any failure'); c.oblige_by('one query', not E.get('asked'), 'path'); E['asked'] = True
        u = a[0]; c.oblige_by('the URL', isinstance(u, Fn) or it.truth(it.eqb(u, url)), 'path', repr(u))
        if c.choose(2): E['down'] = True; raise ProgExc(OSError('unreachable'))
        return Response()
    def loads(it, a, kw):
        it.c.trust('json.loads: a value made of objects, lists, numbers, texts and None, or ValueError'); it.c.oblige_by('the answer', isinstance(a[0], Payload), 'path', repr(a[0]))
        if it.c.choose(2): E['bad'] = True; raise ProgExc(ValueError('no JSON'))
        return Part(0)
    it.contracts.update({urllib2.Request: request, urllib2.urlopen: urlopen, json.loads: loads, builtins.print: lambda it, a, kw: None}); return url
class Response(SObj):
    def s_getattr(self, it, a):
        if a == 'read': return Fn(lambda it, x, kw: Payload(('payload',), bytes))
        if a == '__enter__': return Fn(lambda it, x, kw: self)
        if a in ('__exit__', 'close'): return Fn(lambda it, x, kw: False if a == '__exit__' else None)
        raise Unsupported('%s of a response' % a)
def asks(it, f, quiet=False):
    """a query made twice asks twice"""
    E = it.c.extra
    for k in ('asked', 'bad', 'down', 'at'): E.pop(k, 0)
    it.c.memo = {k: v for k, v in it.c.memo.items() if not (isinstance(k, tuple) and k and k[0] == 'kind')}
    try: return it.call(f, [])
    except ProgExc as e:
        if quiet or not isinstance(e.exc, OSError) or not E.get('down'): it.c.oblige_by('only a service that cannot be reached fails', False, 'path', repr(e.exc)); raise PathEnd()
        it.c.reach('unreachable'); return None
STEP = LoopSpec('path', [('data', Defined(None, lambda it, pos: Part(pos)))], lambda it, g, pos: [], at_body=lambda it, g, pos: it.c.extra.update(at=pos))
@unit('C40', 'the number at a path of a JSON answer', loops=[STEP], reach=['found', 'nothing', 'unreachable'])
def u7(it):
    c = it.c; E = c.extra; url = service(it); n = E['n'] = c.fresh('n_components', 1); f = it.call(UT.fetch_url_json_path_int, [url, Path(('path',), str)])
    c.oblige_by('nothing is asked before', not E.get('asked'), 'path'); r = asks(it, f)
    if r is None:
        at = E.get('at'); c.oblige_by('none only when the answer has no number there', bool(E.get('bad') or E.get('down') or at is not None and Part(at).kind(it) not in (dict, list)), 'path'); c.reach('nothing'); return
    c.oblige_by('a usable answer', not E.get('bad') and not E.get('down'), 'path'); c.oblige('the number at the end of the path', isinstance(r, Opaque) and r.key[0] == 'value' and s_eq(r.key[1], n)); c.reach('found')
@unit('C40', 'the number a service answers', reach=['found', 'nothing'])
def u8(it):
    c = it.c; E = c.extra; url = service(it); f = it.call(UT.fetch_url_int, [url]); c.oblige_by('nothing is asked before', not E.get('asked'), 'path'); r = asks(it, f, True)
    if r is None: c.oblige_by('none only when there is no number', bool(E.get('bad') or E.get('down')), 'path'); c.reach('nothing'); return
    c.oblige_by('a usable answer', not E.get('bad') and not E.get('down'), 'path'); c.oblige('the number', it.eqb(r, Opaque(('value of the answer',), int))); c.reach('found')
