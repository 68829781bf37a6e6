"""C42: every message and structure can be described, and describing it changes nothing"""
from .proto import *
from .node import *
class Texts(Base):
    elem_lo = elem_hi = None
    def __init__(self, n): self.n = n; self.name = 'texts'; self._key = ('texts', n.key() if isinstance(n, SInt) else n)
    def elem(self, i): return sometext(('element', i))
def sometext(key):
    c = core.CUR; n, new = c.atom2(('text length', key), 'tl')
    if new: c.fact(s_le(0, n))
    l = c.memo.setdefault('texts', []); l.append(key); return whole(Sym('text%d' % len(l), n, 0, 0x10ffff), 's')
def somebytes():
    c = core.CUR; n = c.fresh('some_length', 0, None, record=False); return whole(Sym('some_bytes%d' % len(c.trace), n, 0, 255), 'b')
class Any1(Item):
    """element i of a list: any valid structure of its type"""
    def real(self, it):
        m = it.c.memo.setdefault(('element', self.lst.name), {}); k = it.c._k(self.i)
        if k not in m:
            m[k] = it.call(self._cls, [field(it, t, '%s[%d].%s' % (self.lst.name, len(m), f))[0] for f, t in STRUCTS[self._cls]]); adopt(it)
        return m[k]
    def s_getattr(self, it, a):
        if a == 'binary': return Item.s_getattr(self, it, a)
        return it.getattr(self.real(it), a)
    def s_str(self, it): return sometext(('described', self.lst.name, it.c._k(self.i)))
    def s_cmp(self, it, op, l, r): raise Unsupported('comparison of elements')
def adopt(it):
    """the elements of the lists made so far are any valid ones"""
    for X in it.c.memo.get('alistn', {}).values():
        if isinstance(getattr(X, 'elem_cls', None), type) and X.elem_cls in STRUCTS and X.mkitem is None: X.mkitem = lambda l, i: Any1(l, i, l.cls)
Float.s_str = lambda self, it: sometext(('float', id(self)))
IpText.s_str = lambda self, it: sometext(self.key)
def is_text(it, v): return kind_of(v) == 's'
def texts(it, src, seq, elem):
    """a comprehension over a list of unknown length that gives a text for each element (checked for any element)"""
    c = it.c
    if not (isinstance(src, Rope) and any(g[0] == 'A' for g in src.segs) or isinstance(src, SIter)): return None
    n = rlen(src) if isinstance(src, Rope) else src.n
    if not c.decide(s_lt(0, n)): return it.note_alloc([])
    i = c.fresh('any_i', 0, None, record=False); c.fact(s_lt(i, n)); e = elem(i)
    if kind_of(e) not in ('s', 'b'): return None
    return norm('l', [('A', Texts(n) if kind_of(e) == 's' else Bytes(n), 0, n)])
class Bytes(Texts):
    def elem(self, i): return somebytes()
def comp(it, src, seq, elem):
    r = allvalid_comp(it, src, seq, elem) if isinstance(src, Rope) else None
    return r if r is not None else texts(it, src, seq, elem)
def join(it, sep, xs):
    r = join_rule(it, sep, xs) if isinstance(sep, (bytes, Rope)) else None
    if r is not None: return r
    c = it.c; i = c.fresh('any_i', 0, None, record=False); c.fact(s_lt(i, xs.n)); k = kind_of(xs.elem(i))
    return None if k not in ('s', 'b') or k != kind_of(sep) else sometext(('joined', len(c.trace))) if k == 's' else somebytes()
def k_str(it, a, kw):
    """contract of str() of a structure inside another one: some text (proved by the unit of the structure)"""
    o = a[0]
    if o is it.c.extra.get('described') or type(o) not in STRUCTS: return it.call_body(F.CompoundType.__str__, a, kw)
    it.c.trust('contract of str() of %s (proved under C42)' % type(o).__name__); return sometext(('described', id(o)))
def number(it, v, w):
    """a number is written as some text of one character or more"""
    n = it.c.fresh('n_number', 1, record=False); l = it.c.memo.setdefault('texts', []); l.append(v); return whole(Sym('number%d' % len(l), n, 0x20, 0x7f), 's')
D = dict(PK, number_rule=number, join_rule=join, comp_rule=comp, contracts={**PC, F.CompoundType.__str__: k_str})
def named(t, names):
    """the literal parts of a text name these fields, in this order"""
    l = t if isinstance(t, str) else ''.join(''.join(chr(x) for x in g[1]) if g[0] == 'L' else '\0' for g in t.segs) if isinstance(t, Rope) else ''; at = 0
    for n in names:
        at = l.find(n, at)
        if at < 0: return False
        at += len(n)
    return True
def describe(it, o, names, extra=()):
    c = it.c; c.extra['described'] = o; adopt(it); before = [it.getattr(o, f) for f in names]
    for what in ('in full', 'in short')[:2 if hasattr(type(o), '_debug') else 1]:
        t = it.call(str, [o]) if what == 'in full' else it.call(it.getattr(o, '_debug'))
        c.oblige_by('a text, %s' % what, is_text(it, t), 'path', repr(t)[:200]); c.oblige('not empty, %s' % what, s_lt(0, rlen(t)) if is_text(it, t) else False)
        if what == 'in full': c.oblige_by('every field is named, in order', named(t, names), 'path', repr(t)[:300])
        for f, v in zip(names, before): oblige_eq(it, 'unchanged: ' + f, it.getattr(o, f), v)
for cls in STRUCTS:
    for how in (0, 1):
        @unit('C42', '%s%s' % (cls.__name__, ' (other argument forms)' if how else ''), reach=['end'], **D)
        def us(it, cls=cls, how=how):
            o = it.call(cls, [field(it, t, f, how)[0] for f, t in STRUCTS[cls]]); describe(it, o, [f for f, t in STRUCTS[cls]])
for name in MESSAGES:
    if name == 'alert': continue
    for how in ((0, 1) if MESSAGES[name] else (0,)):
        @unit('C42', '%s message%s' % (name, ' (other argument forms)' if how else ''), reach=['end'], **D)
        def um(it, name=name, how=how):
            o = it.call(MSGCLS[name], [field(it, t, f, how)[0] for f, t in MESSAGES[name]]); describe(it, o, [f for f, t in MESSAGES[name]])
from .c32 import alert, FIELDS, K as AK
for k in range(2):
    @unit('C42', 'an alert, %s' % ('in full', 'in short')[k], reach=['end'], max_forks=400, max_paths=5000, **dict(D, contracts={**AK, F.CompoundType.__str__: k_str}))
    def ua(it, k=k):
        c = it.c; p, vals = alert(it); c.assume(s_lt(rlen(p), 1 << 32)); s = sbytes(it, 'signature'); c.assume(s_lt(rlen(s), 1 << 32))
        o = it.call(M.Alert, [p, s]); t = it.call(str, [o]) if not k else it.call(it.getattr(o, '_debug'))
        c.oblige_by('a text', is_text(it, t), 'path', repr(t)[:200]); c.oblige('not empty', s_lt(0, rlen(t)) if is_text(it, t) else False)
        oblige_eq(it, 'payload unchanged', it.getattr(o, 'payload'), p); oblige_eq(it, 'signature unchanged', it.getattr(o, 'signature'), s)
class Msg(AObj):
    """any message; describing it gives some text (proved by the other units)"""
    def s_str(self, it): it.c.extra.setdefault('asked', []).append('full'); return sometext('full')
    def s_truth(self, it): return True
def short(it, a, kw): it.c.extra.setdefault('asked', []).append('short'); return sometext('short')
for level in range(5):
    @unit('C42', 'handling and sending at log level %d' % level, reach=['end'], contracts=NODE)
    def uc(it, level=level):
        c = it.c; node, o = connection(it); node._log_level = level; n, b = sbytes(it, 'nonce', 8), sbytes(it, 'frame'); c.assume(s_lt(0, rlen(b)))
        m = Msg(command='ping', name='ping', nonce=n, properties=[('nonce', None)], _debug=Fn(short), binary=Fn(lambda it, a, kw: b)); done = []
        it.contracts[BN.BaseNode.command_ping] = lambda it, a, kw: done.append((a[1:], kw)); logged = []
        it.contracts[BN.BaseNode.log] = lambda it, a, kw: logged.append(a[1])
        it.call(C.Connection.handle_message, [o, m])
        if c.oblige_by('dispatched once', len(done) == 1 and done[0][0] == [o] and set(done[0][1]) == {'nonce'}, 'path', repr(done)): oblige_eq(it, 'with its field', done[0][1]['nonce'], n)
        at = send_attr(); had = o.__dict__[at]
        it.call(C.Connection.send_message, [o, m]); oblige_eq(it, 'queued', o.__dict__[at], rcat(had, b))
        c.oblige_by('every entry is a text', all(is_text(it, t) for t in logged), 'path', repr(logged)[:200])
        if level < 2: c.oblige_by('both are logged', len(logged) == 2 and c.extra.get('asked') == [('full', 'short')[level]] * 2, 'path', repr((logged, c.extra.get('asked')))[:200])
        else: c.oblige_by('nothing is logged', not logged, 'path')
from .c34 import send_attr
@unit('C42', 'the log', reach=['printed', 'left out'])
def ul(it):
    c = it.c; ip = whole(Sym('ip', c.fresh('n_ip', 1), 0, 0x10ffff), 's'); node, o = connection(it, unknown=(ip, 1)); lv, at = c.fresh('log_level', 0, 4), c.fresh('level', 0, 4); node._log_level = lv; F_ = Sock(); node._log = F_; who = (None, o)[c.choose(2)]; t = whole(Sym('text', (n := c.fresh('n_text', 0)), 0, 0x10ffff), 's'); out = []
    it.contracts[print] = lambda it, a, kw: out.append((a, kw))
    it.call(it.getattr(node, 'log'), [t], dict(peer=who, level=at))
    if not out: c.oblige('left out below the level asked for', s_lt(at, lv)); c.reach('left out'); return
    c.oblige('printed from the level asked for on', s_le(lv, at)); c.reach('printed')
    if c.oblige_by('one line, to the log', len(out) == 1 and len(out[0][0]) == 1 and out[0][1] == {'file': F_}, 'path', repr(out)): oblige_eq(it, 'the line', out[0][0][0], rcat('(', ip if who else 'node', ') ', t))
