"""C27: network addresses on the wire"""
from .proto import *
IP = F.FtIPAddress
HEAD = b'\0' * 10 + b'\xff\xff'
def dec(v): return mk_pos(10, 'dec', v, ndigits(10, v), kind='s')
def join(parts, sep):
    out = []
    for i, p in enumerate(parts): out += ([sep] if i else []) + [p]
    return rcat('', *out)
@unit('C27', 'IPv4 text is its four octets behind the mapped prefix, and comes back', reach=['end'])
def u1(it):
    c = it.c; g = [c.fresh('g%d' % i, 0, 255) for i in range(4)]
    text = join([dec(x) for x in g], '.'); t = IP()
    oblige_eq(it, 'accepted unchanged', it.call(it.getattr(t, 'validate'), [text]), text)
    b = it.call(it.getattr(t, 'binary'), [text])
    oblige_eq(it, 'ten zero bytes, two 0xff, four octets', b, rcat(HEAD, mk_seq('b', g)))
    l, v = it.to_list(it.call(it.getattr(t, 'parse'), [rcat(b, tail(it))]))
    c.oblige('sixteen bytes read', s_eq(l, 16)); oblige_eq(it, 'same text', v, text)
def shape(it, k):
    """IPv6 text: (groups as values, text)"""
    c = it.c; pre = c.choose(9); full = pre == 8
    post = 0 if full else c.choose(8 - pre)
    al = ('hex', 'HEX')[k]
    gs = []; tx = []
    for i in range(pre + post):
        w = c.fresh('w%d' % i, 1, 4); v = c.fresh('g%d' % i, 0, 65535)
        c.fact(s_or(*[s_and(s_eq(w, j), s_lt(v, 16 ** j)) for j in (1, 2, 3, 4)])); c.fact(s_lt(v, POW(16, w)))
        gs.append(v); tx.append(norm('s', [('A', Pos(16, al, v, w), 0, w)]))
    if full: return gs, join(tx, ':')
    return gs[:pre] + [0] * (8 - pre - post) + gs[pre:], rcat('', join(tx[:pre], ':'), '::', join(tx[pre:], ':'))
for k in (0, 1):
    @unit('C27', 'IPv6 text, full or shortened, %s-case digits, is its eight groups' % ('lower', 'upper')[k], reach=['end'])
    def u2(it, k=k):
        c = it.c; gs, text = shape(it, k); t = IP()
        oblige_eq(it, 'accepted unchanged', it.call(it.getattr(t, 'validate'), [text]), text)
        b = it.call(it.getattr(t, 'binary'), [text])
        oblige_eq(it, 'eight big-endian groups', b, rcat(b'', *[mk_pos(256, None, v, 2) for v in gs]))
@unit('C27', 'the text read from any sixteen bytes is written as the same bytes', reach=['end', 'v4', 'v6'])
def u3(it):
    c = it.c; d = sbytes(it, 'd', 16); t = IP()
    l, v = it.to_list(it.call(it.getattr(t, 'parse'), [rcat(d, tail(it))]))
    c.oblige('sixteen bytes read', s_eq(l, 16))
    h = subseq(d, 0, 12); c.reach('v4' if c.decide(it.eqb(h, HEAD)) else 'v6')
    oblige_eq(it, 'accepted', it.call(it.getattr(t, 'validate'), [v]), v)
    oblige_eq(it, 'same bytes', it.call(it.getattr(t, 'binary'), [v]), d)
@unit('C27', 'fewer than sixteen bytes are refused', reach=['refused'])
def u4(it):
    c = it.c; n = c.fresh('n', 0, 15); d = sbytes(it, 'd', n)
    try: it.call(IP.parse, [d])
    except ProgExc: c.reach('refused'); return
    c.oblige_by('truncated addresses are refused', False, 'path', 'accepted')
# -- arbitrary text
class Pieces(SIter):
    """the pieces of a text split at a separator; at least lo of them, what they are is unknown"""
    _cls = list
    def __init__(self, n, name): self.name = name; SIter.__init__(self, n, self.piece, ('pieces', name))
    def piece(self, i): return whole(Sym('%s_%r' % (self.name, i), core.CUR.fresh('pl', 0, record=False)), 's')
    def s_len(self, it): return self.n
    def s_getitem(self, it, i): return self.piece('%r_%s' % (i, core.CUR.fresh('ix', record=False)))
    def s_delitem(self, it, i): self.n = s_add(self.n, -1)
    def s_truth(self, it): return s_lt(0, self.n)
    def method(self, it, name, args):
        if name == 'count': return core.CUR.fresh('cnt', 0, record=False)
        raise Unsupported('list.%s' % name)
    def s_getattr(self, it, a): return BMethod(self, a)
def split_rule(it, o, sep):
    c = it.c
    if not (isinstance(o, Rope) and len(o.segs) == 1 and o.segs[0][1].name == 'text'): return None
    n = 1 + c.choose(13)
    if n == 13: return Pieces(c.fresh('np', 13), 'p')
    ps = [whole(Sym('p%s%d' % (sep, i), c.fresh('pl', 0, record=False)), 's') for i in range(n)]
    k = n - 1
    for p in ps: k = s_add(k, rlen(p))
    c.fact(s_eq(rlen(o), k))
    c.extra['pieces'] = list(ps); cs = c.memo.setdefault('charsin', {})
    for p in ps: cs[p.segs[0][1].name] = cs.get(o.segs[0][1].name, [])      # a piece of the text has its characters
    return it.note_alloc(list(ps))
def comp_rule(it, src, seq, elem):
    """a conversion of every piece either fails or gives as many values"""
    if isinstance(seq, Pieces) and it.c.choose(2): raise ProgExc(ValueError('invalid literal'))
    return None
def groups_contract(fn, n, top, what):
    @unit('C27', 'arbitrary text gives %s or nothing' % what, split_rule=split_rule, comp_rule=comp_rule, reach=['groups', 'nothing'], max_paths=20000, loops=[])
    def u(it):
        c = it.c; text = whole(Sym('text', c.fresh('n', 0)), 's')
        r = it.call(getattr(IP, fn), [text])
        if r is None: c.reach('nothing'); return
        g = it.to_list(r)
        c.oblige_by('number of groups', len(g) == n, 'path', '%d' % len(g))
        ps = c.extra.get('pieces')
        if not c.oblige_by('the text was split', ps is not None, 'path'): return
        num = lambda x: it.call(int, [x, 10 if n == 4 else 16])
        e = [not it.truth(x) for x in ps]
        if n == 4: c.oblige_by('four pieces', len(ps) == 4, 'path', '%d' % len(ps)); want = [num(x) for x in ps]
        else:
            # e marks empty pieces: '::' inside, in front (two) or at the end (two)
            k = len(ps); lead = e[0] and e[1]; trail = e[-1] and e[-2]
            inner = [i for i in range(1, k - 1) if e[i]]
            ok = (k == 8 and not any(e)) or (k == 3 and all(e)) or (len(inner) == 1 and k <= 9 and
                 ((not e[0] and not e[-1] and k <= 8) or (lead and not e[-1]) or (trail and not e[0])))
            c.oblige_by('the text is a full or shortened address', ok, 'path', repr(e))
            if not ok: return
            want = []
            for i, x in enumerate(ps):
                if e[i] and i in inner: want += [0] * (8 - e.count(False))
                elif not e[i]: want.append(num(x))
        c.oblige('each group is its piece', s_and(*[s_eq(x, y) for x, y in zip(g, want)]))
        c.oblige('groups in range', s_and(*[s_and(s_le(0, x), s_le(x, top)) for x in g])); c.reach('groups')
groups_contract('_ipv4_groups', 4, 255, 'four octets')
groups_contract('_ipv6_groups', 8, 65535, 'eight groups')
def k_groups(fn, n, top):
    def k(it, a, kw):
        c = it.c; m = c.memo.setdefault('groups', {}); key = (fn, seqkey(a[0]))
        if key not in m: m[key] = None if c.choose(2) else [c.fresh('%s%d' % (fn, i), 0, top, record=False) for i in range(n)]
        return m[key]
    return k
@unit('C27', 'text that validation accepts can be written, other text cannot', reach=['accepted', 'rejected'],
      contracts={IP._ipv4_groups: k_groups('v4', 4, 255), IP._ipv6_groups: k_groups('v6', 8, 65535)})
def u6(it):
    c = it.c; text = whole(Sym('text', c.fresh('n', 0)), 's'); t = IP(); c.inputs['text'] = text
    v = it.call(it.getattr(t, 'validate'), [text])
    try: b = it.call(it.getattr(t, 'binary'), [text])
    except ProgExc as e:
        c.oblige_by('only rejected text cannot be written', v is None, 'path', 'validation accepted it'); c.reach('rejected'); return
    c.oblige_by('validation accepts exactly what can be written', v is not None, 'path', 'rejected'); c.oblige('sixteen bytes', s_eq(rlen(b), 16)); c.reach('accepted')
@unit('C27', 'only text is an address', reach=['end'])
def u7(it):
    for x in (sbytes(it, 'b'), it.c.fresh('i'), None, [], 1.5): it.c.oblige_by('rejected', it.call(it.getattr(IP(), 'validate'), [x]) is None, 'path', repr(x))
NA = F.NetworkAddress
@unit('C27', 'an address structure is timestamp, services, address, big-endian port', contracts=IPC, reach=['end'])
def u8(it):
    c = it.c; ip = sbytes(it, 'ip', 16)
    ts, sv, port = c.fresh('ts', 0, 2**32 - 1), c.fresh('services', 0, 2**64 - 1), c.fresh('port', 0, 65535)
    a = it.call(NA, [ts, sv, iptext(ip), port])
    short = rcat(mk_pos(256, None, sv, 8, le=True), ip, mk_pos(256, None, port, 2)); full = rcat(mk_pos(256, None, ts, 4, le=True), short)
    t, t0 = F.FtNetworkAddress(), F.FtNetworkAddressNoTimestamp()
    oblige_eq(it, 'with timestamp', it.call(it.getattr(t, 'binary'), [a]), full)
    oblige_eq(it, 'without timestamp', it.call(it.getattr(t0, 'binary'), [a]), short)
    for ty, w, stamp in ((t, full, ts), (t0, short, 0)):
        l, v = it.to_list(it.call(it.getattr(ty, 'parse'), [rcat(w, tail(it))]))
        c.oblige('bytes consumed', s_eq(l, rlen(w)))
        c.oblige_by('type', type(v) is NA, 'path', repr(v))
        for f, x in (('timestamp', stamp), ('services', sv), ('address', iptext(ip)), ('port', port)): c.oblige('same %s' % f, it.eqb(it.getattr(v, f), x))
@unit('C27', 'a truncated address structure is refused', contracts=IPC, reach=['refused'])
def u9(it):
    c = it.c
    k = c.choose(2); t = (F.FtNetworkAddress(), F.FtNetworkAddressNoTimestamp())[k]; n = c.fresh('n', 0, (29, 25)[k]); d = sbytes(it, 'd', n)
    try: it.call(it.getattr(t, 'parse'), [d])
    except ProgExc as e:
        c.oblige_by('refused as a parameter error', isinstance(e.exc, F.ParameterError), 'path', repr(e.exc)); c.reach('refused'); return
    c.oblige_by('refused', False, 'path', 'accepted')
