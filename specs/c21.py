"""C21: wallets saved to a file and loaded again"""
from .wallet import *
import json, builtins
class Aes(SObj):
    """AES in CBC mode with the given key, starting value zero (C18, C19)"""
    def __init__(self, it, key): self.key, self.e, self.d = key, b'\0' * 16, b'\0' * 16
    def s_getattr(self, it, a):
        c = it.c
        def enc(it, x, kw):
            c.oblige('blocks of 16 bytes', s_eq(rlen(x[0]), 16)); self.e = app('aes-cbc', (self.key, self.e, x[0]), 16) if True else None; return self.e
        def dec(it, x, kw):
            r = is_app(x[0], 'aes-cbc'); prev, self.d = self.d, x[0]
            if r is not None and c.quick(s_and(it.eqb(r[0], self.key), it.eqb(r[1], prev))): return r[2]
            raise Unsupported('decryption under another key, or of other data')
        if a in ('encrypt', 'decrypt'): return Fn(enc if a == 'encrypt' else dec)
        raise Unsupported('attribute %s of the cipher' % a)
def k_aes(it, a, kw):
    c = it.c; kw = dict(zip(('key', 'iv'), a), **kw); c.trust('contracts of AESModeOfOperationCBC (proved under C18, C19)')
    if set(kw) != {'key'}: raise Unsupported('starting value')
    c.oblige('a key of 16 bytes', s_eq(rlen(kw['key']), 16)); return Aes(it, kw['key'])
def cbc(key, text, n):
    """CBC of n blocks, zero padded"""
    p = b'\0' * 16; out = []
    t = rcat(text, b'\0' * (16 * n - core.CUR.concrete(rlen(text))))
    for i in range(n): p = app('aes-cbc', (key, p, rslice(t, 16 * i, 16 * i + 16)), 16); out.append(p)
    return rcat(*out)
class Text(SObj):
    """the JSON text of a plain dictionary"""
    _cls = str
    def __init__(self, v): self.v = v
def plain(it, v):
    if v is None or isinstance(v, (bool, SBool)) or is_int(v) or isinstance(v, str): return v
    if isinstance(v, Rope) and v.kind == 's': return v
    if isinstance(v, dict) and all(isinstance(k, str) for k in v): return {k: plain(it, x) for k, x in v.items()}
    raise ProgExc(TypeError('not JSON serializable'))
class Disk(SObj):
    def __init__(self): self.f = {}
    def s_call(self, it, a, kw):
        kw = dict(zip(('file', 'mode'), a), **kw); n = kw['file']; m = kw.get('mode', 'r')
        if m == 'w': self.f[n] = []
        elif m != 'r': raise Unsupported('mode %r' % (m,))
        if n not in self.f: raise ProgExc(FileNotFoundError(n))
        def write(it, x, kw): it.c.oblige_by('written in order to write', m == 'w', 'path'); self.f[n].append(x[0])
        def read(it, x, kw):
            if len(self.f[n]) != 1: raise Unsupported('pieces of a file')
            return self.f[n][0]
        o = AObj(write=Fn(write), read=Fn(read), close=Fn(lambda it, x, kw: None)); o.__exit__ = Fn(lambda it, x, kw: None); o.__enter__ = Fn(lambda it, x, kw: o)
        o.__dict__['__enter__'] = o.__enter__; o.__dict__['__exit__'] = o.__exit__; return o
def files(it):
    c = it.c; c.trust('json.loads gives back what json.dumps wrote (for dictionaries of texts, numbers, booleans and None); files hold what was written'); d = Disk()
    def dumps(it, a, kw): return Text(plain(it, a[0]))
    def loads(it, a, kw):
        if not isinstance(a[0], Text): raise Unsupported('another text')
        return plain(it, a[0].v)
    it.contracts.update({json.dumps: dumps, json.loads: loads, builtins.open: d.s_call_, AD.AES: k_aes}); return d
Disk.s_call_ = property(lambda s: lambda it, a, kw: s.s_call(it, a, kw))
def passphrase(it):
    """None, or the passphrase and the AES key it stands for"""
    c = it.c
    if c.choose(2): return None, None
    n = c.fresh('passlen', 1); p = whole(Sym('passphrase', n)); c.inputs['passphrase'] = p
    k = rslice(p, 0, 16) if c.decide(s_le(16, n)) else rcat(p, rrep(b'\0', s_add(16, -n)))
    return p, k
def trip(it, w, p):
    """save, load; the text and the wallet loaded"""
    c = it.c; d = files(it); name = 'wallet.cfg'
    a = [name, w]; b = [name]
    if p is not None: a.append(p); b.append(it.call(it.getattr(p, 'decode'), ['latin-1']) if c.choose(2) else p)
    elif c.choose(2): a.append(''); b.append('')
    it.call_body(W.saveTo, a); c.oblige_by('one file is written', list(d.f) == [name] and len(d.f[name]) == 1 and isinstance(d.f[name][0], Text), 'path', repr(d.f))
    cfg = plain(it, d.f[name][0].v)
    return cfg, it.call_body(W.loadFrom, b)
def hexof(it, x): return it.call(it.getattr(it.call(AD.hexlify, [x]), 'decode'), ['latin-1'])
def lenpref(it, x): return rcat(b'%02x' % it.c.concrete(rlen(x)), x)
def stored(it, cfg, secret, key):
    """how the private key is stored"""
    c = it.c; t = lenpref(it, secret); n = c.concrete(rlen(t))
    if key is None: oblige_eq(it, 'the private key, with its length', cfg['prvkey'], hexof(it, t)); c.oblige_by('not marked encrypted', cfg['encrypted'] is False, 'path')
    else:
        oblige_eq(it, 'the private key is stored encrypted under AES-CBC', cfg['prvkey'], hexof(it, cbc(key, t, -(-n // 16)))); c.oblige_by('marked encrypted', cfg['encrypted'] is True, 'path')
from .c22 import build, check
for priv in (True, False):
    w = 'private' if priv else 'public'
    @unit('C21', 'an address wallet, %s key' % w, contracts=CON, reach=['end'])
    def u0(it, priv=priv):
        g = world(it); c = it.c; A, d, comp, vcn, testnet = build(it, g, priv); p, key = passphrase(it)
        cfg, B = trip(it, A, p); check(it, g, B, d, comp, it.getattr(A, 'vcn'), testnet, priv)
        if priv: stored(it, cfg, wif(payload(d, comp)), key)
    @unit('C21', 'an HD wallet, %s key' % w, contracts=CON, reach=['end'])
    def u1(it, priv=priv):
        g = world(it); c = it.c; d = secret(it, g); mk, f = node(it, g, d if priv else GP(g, d)); w = mk(); p, key = passphrase(it)
        cfg, B = trip(it, w, p); check_node(it, g, B, d, priv, f)
        if priv: stored(it, cfg, be32(d), key)
@unit('C21', 'with a passphrase, nothing but the encrypted key depends on the private key', contracts=CON, reach=['end'])
def u2(it):
    c = it.c; g, t, ds = twins(it); p = whole(Sym('passphrase', c.fresh('passlen', 1))); files(it)
    if c.choose(2): mk, f = node(it, g, None); ws = [mk(d) for d in ds]
    else: comp = bool(c.choose(2)); vcn = c.fresh('vcn', 0); testnet = bool(c.choose(2)); ws = [it.call(Address, [], dict(privKey=wif(payload(d, comp)), vcn=vcn, testnet=testnet)) for d in ds]
    a, b = [it.call(it.getattr(w, 'dump_to_cfg'), [p]) for w in ws]
    c.oblige_by('the same fields', set(a) == set(b), 'path')
    for n in a:
        if n == 'prvkey': continue
        x, y = a[n], b[n]
        if x is None or y is None: c.oblige_by('field %s is the same' % n, x is y, 'path')
        else: oblige_eq(it, 'field %s is the same' % n, x, y)
@unit('C21', 'a text as passphrase never leaves the key in clear', contracts=CON, reach=['end'])
def u3(it):
    g = world(it); c = it.c; d = secret(it, g); files(it)
    w = node(it, g, d)[0]() if c.choose(2) else it.call(Address, [], dict(privKey=wif(be32(d)), vcn=0)); disk = files(it)
    try: it.call_body(W.saveTo, ['f', w, whole(Sym('passphrase', c.fresh('passlen', 1)), 's')]); e = None
    except ProgExc as x: e = x.exc
    if e is not None: c.oblige_by('nothing is written when a text is refused', not any(disk.f.values()), 'path', repr(e)); return
    cfg = disk.f['f'][0].v; c.oblige_by('when it is accepted, the key is encrypted', cfg['encrypted'] is True, 'path')
