from .wire import *
def message(T, name, vs, magic, bykw):
    cls, fs = MSG[name]; cls = getattr(M, cls)
    xs = [build(t, v) for (f, t), v in zip(fs, vs)]
    o = cls(**{f: x for (f, t), x in zip(fs, xs)}) if bykw else cls(*xs)
    want = frame(magic, name, payload(name, vs))
    T.eq(o.binary(magic), want, 'frame'); T.eq(o.binary(magic), want, 'frame written again')
    m = M.Message.parse(want, magic); T.ok(type(m) is cls, 'type', type(m)); T.eq(m.command, name, 'command'); T.eq(m.magic, magic, 'magic')
    for (f, t), v in zip(fs, vs): check(T, t, getattr(m, f), v, f)
    T.eq(m.binary(magic), want, 'frame written after reading')
    T.eq(M.Message.parse(want + b'more', magic).binary(magic), want, 'in front of other bytes')
def norelay(T, vs, magic):
    p = payload('version', vs)[:-1]; m = M.Message.parse(frame(magic, 'version', p), magic)
    for (f, t), v in list(zip(MSG['version'][1], vs))[:-1]: check(T, t, getattr(m, f), v, f)
    T.ok(m.relay is True, 'relay', m.relay)
def structure(T, name, v, rest):
    o = build(('c', name), v); w = enc(('c', name), v); T.eq(o.binary(), w, 'bytes'); l, r = type(o).parse(w + rest)
    T.eq(l, len(w), 'bytes consumed'); check(T, ('c', name), r, v, name); T.eq(r.binary(), w, 'bytes after reading')
def vals(T, name): return [gen(T, t) for f, t in MSG[name][1]]
def run(T):
    T.case(message, 'addr', [('L', [gen(T, ('c', 'NetworkAddress')) for _ in range(1000)])], b'\xf9\xbe\xb4\xd9', False)
    T.case(message, 'inv', [('T', [gen(T, ('c', 'InventoryVector'))] * 300)], b'\xf9\xbe\xb4\xd9', False)
    while T.more():
        for name in MSG: T.case(message, name, vals(T, name), T.bytes(4), T.rng.random() < .3)
        T.case(norelay, vals(T, 'version'), T.bytes(4))
        for s in STRUCTS: T.case(structure, s, gen(T, ('c', s)), T.bytes(0, 5))
