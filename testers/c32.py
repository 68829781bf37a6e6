from .wire import *
from .ref import *
FIELDS = ['version', 'relay_until', 'expiration', 'id', 'cancel', 'set_cancel', 'min_ver', 'max_ver', 'set_sub_ver', 'priority', 'comment', 'status_bar', 'reserved']
FMT = dict(version='i', relay_until='q', expiration='q', id='i', cancel='i', min_ver='i', max_ver='i', priority='i')
def encode(vs):
    out = b''
    for f, v in zip(FIELDS, vs):
        if f in FMT: out += struct.pack('<' + FMT[f], v)
        elif f == 'set_cancel': out += count(len(v)) + b''.join(struct.pack('<i', x) for x in v)
        elif f == 'set_sub_ver': out += count(len(v)) + b''.join(count(len(x)) + x for x in v)
        else: out += count(len(v)) + v
    return out
def read(T, vs, order, rest, wire):
    p = encode(vs) + rest; o = M.Alert(p, b'sig')
    if wire: o = M.Message.parse(o.binary(b'abcd'), b'abcd')
    for k in order + order[::-1]:
        got = getattr(o, FIELDS[k]); want = vs[k]
        if isinstance(want, list): got = list(got)
        T.eq(got, want, FIELDS[k])
    T.eq(o.payload, p, 'payload')
def verify(T, key, data, k, flip):
    d = int.from_bytes(dsha(data), 'big'); r, s = K1.sign(key, d, k); sig = dersig(r, s)
    T.ok(M.Alert(data, sig).verify(pub(key, False)) is True, 'a valid signature is accepted'); T.ok(M.Alert(data, sig).verify(pub(key, True)) is True, 'a valid signature is accepted (compressed key)')
    T.ok(M.Alert(data + flip, sig).verify(pub(key, False)) is False, 'another payload is refused'); T.ok(M.Alert(data, sig).verify(pub(key + 1, False)) is False, 'another key is refused')
def values(T):
    R = T.rng; num = lambda f: lim(f)[0] + T.below(lim(f)[1] - lim(f)[0] + 1)
    s = lambda: T.bytes(0, R.choice((0, 5, 30, 252, 253, 300)))
    n = lambda: R.choice((0, 0, 1, 2, 3, 5, 253 if R.random() < .1 else 4))
    return [num(FMT[f]) if f in FMT else [num('i') for _ in range(n())] if f == 'set_cancel' else [s() for _ in range(n())] if f == 'set_sub_ver' else s() for f in FIELDS]
def run(T):
    R = T.rng
    for k in range(13):
        for w in (False, True): T.case(read, values(T), [k] + list(range(13)), b'', w)
    T.case(verify, 12345, b'payload', 98765, b'x')
    while T.more(.9):
        o = list(range(13)); R.shuffle(o); T.case(read, values(T), o, T.bytes(0, 6), R.random() < .5)
        if T.n % 200 == 0: T.case(verify, 1 + T.below(K1.n - 2), T.bytes(0, 50), 1 + T.below(K1.n - 1), b'x')
