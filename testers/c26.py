from nbc.protocol import format as F
import struct
def count(n):
    if n < 0xfd: return bytes([n])
    return bytes([{2: 0xfd, 4: 0xfe, 8: 0xff}[w] for w in (2, 4, 8) if n < 256 ** w][:1]) + n.to_bytes(min(w for w in (2, 4, 8) if n < 256 ** w), 'little')
def number(T, n, rest):
    t = F.FtVarInteger()
    for f in (F.FtVarInteger.binary, t.binary): T.eq(f(n), count(n), 'count written')
    for f in (F.FtVarInteger.parse, t.parse): T.eq(tuple(f(count(n) + rest)), (len(count(n)), n), 'count read')
    for k in range(len(count(n))): T.raises(Exception, F.FtVarInteger.parse, count(n)[:k])
def long_form(T, d):
    w = {0xfd: 3, 0xfe: 5, 0xff: 9}.get(d[0], 1) if d else 1
    if len(d) < w: T.raises(Exception, F.FtVarInteger.parse, d)
    else: T.eq(tuple(F.FtVarInteger.parse(d)), (w, d[0] if w == 1 else int.from_bytes(d[1:w], 'little')), 'count read')
def string(T, s, rest):
    w = count(len(s)) + s; t = F.FtVarString()
    T.eq(t.binary(s), w, 'string written'); T.eq(t.binary(s.decode('latin-1')), w, 'text written')
    T.eq(tuple(t.parse(w + rest)), (len(w), s), 'string read')
    for k in sorted(set(list(range(min(len(w), 6))) + [len(w) - 1, len(w) - 2, len(w) // 2])):
        if 0 <= k < len(w): T.raises(Exception, t.parse, w[:k])
def declared(T, n, body):
    """a string whose declared length is n with fewer or more contents"""
    d = count(n) + body
    if len(body) >= n: T.eq(tuple(F.FtVarString.parse(d)), (len(count(n)) + n, body[:n]), 'string read')
    else: T.raises(Exception, F.FtVarString.parse, d)
def array(T, xs, rest, tup):
    """list of variable strings"""
    t = F.FtArray(F.FtVarString()); w = count(len(xs)) + b''.join(count(len(x)) + x for x in xs)
    T.eq(t.binary(tuple(xs) if tup else list(xs)), w, 'list written')
    l, v = t.parse(w + rest); T.eq(l, len(w), 'bytes consumed'); T.eq(list(v), list(xs), 'list read')
    for k in sorted({0, len(w) - 1, len(w) // 2, len(count(len(xs)))}):
        if 0 <= k < len(w): T.raises(Exception, t.parse, w[:k])
def fixed(T, n, f, rest):
    t = F.FtArray(F.FtNumber(f)); z = struct.calcsize(f); xs = [(i * 2654435761) % (1 << 8 * z - 1) for i in range(n)]
    w = count(n) + b''.join(struct.pack('<' + f, x) for x in xs)
    T.eq(t.binary(xs), w, 'list written'); l, v = t.parse(w + rest); T.eq(l, len(w), 'bytes consumed'); T.eq(list(v), xs, 'list read')
    if n: T.raises(Exception, t.parse, w[:-1])
def nothing(T, n, rest):
    """elements that take no bytes"""
    t = F.FtArray(F.FtBytes(0)); w = count(n); xs = [b''] * n
    T.eq(t.binary(xs), w, 'list written'); l, v = t.parse(w + rest); T.eq(l, len(w), 'bytes consumed'); T.eq(list(v), xs, 'list read')
def run(T):
    for n in (0, 1, 2, 253, 1000): T.case(nothing, n, b''); T.case(nothing, n, b'q')
    for h in T.hints:
        if isinstance(h.get('n'), int) and 0 <= h['n'] < 1 << 64:
            T.case(number, h['n'], b''); T.case(number, h['n'], b'xyz')
            if h['n'] < 1 << 18: T.case(string, bytes(h['n']), b''); T.case(fixed, h['n'], 'B', b'x')
            T.case(declared, h['n'], bytes(min(h.get('m') or 0, 1000) if isinstance(h.get('m'), int) else 3))
        if isinstance(h.get('data'), bytes): T.case(long_form, h['data'])
    for b in range(0, 65):
        for d in (-3, -2, -1, 0, 1, 2, 3):
            n = (1 << b) + d
            if 0 <= n < 1 << 64: T.case(number, n, b''); T.case(number, n, b'\xff\xfe\xfd\0'); T.case(declared, n, b''); T.case(declared, n, b'q' * 300)
    for n in list(range(0, 300)) + [0xfffe, 0xffff, 0x10000, 0x10001]: T.case(number, n, b''); T.case(string, bytes(i % 251 for i in range(n)), b'\xfd'); T.case(declared, n, bytes(max(n - 1, 0)))
    for n in (0, 1, 2, 3, 252, 253, 254, 255, 256, 257, 1000, 65535, 65536):
        for f in 'BHIQ': T.case(fixed, n, f, b'zz')
    for f in (0xfc, 0xfd, 0xfe, 0xff, 0):
        for k in range(0, 11): T.case(long_form, bytes([f]) + bytes(range(1, k + 1))); T.case(long_form, bytes([f]) + bytes(k))
    T.case(long_form, b''); T.case(array, [], b'', False)
    while T.more():
        T.case(number, T.below(1 << 64), T.bytes(0, 12)); T.case(string, T.bytes(0, 600), T.bytes(0, 5)); T.case(long_form, T.bytes(0, 12))
        T.case(array, [T.bytes(0, 300 if T.rng.random() < .1 else 5) for _ in range(T.rng.choice((0, 1, 2, 5, 252, 253, 300)))], T.bytes(0, 4), T.rng.random() < .5)
        T.case(declared, T.below(1 << 20), T.bytes(0, 300))
