from nbc.util.ecdsa import der as D
from testers.ref import derlen, derint
def num(n):
    out = [n & 127]; n >>= 7
    while n: out.append(128 | n & 127); n >>= 7
    return bytes(reversed(out))
def refused(T, f, *a): T.raises(D.UnexpectedDER, f, *a)
def length(T, l, rest):
    w = derlen(l); T.eq(D.encode_length(l), w, 'length'); T.eq(tuple(D.read_length(w + rest)), (l, len(w)), 'length read')
    if len(w) > 1:
        for k in range(1, len(w)): refused(T, D.read_length, w[:k])
def integer(T, r, rest):
    w = derint(r); T.eq(D.encode_integer(r), w, 'integer'); T.eq(tuple(D.remove_integer(w + rest)), (r, rest), 'integer read')
def blob(T, s, rest):
    l = derlen(len(s)) + s
    T.eq(D.encode_octet_string(s), b'\x04' + l); T.eq(tuple(D.remove_octet_string(b'\x04' + l + rest)), (s, rest))
    T.eq(D.encode_bitstring(s), b'\x03' + l); T.eq(tuple(D.remove_bitstring(b'\x03' + l + rest)), (s, rest))
    T.eq(tuple(D.remove_sequence(b'\x30' + l + rest)), (s, rest))
    for t in (0, 1, 2, 15, 30, 31):
        T.eq(D.encode_constructed(t, s), bytes([0xa0 + t]) + l); T.eq(tuple(D.remove_constructed(bytes([0xa0 + t]) + l + rest)), (t, s, rest))
def seq(T, xs, rest):
    s = b''.join(xs); w = b'\x30' + derlen(len(s)) + s
    T.eq(D.encode_sequence(*xs), w, 'sequence'); T.eq(tuple(D.remove_sequence(w + rest)), (s, rest))
def number(T, n, rest):
    w = num(n); T.eq(D.encode_number(n), w, 'base 128'); T.eq(tuple(D.read_number(w + rest)), (n, len(w)), 'number read')
    for k in range(len(w)): refused(T, D.read_number, w[:k])
def oid(T, ns, rest):
    body = bytes([40 * ns[0] + ns[1]]) + b''.join(map(num, ns[2:])); w = b'\x06' + derlen(len(body)) + body
    T.eq(D.encode_oid(*ns), w, 'identifier'); T.eq(D.remove_object(w + rest), (tuple(ns), rest), 'identifier read')
    if len(ns) > 2 and ns[-1] > 127: refused(T, D.remove_object, b'\x06' + derlen(len(body) - 1) + body[:-1])
def wrong(T, s):
    for f, ok in ((D.remove_integer, [2]), (D.remove_octet_string, [4]), (D.remove_bitstring, [3]), (D.remove_sequence, [0x30]), (D.remove_object, [6]), (D.remove_constructed, range(0xa0, 0xc0))):
        if s[0] not in ok: refused(T, f, s)
def cutlen(T, tag, k, body):
    """a long-form length with fewer length bytes than announced"""
    s = bytes([tag, 0x80 | k]) + body[:k - 1]
    refused(T, {2: D.remove_integer, 3: D.remove_bitstring, 4: D.remove_octet_string, 6: D.remove_object, 0x30: D.remove_sequence, 0xa5: D.remove_constructed}[tag], s)
def run(T):
    for h in T.hints:
        r = h.get('rest') if isinstance(h.get('rest'), bytes) else b''
        for k in ('n', 'r', 'l'):
            if isinstance(h.get(k), int) and 0 <= h[k] < 1 << 1000: T.case(integer, h[k], r); T.case(number, h[k], r); T.case(length, h[k], r)
        if isinstance(h.get('s'), bytes): T.case(blob, h['s'], r)
        if isinstance(h.get('data'), bytes) and h['data']: T.case(wrong, h['data'])
    for b in range(0, 530):
        for d in (-1, 0, 1):
            n = (1 << b) + d
            T.case(integer, n, b''); T.case(integer, n, b'\0\xff'); T.case(number, n, b'\x80'); T.case(length, n, b'')
            if b % 7 == 0: T.case(oid, (1, 2, n, 5, n), b'x')
    for b in (1007, 1008, 1009, 1015, 1016, 1023, 1024, 2040, 2048, 4096, 8192, 66000 * 8): T.case(integer, (1 << b) - 1, b'q'); T.case(integer, 1 << b, b'')
    for n in list(range(0, 260)) + [65535, 65536, 65537]:
        T.case(blob, bytes(i % 253 for i in range(n)), b''); T.case(blob, bytes(n), b'\x30')
    for f in range(3):
        for s in range(40): T.case(oid, (f, s), b''); T.case(oid, (f, s, 0, 127, 128), b'\x06'); T.case(oid, (f, s, 16384, 0), b'')
    T.case(oid, (1, 3) + tuple(range(0, 300)), b''); T.case(seq, [], b''); T.case(seq, [b''], b'x')
    for t in range(256): T.case(wrong, bytes([t, 1, 0, 5])); T.case(wrong, bytes([t, 0x81, 0x80]) + bytes(140))
    for t in (2, 3, 4, 6, 0x30, 0xa5):
        for k in list(range(2, 9)) + [126, 127]: T.case(cutlen, t, k, bytes(range(1, 128)))
    while T.more():
        r = T.bytes(0, 6)
        T.case(integer, T.below(1 << T.rng.choice((8, 64, 256, 521, 1100))), r); T.case(blob, T.bytes(0, T.rng.choice((5, 200, 400, 70000 if T.rng.random() < .05 else 9))), r)
        T.case(seq, [T.bytes(0, T.rng.choice((3, 90, 150))) for _ in range(T.rng.randint(0, 7))], r); T.case(number, T.below(1 << T.rng.choice((7, 14, 21, 64, 300))), r)
        T.case(oid, tuple([T.rng.randint(0, 2), T.rng.randint(0, 39)] + [T.below(1 << T.rng.choice((7, 14, 32, 64))) for _ in range(T.rng.choice((0, 1, 5, 12, 60)))]), r)
        T.case(length, T.below(1 << T.rng.choice((8, 16, 40, 200))), r)
