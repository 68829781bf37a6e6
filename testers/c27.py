from nbc.protocol import format as F
import socket, struct
IP = F.FtIPAddress
def v4(T, g):
    s = '.'.join(map(str, g)); w = b'\0' * 10 + b'\xff\xff' + bytes(g)
    T.eq(IP().validate(s), s, 'validate'); T.eq(IP().binary(s), w, 'IPv4 bytes'); T.eq(tuple(IP().parse(w + b'xx')), (16, s), 'IPv4 text')
def v6(T, s):
    w = socket.inet_pton(socket.AF_INET6, s)
    T.eq(IP().validate(s), s, 'validate'); T.eq(IP().binary(s), w, 'IPv6 bytes')
def raw(T, d, rest):
    l, s = IP().parse(d + rest); T.eq(l, 16, 'bytes read'); T.eq(type(s), str, 'type'); T.eq(IP().validate(s), s, 'validate'); T.eq(IP().binary(s), d, 'bytes written')
    if d[:12] == b'\0' * 10 + b'\xff\xff': T.eq(s, '.'.join(map(str, d[12:])), 'IPv4 text')
    else: T.eq(socket.inet_pton(socket.AF_INET6, s), d, 'IPv6 text')
def short(T, d):
    T.raises(Exception, IP().parse, d)
def lax(x): return x.lstrip('0') or '0'
def denotes(s):
    """sixteen bytes of an address text (leading zeros allowed), or None"""
    if s and set(s) <= set('0123456789.'):
        g = s.split('.')
        return b'\0' * 10 + b'\xff\xff' + bytes(int(x) for x in g) if len(g) == 4 and all(g) and all(int(x) < 256 for x in g) else None
    if not s or not set(s) <= set('0123456789abcdefABCDEF:'): return None
    if s.count('::') > 1 or ':::' in s: return None
    try: return socket.inet_pton(socket.AF_INET6, ':'.join(lax(x) if x else x for x in s.split(':')))
    except OSError: return None
def text(T, s):
    d = denotes(s)
    if d is None:
        T.eq(IP().validate(s), None, 'validate of %r' % s); T.raises(Exception, IP().binary, s)
    else: T.eq(IP().validate(s), s, 'validate of %r' % s); T.eq(IP().binary(s), d, 'bytes of %r' % s)
def other(T, x): T.eq(IP().validate(x), None, 'validate of %r' % (x,))
def net(T, ts, sv, d, port, rest):
    ip = IP().parse(d)[1]; a = F.NetworkAddress(ts, sv, ip, port); w = struct.pack('<Q', sv) + d + struct.pack('>H', port)
    full = struct.pack('<I', ts) + w
    T.eq(F.FtNetworkAddress().binary(a), full, 'with timestamp'); T.eq(F.FtNetworkAddressNoTimestamp().binary(a), w, 'without timestamp'); T.eq(a.binary(), full, 'binary')
    for t, b, s in ((F.FtNetworkAddress(), full, ts), (F.FtNetworkAddressNoTimestamp(), w, 0)):
        l, v = t.parse(b + rest); T.eq(l, len(b), 'consumed'); T.eq((v.timestamp, v.services, v.address, v.port), (s, sv, ip, port), 'fields'); T.eq(type(v), F.NetworkAddress, 'type')
        for k in (0, 3, len(b) - 1, len(b) - 2, len(b) - 17): T.raises(F.ParameterError, t.parse, b[:k])
def run(T):
    R = T.rng
    for h in T.hints:
        if isinstance(h.get('d'), bytes): T.case(raw, h['d'][:16].ljust(16, b'\1'), b'') ; T.case(short, h['d'][:15])
        if isinstance(h.get('ip'), bytes): T.case(net, h.get('ts', 1) % 2 ** 32, h.get('services', 1) % 2 ** 64, h['ip'][:16].ljust(16, b'\1'), h.get('port', 1) % 65536, b'')
        if isinstance(h.get('text'), str): T.case(text, h['text'])
    for s in ('', ':', '::', ':::', '::1', '1::', '1::2', ':1', '1:', '1:2', '1:2:3:4:5:6:7:8', '1:2:3:4:5:6:7::', '::2:3:4:5:6:7:8', '1:2:3:4:5:6:7:8:9', '1::3::5', '::1::', '1:2:3:4:5:6:7:', ':2:3:4:5:6:7:8', 'g::', '12345::', '::12345',
        '::ffff', 'FFFF::aB', '1.2.3.4', '1.2.3', '1.2.3.4.5', '1.2.3.256', '256.1.1.1', '0.0.0.0', '255.255.255.255', '1..2.3', '.1.2.3', '1.2.3.', '-1.2.3.4', '+1.2.3.4', ' 1.2.3.4', '1.2.3.4 ', '1_0.2.3.4', '0x1.2.3.4', '::ffff:1.2.3.4',
        '\u0663.1.1.1', '::0x1', '::-1', '::+1', ':: 1', '1:2:3:4:5:6::7:8', '1::2:3:4:5:6:7', '0::0', 'localhost', '1.2.3.04', '0001::', '1:::2', '::1:', ':1::', '1::2:', ':::1', '1:::', '::::', '\n1.2.3.4', '1.2.3.4\n', '1:2:3:4:5:6:1.2.3.4', '1.2.3.4:80', '[::1]', '::1%0', '1.2.3.4/8'): T.case(text, s)
    for x in (b'1.2.3.4', 1, None, [], (), 1.5, b'', True): T.case(other, x)
    for i in range(256):
        T.case(v4, [i, 0, 255 - i, 1]); T.case(v4, [1, i, 0, i])
        T.case(raw, bytes([i]) * 16, b''); T.case(raw, bytes(12) + bytes([i, 1, 2, i]), b'z'); T.case(raw, b'\0' * 10 + b'\xff' + bytes([i]) + b'\1\2\3\4', b''); T.case(raw, b'\0' * 10 + b'\xff\xff' + bytes([i, 0, 0, i]), b'')
    for i in range(12):
        d = bytearray(b'\0' * 10 + b'\xff\xff\1\2\3\4'); d[i] ^= 1; T.case(raw, bytes(d), b'')
    for n in range(16): T.case(short, bytes(n)); T.case(short, (b'\0' * 10 + b'\xff\xff\1\2\3\4')[:n])
    while T.more():
        g = [R.choice((0, 0, 1, 10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, R.randrange(65536))) for _ in range(8)]
        f = R.choice(('%x', '%04x', '%X', '%02x')); k = R.randint(0, 8); m = R.randint(0, 8 - k)
        tx = [f % x for x in g]
        T.case(v6, ':'.join(tx))
        if k + m < 8: T.case(v6, ':'.join(tx[:k]) + '::' + ':'.join(tx[k:k + m]))
        T.case(v4, [T.below(256) for _ in range(4)]); T.case(raw, T.bytes(16), T.bytes(0, 3)); T.case(raw, b'\0' * 10 + T.bytes(6), b'')
        T.case(text, ''.join(R.choice('0123456789abcdefABF:::.. gx') for _ in range(R.randint(0, 20)))); T.case(text, ':'.join(tx[:R.randint(0, 8)]) + R.choice(('', ':', '::', ':::')) + ':'.join(tx[:R.randint(0, 8)]))
        T.case(text, '.'.join(str(R.choice((0, 1, 255, 256, 300, 99, 1000, ''))) for _ in range(R.choice((3, 4, 4, 4, 5)))))
        T.case(net, T.below(2 ** 32), T.below(2 ** 64), R.choice((T.bytes(16), b'\0' * 10 + b'\xff\xff' + T.bytes(4))), T.below(65536), T.bytes(0, 5))
