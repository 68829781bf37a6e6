"""Independent encoder of protocol values (oracle), from the protocol's field tables."""
import struct, hashlib
from nbc.protocol import format as F, messages as M
U32, I32, U64, I64, U16, U8 = ('n', 'I'), ('n', 'i'), ('n', 'Q'), ('n', 'q'), ('n', 'H'), ('n', 'B')
T32, T64 = ('n', 'I', True), ('n', 'q', True)
NA = [('timestamp', T32), ('services', U64), ('address', ('ip',)), ('port', ('N', 'H'))]
IV = [('object_type', U32), ('hash', ('b', 32))]
OP = [('hash', ('b', 32)), ('index', U32)]
TI = [('previous_output', ('c', 'OutPoint')), ('signature_script', ('s',)), ('sequence', U32)]
TO = [('value', I64), ('pk_script', ('s',))]
TX = [('version', U32), ('tx_in', ('a', ('c', 'TxnIn'), 1, None)), ('tx_out', ('a', ('c', 'TxnOut'), 1, None)), ('lock_time', U32)]
BH = [('version', U32), ('prev_block', ('b', 32)), ('merkle_root', ('b', 32)), ('timestamp', T32), ('bits', U32), ('nonce', U32), ('txn_count', ('v',))]
STRUCTS = dict(NetworkAddress=NA, InventoryVector=IV, OutPoint=OP, TxnIn=TI, TxnOut=TO, Txn=TX, BlockHeader=BH)
INV = [('inventory', ('a', ('c', 'InventoryVector'), 0, 50000))]
LOC = [('version', U32), ('block_locator_hashes', ('a', ('b', 32), 1, None)), ('hash_stop', ('b', 32))]
MSG = {
 'version': ('Version', [('version', I32), ('services', U64), ('timestamp', T64), ('addr_recv', ('c0',)), ('addr_from', ('c0',)), ('nonce', ('b', 8)), ('user_agent', ('s',)), ('start_height', I32), ('relay', U8)]),
 'verack': ('VersionAck', []), 'getaddr': ('GetAddress', []), 'mempool': ('MemoryPool', []), 'addr': ('Address', [('addr_list', ('a', ('c', 'NetworkAddress'), 0, 1000))]),
 'inv': ('Inventory', INV), 'getdata': ('GetData', INV), 'notfound': ('NotFound', INV), 'getblocks': ('GetBlocks', LOC), 'getheaders': ('GetHeaders', LOC), 'tx': ('Transaction', TX),
 'block': ('Block', BH[:-1] + [('txns', ('a', ('c', 'Txn'), 0, None))]), 'headers': ('Headers', [('headers', ('a', ('c', 'BlockHeader'), 0, None))]),
 'ping': ('Ping', [('nonce', ('b', 8))]), 'pong': ('Pong', [('nonce', ('b', 8))]), 'reject': ('Reject', [('message', ('s',)), ('ccode', U8), ('reason', ('s',))]), 'alert': ('Alert', [('payload', ('s',)), ('signature', ('s',))])}
def dsha(x): return hashlib.sha256(hashlib.sha256(x).digest()).digest()
def count(n):
    if n < 0xfd: return bytes([n])
    w = 2 if n < 1 << 16 else 4 if n < 1 << 32 else 8
    return bytes([{2: 0xfd, 4: 0xfe, 8: 0xff}[w]]) + n.to_bytes(w, 'little')
def lim(f):
    w = 8 * struct.calcsize('<' + f); return (-(1 << w - 1), (1 << w - 1) - 1) if f.islower() else (0, (1 << w) - 1)
def iptext(d):
    if d[:12] == b'\0' * 10 + b'\xff\xff': return '.'.join(map(str, d[12:]))
    return ':'.join('%x' % int.from_bytes(d[i:i + 2], 'big') for i in range(0, 16, 2))
# plain descriptions of values: int / float / bytes / str / tuple (list) / ('S', name, [...])
def gen(T, k, small=True, how=None):
    """description of a random valid value"""
    R = T.rng
    if k[0] in 'nN':
        lo, hi = lim(k[1]); v = lo + T.below(hi - lo + 1) if R.random() < .8 else R.choice((lo, hi, max(lo, -1), 0, 1))
        if len(k) > 2 and R.random() < .4: v = float(R.randint(max(lo, -2 ** 40), min(hi, 2 ** 40) - 1)) + R.choice((0.0, .25, .5, .99))
        return v
    if k[0] == 'b': return T.bytes(k[1])
    if k[0] == 'ip': return ('IP', R.choice((T.bytes(16), b'\0' * 10 + b'\xff\xff' + T.bytes(4))))
    if k[0] == 's':
        b = T.bytes(0, R.choice((0, 3, 20, 20, 252, 253, 254, 300))); return b.decode('latin-1') if R.random() < .4 else b
    if k[0] == 'v': return T.below(1 << 64)
    if k[0] == 'c': return ('S', k[1], [gen(T, t) for f, t in STRUCTS[k[1]]])
    if k[0] == 'c0': return ('S', 'NetworkAddress', [gen(T, t) for f, t in NA])
    if k[0] == 'a':
        n = R.choice((k[2], 1, 1, 2, 3, 3, 5)); n = max(n, k[2])
        if R.random() < .03 and k[1][0] == 'b': n = R.choice((252, 253, 254, 300))
        return ('L' if R.random() < .5 else 'T', [gen(T, k[1]) for _ in range(n)])
def build(k, v):
    if k[0] == 'ip': return iptext(v[1])
    if k[0] == 'c': return getattr(F, k[1])(*[build(t, x) for (f, t), x in zip(STRUCTS[k[1]], v[2])])
    if k[0] == 'c0': return F.NetworkAddress(*[build(t, x) for (f, t), x in zip(NA, v[2])])
    if k[0] == 'a': return (list if v[0] == 'L' else tuple)([build(k[1], x) for x in v[1]])
    return v
def enc(k, v):
    if k[0] in 'nN': return struct.pack(('<' if k[0] == 'n' else '>') + k[1], int(v))
    if k[0] == 'b': return v
    if k[0] == 'ip': return v[1]
    if k[0] == 's': v = v.encode('latin-1') if isinstance(v, str) else v; return count(len(v)) + v
    if k[0] == 'v': return count(v)
    if k[0] == 'c': return b''.join(enc(t, x) for (f, t), x in zip(STRUCTS[k[1]], v[2]))
    if k[0] == 'c0': return b''.join(enc(t, x) for (f, t), x in zip(NA, v[2]))[4:]
    if k[0] == 'a': return count(len(v[1])) + b''.join(enc(k[1], x) for x in v[1])
def check(T, k, got, v, what):
    if k[0] in 'nN': T.eq(got, int(v), what)
    elif k[0] == 'ip': T.eq(got, iptext(v[1]), what)
    elif k[0] == 's': T.eq(got, v.encode('latin-1') if isinstance(v, str) else v, what)
    elif k[0] in ('c', 'c0'):
        n = k[1] if k[0] == 'c' else 'NetworkAddress'; T.ok(type(got) is getattr(F, n), what + ': type', type(got)); v = list(v[2])
        if k[0] == 'c0': v[0] = 0
        for (f, t), x in zip(STRUCTS[n], v): check(T, t, getattr(got, f), x, what + '.' + f)
    elif k[0] == 'a':
        T.eq(len(got), len(v[1]), what + ': length'); T.ok(isinstance(got, (list, tuple)), what + ': type')
        for i, (g, x) in enumerate(zip(got, v[1])): check(T, k[1], g, x, '%s[%d]' % (what, i))
    else: T.eq(got, v, what)
def frame(magic, cmd, pay, chk=None): 
    cmd = cmd.encode() if isinstance(cmd, str) else cmd
    return magic + cmd.ljust(12, b'\0') + struct.pack('<I', len(pay)) + (dsha(pay)[:4] if chk is None else chk) + pay
def payload(name, vs): return b''.join(enc(t, v) for (f, t), v in zip(MSG[name][1], vs))
def make(name, vs): return getattr(M, MSG[name][0])(*[build(t, v) for (f, t), v in zip(MSG[name][1], vs)])
