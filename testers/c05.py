from nbc.util import key as K, base58
from .ref import *
def addr(T, p, vcn, version):
    a = K.publickey_to_address(p, vcn, version)
    T.eq(a, address(p, vcn, version), 'address')
    d = base58.decode_check(a)
    T.eq(d[:len(version)], version, 'version'); T.eq(int(d[len(version):len(version) + 4], 16), vcn % 65536, 'vcn'); T.eq(len(d), len(version) + 36, 'payload length')
    h = hashlib.sha512(p).digest()
    T.eq(K.pubkeyhash_to_address(sha256(ripemd160(h[:32]) + ripemd160(h[32:])), vcn, version), a, 'pubkeyhash_to_address')
def default(T, p, vcn): T.eq(K.publickey_to_address(p, vcn), address(p, vcn), 'address with the default version')
def run(T):
    P = pub(1)
    for h in T.hints:
        if isinstance(h.get('vcn'), int): T.case(addr, P, h['vcn'], b'\0')
    for v in (0, 1, 9, 10, 15, 16, 255, 256, 4095, 4096, 0xabc, 0x1000, 0x7fff, 0x8000, 65535, 65536, 65537, 0x12345678, -1, -2, -65536, 1 << 40):
        T.case(addr, P, v, b'\0'); T.case(default, P, v)
    for v in range(256): T.case(addr, P, 257 * v, bytes([v]))
    while T.more():
        T.case(addr, T.rng.choice((pub, lambda k: pub(k, True)))(T.rng.getrandbits(20) + 1) if T.rng.random() < .1 else T.bytes(0, 70), T.below(65536) if T.rng.random() < .8 else T.rng.getrandbits(40) - (1 << 39), T.bytes(1))
