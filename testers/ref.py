"""Independent reference functions (oracles) for the concrete checks."""
import hashlib
A58 = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
def enc58(v):
    k = 0
    while k < len(v) and v[k] == 0: k += 1
    n = int.from_bytes(v, 'big'); d = []
    while n: d.append(A58[n % 58]); n //= 58
    return b'1' * k + bytes(reversed(d))
def dec58(t):
    k = 0
    while k < len(t) and t[k] == A58[0]: k += 1
    n = 0
    for c in t: n = n * 58 + A58.index(c)
    return bytes(k) + n.to_bytes((n.bit_length() + 7) // 8, 'big')
def sha256(x): return hashlib.sha256(x).digest()
def sha256d(x): return sha256(sha256(x))
def ripemd160(x): return hashlib.new('ripemd160', x).digest()
def check58(v): return enc58(v + sha256d(v)[:4])
def address(pub, vcn, version=b'\0'):
    h = hashlib.sha512(pub).digest()
    return check58(version + ('%04x' % (vcn % 65536)).encode() + sha256(ripemd160(h[:32]) + ripemd160(h[32:])))
def wif(key, comp): return check58(b'\x80' + key + (b'\x01' if comp else b''))
class EC(object):
    """y^2 = x^3 + a x + b over F_p, affine, None = infinity"""
    def __init__(self, p, a, b, G=None, n=None): self.p, self.a, self.b, self.G, self.n = p, a, b, G, n
    def on(self, P): return P is None or (P[1] * P[1] - (P[0] ** 3 + self.a * P[0] + self.b)) % self.p == 0
    def neg(self, P): return None if P is None else (P[0], -P[1] % self.p)
    def add(self, P, Q):
        if P is None: return Q
        if Q is None: return P
        p = self.p
        if P[0] % p == Q[0] % p:
            if (P[1] + Q[1]) % p == 0: return None
            l = (3 * P[0] * P[0] + self.a) * pow(2 * P[1], -1, p) % p
        else: l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p
    def mul(self, k, P):
        R = None
        while k:
            if k & 1: R = self.add(R, P)
            P = self.add(P, P); k >>= 1
        return R
    def sign(self, d, h, k):
        r = self.mul(k, self.G)[0] % self.n
        return r, pow(k, -1, self.n) * (h + r * d) % self.n
    def valid(self, h, Q, r, s):
        if not (0 < r < self.n and 0 < s < self.n): return False
        c = pow(s, -1, self.n); R = self.add(self.mul(h * c % self.n, self.G), self.mul(r * c % self.n, Q))
        return R is not None and R[0] % self.n == r
    def lift(self, x):
        """square root for p = 3 mod 4"""
        c = (x ** 3 + self.a * x + self.b) % self.p
        y = pow(c, (self.p + 1) // 4, self.p)
        return y if y * y % self.p == c else None
P256k1 = 2 ** 256 - 2 ** 32 - 977
N256k1 = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
K1 = EC(P256k1, 0, 7, (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8), N256k1)
def pub(key, comp=False):
    P = K1.mul(int.from_bytes(key, 'big') if isinstance(key, bytes) else key, K1.G)
    x, y = P[0].to_bytes(32, 'big'), P[1].to_bytes(32, 'big')
    return bytes([2 + (P[1] & 1)]) + x if comp else b'\x04' + x + y
def key32(T):
    """a private key, edges included"""
    return (1 + T.below(N256k1 - 1)).to_bytes(32, 'big')
def orderlen(n): return (n.bit_length() + 7) // 8

def derint(x):
    b = x.to_bytes(x.bit_length() // 8 + 1, 'big'); return b'\x02' + derlen(len(b)) + b
def derlen(n):
    if n < 128: return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big'); return bytes([128 | len(b)]) + b
def dersig(r, s):
    b = derint(r) + derint(s); return b'\x30' + derlen(len(b)) + b
