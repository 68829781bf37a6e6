from nbc.util.ecdsa import rfc6979 as R, keys as K, curves as C
from testers import ref
import hashlib, hmac
class Gen(object):
    def __init__(self, q): self.q = q
    def order(self): return self.q
def b2i(b, ql):
    bits = ''.join('{:08b}'.format(x) for x in b)[:ql]
    return int(bits, 2) if bits else 0
def nonce(q, x, hf, h1):
    ql = q.bit_length(); rl = -(-ql // 8); hl = hf().digest_size
    mac = lambda k, m: hmac.new(k, m, hf).digest()
    bx = x.to_bytes(rl, 'big') + (b2i(h1, ql) % q).to_bytes(rl, 'big')
    V, k = b'\1' * hl, b'\0' * hl
    for tag in (b'\0', b'\1'): k = mac(k, V + tag + bx); V = mac(k, V)
    while True:
        t = b''
        while 8 * len(t) < ql: V = mac(k, V); t += V
        c = b2i(t, ql)
        if 1 <= c < q: return c
        k = mac(k, V + b'\0'); V = mac(k, V)
def gen(T, q, x, name, h1):
    hf = getattr(hashlib, name)
    T.eq(R.generate_k(Gen(q), x, hf, h1), nonce(q, x, hf, h1), 'nonce')
def same(T, q, x, name, h1, other):
    hf = getattr(hashlib, name)
    a = R.generate_k(Gen(q), x, hf, h1); R.generate_k(Gen(q), max(1, q - x), hf, other); T.eq(R.generate_k(Gen(q), x, hf, h1), a, 'again')
NID = dict(NIST192p=1, NIST224p=1, NIST256p=1, NIST384p=1, NIST521p=1, SECP256k1=1)
def sign(T, name, x, hname, data, short):
    cv = [c for c in C.curves if c.name == name][0]; n = cv.order; x = x % (n - 1) + 1; hf = getattr(hashlib, hname)
    sk = K.SigningKey.from_secret_exponent(x, cv); h = hf(data).digest()
    E = lambda r, s, o: (r, s)
    for again in (0, 1):
        if 8 * len(h) <= 8 * cv.baselen or short is None:
            try: r, s = sk.sign_deterministic(data, hf, sigencode=E)
            except (K.BadDigestError, AssertionError): T.ok(len(h) > cv.baselen, 'digest accepted'); return
            k = nonce(n, x, hf, h)
            R_ = cv.generator * k
            T.eq(r, R_.x() % n, 'r is the one of the nonce')
            T.eq(s, pow(k, n - 2, n) * (int.from_bytes(h, 'big') + x * r) % n, 's')
    d = h[:cv.baselen]
    r, s = sk.sign_digest_deterministic(d, hashfunc=hf, sigencode=E); T.eq(r, (cv.generator * nonce(n, x, hf, d)).x() % n, 'r for a digest')
    sk = K.SigningKey.from_secret_exponent(x, cv, hashfunc=hf); r, s = sk.sign_digest_deterministic(d, sigencode=E); T.eq(r, (cv.generator * nonce(n, x, hf, d)).x() % n, 'r for a digest, with the hash function of the key')
HN = ['sha1', 'sha224', 'sha256', 'sha384', 'sha512', 'md5', 'sha3_256', 'blake2b']
def order(T):
    r = T.rng.random()
    if r < .3: return T.rng.choice([c.order for c in C.curves])
    if r < .6: return T.rng.randint(2, 600)
    return max(2, (1 << T.rng.randint(1, 540)) + T.rng.randint(-3, 3)) if r < .85 else 2 + T.rng.getrandbits(T.rng.randint(1, 560))
def run(T):
    for q in list(range(2, 70)) + [127, 128, 129, 255, 256, 257, 511, 512, 513, 1 << 15, (1 << 16) + 1, (1 << 160) + 1, (1 << 256) - 1, 1 << 255, 1 << 256, (1 << 256) + 1, (1 << 521) - 1, (1 << 520) + 1]:
        for name in ('sha1', 'sha256', 'sha512'): T.case(gen, q, max(1, q - 1), name, b'\xff' * getattr(hashlib, name)().digest_size); T.case(gen, q, 1, name, b'\0' * 20)
        T.case(gen, q, max(1, q // 2), 'sha256', b'\x80' + b'\0' * 99); T.case(gen, q, 1, 'sha256', b'\xab')
        w = ref.orderlen(q)
        for d in (-1, 0, 1): T.case(gen, q, 1, 'sha256', max(0, q + d).to_bytes(w + 1, 'big')[-w:])
    for cv in C.curves:
        for hname in ('sha1', 'sha256', 'sha512'): T.case(sign, cv.name, cv.order - 2, hname, b'sample', None)
    h = T.hints
    for k in h:
        try:
            q = int(k.get('order', 0))
            if q > 1: T.case(gen, q, max(1, min(int(k.get('secret', 1)), q - 1)), 'sha256', k.get('h1') or b'\1')
        except Exception: pass
    while T.more(.97):
        q = order(T); x = 1 + T.below(q - 1) if q > 2 else 1; n = T.rng.choice([1, 16, 20, 32, 48, 64, 66, 67, T.rng.randint(1, 140)])
        T.case(gen, q, x, T.rng.choice(HN), T.bytes(n, n)); T.case(same, q, x, T.rng.choice(HN[:4]), T.bytes(n, n), T.bytes(n, n))
    while T.more(1): T.case(sign, T.rng.choice(C.curves).name, T.rng.getrandbits(520), T.rng.choice(HN[:5]), T.bytes(0, 40), None)
