from nbc.util.ecdsa import ecdsa as E, keys as K, util as U, curves as C, der as D
from nbc.util import ecc
from testers import ref, toy
import hashlib
FORMS = {'string': (U.sigencode_string, U.sigdecode_string), 'strings': (U.sigencode_strings, U.sigdecode_strings), 'der': (U.sigencode_der, U.sigdecode_der),
  'string low': (U.sigencode_string_canonize, U.sigdecode_string), 'strings low': (U.sigencode_strings_canonize, U.sigdecode_strings), 'der low': (U.sigencode_der_canonize, U.sigdecode_der)}
KEYS = {}
def keypair(i, d):
    if (i, d) not in KEYS:
        if len(KEYS) > 4000: KEYS.clear()
        KEYS[i, d] = K.SigningKey.from_secret_exponent(d, curve=toy.get(i)[0])
    return KEYS[i, d]
def numbers(T, i, d, z, k):
    cv, R = toy.get(i); sk = keypair(i, d); r, s = R.sign(d, z, k)
    if r == 0 or s == 0:
        T.raises(RuntimeError, sk.sign_number, z, k=k); T.raises(RuntimeError, sk.privkey.sign, z, k); return
    T.eq(tuple(sk.sign_number(z, k=k)), (r, s), 'the signature')
    T.ok(sk.get_verifying_key().pubkey.verifies(z, E.Signature(r, s)) is True, 'not accepted', r, s)
def digest(T, i, d, dg, k, form, how):
    cv, R = toy.get(i); sk = keypair(i, d); vk = sk.get_verifying_key(); enc, dec = FORMS[form]; z = int.from_bytes(dg, 'big'); r, s = R.sign(d, z, k)
    class H(object):
        digest_size = len(dg)
        def __init__(self, data=b''): self.data = data
        def digest(self): return dg
    if r == 0 or s == 0: return T.raises(RuntimeError, sk.sign_digest, dg, sigencode=enc, k=k)
    if how == 'digest': w = sk.sign_digest(dg, sigencode=enc, k=k); ok = vk.verify_digest(w, dg, sigdecode=dec)
    else: w = sk.sign(b'data', hashfunc=H, sigencode=enc, k=k); ok = vk.verify(w, b'data', hashfunc=H, sigdecode=dec)
    T.ok(ok is True, 'not accepted', ok); T.eq(tuple(dec(w, cv.order)), (r, min(s, R.n - s) if 'low' in form else s), 'the numbers')
def nonces(T, i, d, dg, form, det):
    cv, R = toy.get(i); sk = keypair(i, d); vk = sk.get_verifying_key(); enc, dec = FORMS[form]
    try: w = sk.sign_digest_deterministic(dg, hashfunc=hashlib.sha256, sigencode=enc) if det else sk.sign_digest(dg, sigencode=enc)
    except RuntimeError: T.ok(R.n < 1 << 40, 'refused'); return
    T.ok(vk.verify_digest(w, dg, sigdecode=dec) is True, 'not accepted')
def default(T, i, d, data, hf):
    sk = keypair(i, d); vk = sk.get_verifying_key(); h = getattr(hashlib, hf)
    T.ok(vk.verify(sk.sign(data, hashfunc=h), data, hashfunc=h) is True); T.ok(vk.verify(sk.sign_deterministic(data, hashfunc=h), data, hashfunc=h) is True)
    T.ok(vk.verify(sk.sign(data), data) is True, 'default hash')
def toolong(T, i, d, dg):
    sk = keypair(i, d); T.raises(K.BadDigestError, sk.sign_digest, dg); T.raises(K.BadDigestError, sk.get_verifying_key().verify_digest, b'', dg)
def secret(T, i, d):
    cv, R = toy.get(i)
    if not 0 < d < R.n: return T.raises(AssertionError, K.SigningKey.from_secret_exponent, d, cv)
    sk = K.SigningKey.from_secret_exponent(d, cv); P = sk.get_verifying_key().pubkey.point; T.eq((P.x(), P.y()), R.mul(d, R.G), 'public point'); T.eq(sk.privkey.secret_multiplier, d)
def wallet(T, key, data):
    T.ok(ecc.verify(data, ref.pub(key), ecc.sign(data, key)) is True, 'full key'); T.ok(ecc.verify(data, ref.pub(key, True), ecc.sign(data, key)) is True, 'compressed key')
def run(T):
    nc = len(C.curves); F = sorted(FORMS)
    for i in range(toy.NTOY()):
        n = toy.get(i)[1].n
        for d in range(-1, n + 2): T.case(secret, i, d)
        for d in range(1, min(n, 40)):
            for k in range(1, min(n, 25)):
                for z in ((0, 1, n - 1, n, n + 1, 2 * n + 3) if n > 12 else range(2 * n + 2)): T.case(numbers, i, d, z, k)
    for i in range(-nc, 0):
        cv, R = toy.get(i); n = R.n; L = ref.orderlen(n)
        for d in (1, 2, n - 1, n // 2): T.case(secret, i, d); T.case(numbers, i, d, n - d, n - 1)
        for d in (0, n, -1): T.case(secret, i, d)
        T.case(toolong, i, 5, bytes(L + 1))
        for f in F: T.case(digest, i, 3, b'\xff' * L, n - 2, f, 'digest'); T.case(digest, i, n - 3, b'\0' * L, 2, f, 'data')
    for h in T.hints:
        for i in list(range(toy.NTOY())) + list(range(-nc, 0)):
            n = toy.get(i)[1].n
            try: T.case(numbers, i, h.get('secret', 1) % (n - 1) + 1, h.get('digest', 0) % (1 << 600) if isinstance(h.get('digest'), int) else 1, h.get('nonce', 1) % (n - 1) + 1)
            except (TypeError, AttributeError): pass
    for i in range(toy.NTOY()):
        n = toy.get(i)[1].n; L = ref.orderlen(n)
        T.case(toolong, i, 1, bytes(L + 1))
        for d in range(1, min(n, 12)):
            for f in F: T.case(digest, i, d, T.bytes(1, L), 1 + T.below(n - 1), f, T.rng.choice(('digest', 'data'))); T.case(nonces, i, d, T.bytes(L), f, T.rng.random() < .5)
    T.case(wallet, (1).to_bytes(32, 'big'), b''); T.case(wallet, (ref.N256k1 - 1).to_bytes(32, 'big'), b'x')
    while T.more():
        i = T.rng.choice(range(-nc, toy.NTOY())); R = toy.get(i)[1]; n = R.n; L = ref.orderlen(n); d, k = 1 + T.below(n - 1), 1 + T.below(n - 1); x = T.rng.random()
        if x < .3: T.case(numbers, i, d, T.rng.getrandbits(8 * L), k)
        elif x < .6: T.case(digest, i, d, T.bytes(1, L), k, T.rng.choice(F), T.rng.choice(('digest', 'data')))
        elif x < .8: T.case(nonces, i, d, T.bytes(1, L), T.rng.choice(F), T.rng.random() < .5)
        elif i < 0 and L >= 32: T.case(default, i, d, T.bytes(0, 50), T.rng.choice(('sha1', 'sha256')))
        else: T.case(wallet, ref.key32(T), T.bytes(0, 80))
