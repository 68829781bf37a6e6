"""Primality certificates of the numbers behind the supported curves, and the standard parameters (SEC 2, FIPS 186).

A certificate of N lists primes q with a witness a each, such that, with F the product of the full powers of the q in
N - 1 and R = (N - 1)/F = 2*F*s + r (Brillhart, Lehmer, Selfridge 1975, theorem 5): a**(N-1) = 1 and
gcd(a**((N-1)/q) - 1, N) = 1 modulo N for every q, F even, gcd(F, R) = 1, N < (F+1)*(2*F*F + (r-1)*F + 1), and s = 0 or
r*r - 8*s is not a square.  Then N is prime if every q is.  Numbers below 2**40 are divided by everything up to their root."""
import math, functools
CERT = {
    0x14e89ecb901: ((0x2, 3), (0x4253, 2),),
    0xa44e179dccf: ((0x2, 13), (0x5, 2), (0x11, 2), (0xf76c8ffcb, 2),),
    0x21f701ae83c3: ((0x2, 2), (0x3, 2), (0x5, 3), (0x7, 3), (0xb, 2), (0x95, 2),),
    0x625a8944af99: ((0x2, 11), (0x3, 5), (0x5, 2), (0xd, 2), (0x2ab, 3),),
    0xc6bf5fd72f030f: ((0x2, 7), (0x7, 3), (0x6b, 2), (0x21f701ae83c3, 2),),
    0x17d6cfb8ee30c51: ((0x2, 3), (0x413b, 2), (0x14f47, 2),),
    0x180e7bb15e70595: ((0x2, 2), (0x11, 2), (0x2b, 2), (0x9ad, 2),),
    0x267f72148d98cd9: ((0x2, 3), (0x5, 2), (0xa3d, 2), (0x60e9, 2),),
    0x12d611c157e5d505: ((0x2, 2), (0x3, 2), (0x5, 2), (0x43, 2), (0x18ad, 2),),
    0x978c6f353c3889a79: ((0x2, 3), (0x11, 2), (0x3b, 2), (0xfd3, 2),),
    0x4b0b9f59a0a545761c9: ((0x2, 5), (0x3, 2), (0x14cb, 2), (0x267f72148d98cd9, 2),),
    0x198f251db60be2e87753: ((0x2, 2), (0x3, 3), (0xd, 2), (0x867d, 2), (0x93c5bb5, 2),),
    0x1c245bc19c3dfa0c4ab7: ((0x2, 3), (0x3, 2), (0x4b0b9f59a0a545761c9, 2),),
    0x7e966779a05e328ce6915: ((0x2, 2), (0x3, 2), (0x7, 2), (0xefd185, 2),),
    0x70d411d89618dbfe3ebdd1: ((0x2, 3), (0x1f, 2), (0x5077, 2), (0x788b, 2),),
    0x3a25040f77034a519673713: ((0x2, 2), (0x3, 2), (0x611, 2), (0x198f251db60be2e87753, 2),),
    0x87b23e9d09d3e637b2aa341: ((0x2, 5), (0x3, 2), (0x511, 2), (0x41ef, 2),),
    0x1b54cb03ae59ed185e2c4486e75: ((0x2, 2), (0x3, 2), (0x3d, 2), (0x15b, 2), (0x70d411d89618dbfe3ebdd1, 2),),
    0x44f817a026114c922427bc213ae265fafd9: ((0x2, 19), (0x3, 3), (0xa93, 2), (0x28ba7, 2), (0x1b54cb03ae59ed185e2c4486e75, 2),),
    0x22b559b5c816ae00f2378e18df38c5410ed597: ((0x2, 3), (0x3, 2), (0x96b, 2), (0x7fb6219d9, 2), (0xa44e179dccf, 2),),
    0x926d1276e41fae13fdda5f78edb7802a76951509: ((0x2, 7), (0x3, 2), (0x5, 2), (0x22b559b5c816ae00f2378e18df38c5410ed597, 2),),
    0xffffffffffffffffffffffff99def836146bc9b1b4d22831: ((0x2, 3), (0x5, 2), (0x955, 2), (0x7e966779a05e328ce6915, 2),),
    0xfffffffffffffffffffffffffffffffeffffffffffffffff: ((0x2, 11), (0x3b, 2), (0x2473d, 2), (0xadda4b, 2), (0x180e7bb15e70595, 2),),
    0x80c63bd8a8b2da59fd7b637139afe83defb38e5bc128c6a53: ((0x2, 2), (0x59, 2), (0x277, 2), (0x14fef, 2), (0xd48921, 2), (0x44f817a026114c922427bc213ae265fafd9, 2),),
    0xa8c55f664384d6fe203ca16a45d7238cad2d61237ce2fa5933: ((0x2, 2), (0xfb, 2), (0x3ca6f, 2), (0x8122af, 2), (0xc6bf5fd72f030f, 2),),
    0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d: ((0x2, 2), (0x3, 2), (0x5, 2), (0x11, 2), (0x869, 2), (0x80c63bd8a8b2da59fd7b637139afe83defb38e5bc128c6a53, 2),),
    0xffffffffffffffffffffffffffffffff000000000000000000000001: ((0x2, 11),),
    0x1db8260e5e3b460a46a0088fccf6a3a5936d75d89a776d4c0da4f338aafb: ((0x2, 2), (0x3, 2), (0x5, 5), (0x1d, 2), (0x1f, 2), (0x1e2b, 2), (0x1c245bc19c3dfa0c4ab7, 2),),
    0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551: ((0x2, 7), (0x3, 2), (0x47, 2), (0x83, 2), (0x175, 2), (0xd4f, 2), (0x4429, 2), (0x952d, 2), (0x87b23e9d09d3e637b2aa341, 2),),
    0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff: ((0x2, 3), (0x3, 2), (0x5, 2), (0x11, 2), (0x101, 2), (0x281, 2), (0x5fb, 2), (0x10001, 2), (0x926d1276e41fae13fdda5f78edb7802a76951509, 2),),
    0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141: ((0x2, 5), (0x3, 2), (0x95, 2), (0x277, 2), (0x17d6cfb8ee30c51, 2), (0x978c6f353c3889a79, 2),),
    0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f: ((0x2, 3), (0x3, 2), (0x7, 3), (0x3481, 2), (0x1db8260e5e3b460a46a0088fccf6a3a5936d75d89a776d4c0da4f338aafb, 2),),
    0x192a43d8f8a55b860e20c52b200024fbdd5c39850b80be9fa08e6156d781713c6b252c7: ((0x2, 3), (0x3, 2), (0x5, 2), (0x97, 2), (0x15b, 2), (0x137c3b, 2), (0x14e89ecb901, 2), (0xa8c55f664384d6fe203ca16a45d7238cad2d61237ce2fa5933, 2),),
    0x23108c4e1b4108ec0ae7f9ac9f118677a6c53e44fd12fcacc07b805145240aae82349d3ce0e376778bd1: ((0x2, 3), (0xb, 2), (0x20c5, 2), (0x969d, 2), (0x4c3e1, 2), (0x12d611c157e5d505, 2),),
    0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973: ((0x2, 2), (0x3, 2), (0x7, 2), (0xd, 2), (0x3a25040f77034a519673713, 2), (0x192a43d8f8a55b860e20c52b200024fbdd5c39850b80be9fa08e6156d781713c6b252c7, 2),),
    0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff: ((0x2, 19), (0x13, 2), (0x43, 3), (0xbbeda2b007, 2), (0x23108c4e1b4108ec0ae7f9ac9f118677a6c53e44fd12fcacc07b805145240aae82349d3ce0e376778bd1, 2),),
    0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff: ((0x2, 3), (0x3, 3), (0x5, 3), (0xb, 3), (0x11, 3), (0x1f, 3), (0x29, 3), (0x35, 3), (0x83, 3), (0x9d, 3), (0x209, 2), (0x64d, 3), (0xaab, 3), (0x1fff, 3), (0xa691, 3), (0xc919, 3), (0xf0f1, 3), (0x64123, 3), (0x625a8944af99, 3),),
}
# name: (identifier, p, a, b, x and y of the base point, order), from OpenSSL's table of the published curves
STANDARD = {
    'NIST192p': ((1, 2, 840, 10045, 3, 1, 1), 0xfffffffffffffffffffffffffffffffeffffffffffffffff, 0xfffffffffffffffffffffffffffffffefffffffffffffffc, 0x64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1, 0x188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012, 0x7192b95ffc8da78631011ed6b24cdd573f977a11e794811, 0xffffffffffffffffffffffff99def836146bc9b1b4d22831),
    'NIST224p': ((1, 3, 132, 0, 33), 0xffffffffffffffffffffffffffffffff000000000000000000000001, 0xfffffffffffffffffffffffffffffffefffffffffffffffffffffffe, 0xb4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4, 0xb70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21, 0xbd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34, 0xffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d),
    'NIST256p': ((1, 2, 840, 10045, 3, 1, 7), 0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff, 0xffffffff00000001000000000000000000000000fffffffffffffffffffffffc, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b, 0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5, 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551),
    'NIST384p': ((1, 3, 132, 0, 34), 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff, 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000fffffffc, 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef, 0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7, 0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f, 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973),
    'NIST521p': ((1, 3, 132, 0, 35), 0x1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff, 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffc, 0x51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00, 0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66, 0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650, 0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409),
    'SECP256k1': ((1, 3, 132, 0, 10), 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f, 0x0, 0x7, 0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8, 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141),
}
@functools.lru_cache(None)
def prime(N):
    """N is prime, by its certificate"""
    if N < 1 << 40: return N > 1 and all(N % k for k in range(2, math.isqrt(N) + 1))
    if N not in CERT: return False
    F = 1
    for q, a in CERT[N]:
        if not prime(q) or (N - 1) % q or pow(a, N - 1, N) != 1 or math.gcd(pow(a, (N - 1) // q, N) - 1, N) != 1: return False
        k = N - 1
        while k % q == 0: k //= q; F *= q
    R = (N - 1) // F
    if F % 2 or R * F != N - 1 or math.gcd(F, R) != 1: return False
    s, r = divmod(R, 2 * F)
    if not N < (F + 1) * (2 * F * F + (r - 1) * F + 1): return False
    return s == 0 or not square(r * r - 8 * s)
def square(k): return k >= 0 and math.isqrt(k) ** 2 == k
