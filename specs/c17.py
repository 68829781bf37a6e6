"""C17: key agreement"""
from .common import *
from .ec import *
from .c12 import k_n2s
from .wif import *
from nbc.util import ecc
from nbc.util.ecdsa import util as U
def keys(it, g, name):
    c = it.c; d = c.fresh(name, 1); c.assume(s_lt(d, g.n)); g.point(d); return d
for fa in ('full', 'compressed'):
    for fb in ('full', 'compressed'):
        @unit('C17', 'the two secrets are equal (public keys %s and %s)' % (fa, fb), contracts={**WIF, U.number_to_string: k_n2s}, reach=['end'])
        def u0(it, fa=fa, fb=fb):
            c = it.c; g = secp256k1(it); a, b = keys(it, g, 'a'), keys(it, g, 'b'); it.contracts[KEY.decompress_public_key] = k_decompress(g)
            ab = s_mul(a, b); x = g.X(ab); want = be32(x)
            # the product of two numbers that are not multiples of the prime n is not a multiple of n
            c.fact(s_not(g.is_inf(ab))); c.trust('n is prime (C48)')
            for who, pub, form, sec in (('A and b', a, fa, b), ('B and a', b, fb, a)):
                k = full(g, pub) if form == 'full' else short(g, pub); pl = be32(sec)
                if c.choose(2): pl = rcat(pl, b'\x01')
                r = it.call(ecc.shared_secret, [k, wif(pl)])
                oblige_eq(it, 'the secret of %s is the x coordinate of ab G' % who, r, want)
