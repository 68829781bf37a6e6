from nbc.wallet import Address, HDWallet
from testers.wallets import *
from testers import wallets, c22
import json
def forms(w): return [str(w), repr(w), '%s' % w, '{}'.format(w), '%r' % w, '%s' % (w,), str([w])]
def pieces(d, chain=None):
    """what would give the private key away"""
    b = b32(d); out = []
    if len(set(b)) > 15:
        h = b.hex(); out += [str(d), hex(d)[2:], str(b), str(list(b)), str(b)[2:-1]] + [h[i:i + 16] for i in range(0, 49, 4)] + [str(d)[i:i + 16] for i in range(0, len(str(d)) - 16, 5)]
    for c in (False, True): w = ref.wif(b, c).decode(); out += [w] + [w[i:i + 14] for i in range(2, len(w) - 14, 3)]
    return out
def leaks(T, what, t, d, public):
    for p in public: t = t.replace(p, '<public>')
    for p in pieces(d): T.ok(p.lower() not in t.lower(), what + ' contains the private key', p, t)
def strip(t, *subst):
    for i, s in enumerate(subst): t = t.replace(s, '<%d>' % i)
    return t.split(' at 0x')[0]
def pub_of(A): return [A.address] if isinstance(A.address, str) else [A.address.decode(), str(A.address)]
def address(T, d, e, comp, vcn, testnet):
    A, B = c22.make(d, comp, vcn, testnet, True), c22.make(e, comp, vcn, testnet, True)
    for f, g in zip(forms(A), forms(B)): leaks(T, 'the printed form', f, d, pub_of(A)); T.eq(strip(f, *pub_of(A)[::-1]), strip(g, *pub_of(B)[::-1]), 'the printed form apart from the address')
    v = c22.make(d, comp, vcn, testnet, False); c = v.dump_to_cfg(); P = G(d)
    T.eq(c['pubkey'], (ser(P) if comp else un(P)).hex(), 'saved public key'); T.ok(c['prvkey'] is None, 'saved private key'); leaks(T, 'the saved form', json.dumps(c), d, [c['pubkey']])
def hd(T, d, e, chain, depth, pfp, num, vcn, testnet):
    n, m = Node(d, None, chain, depth, pfp, num if depth else 0), Node(e, None, chain, depth, pfp, num if depth else 0); A, B, V = [wallets.make(x, vcn, testnet) for x in (n, m, n.neuter())]
    ad = lambda w: [w.address()] if isinstance(w.address(), str) else [w.address().decode(), str(w.address())]
    for f, g in zip(forms(A), forms(B)): leaks(T, 'the printed form', f, d, ad(A)); T.eq(strip(f, *ad(A)[::-1]), strip(g, *ad(B)[::-1]), 'the printed form apart from the address')
    x = A.to_extended_key(); T.eq(x, n.xkey(testnet, False), 'extended public key'); T.eq(V.to_extended_key(), x, 'that of the public part'); T.ok(b32(d) not in ref.dec58(x) or d < 1 << 64, 'the extended public key contains the private key')
    w = HDWallet.from_extended_key(x, vcn=vcn); T.eq(w.dump_to_cfg(), V.dump_to_cfg(), 'saved watch-only'); T.ok(w.dump_to_cfg()['prvkey'] is None and w.prvkey() is None, 'private key'); leaks(T, 'the saved form', json.dumps(w.dump_to_cfg()), d, [ser(n.P).hex(), chain.hex()]); T.eq(str(w), str(V), 'printed watch-only')
def run(T):
    for k, d in enumerate(EDGE):
        e = EDGE[(k + 3) % len(EDGE)]; big = [1 + T.rng.randrange(N - 1) for _ in range(2)]
        for x, y in ((d, e), big): T.case(address, x, y, k % 2 == 0, k, k % 3 == 0); T.case(hd, x, y, bytes(range(32)), (0, 1, 255)[k % 3], b'abcd', 77, k, k % 2 == 0)
    for h in T.hints:
        f = lambda n: h[n] % (N - 1) + 1 if isinstance(h.get(n), int) else 7
        for c in (False, True): T.case(address, f('secret1'), f('secret2'), c, 5, c); T.case(hd, f('secret1'), f('secret2'), bytes(32), 0, b'', 0, 5, c); T.case(hd, f('secret1'), f('secret2'), bytes(32), 4, b'abcd', 9, 5, c)
    while T.more():
        d, e = 1 + T.rng.randrange(N - 1), 1 + T.below(N - 1); n = node(T)
        if T.rng.random() < .5: T.case(address, d, e, T.rng.random() < .5, T.below(65536), T.rng.random() < .5)
        else: T.case(hd, d, e, n.chain, n.depth, n.pfp, n.num, T.below(65536), T.rng.random() < .5)
