from nbc import util as U
def version(T, a, b, c, d):
    if all(0 <= x < 100 for x in (b, c, d)):
        v = U.make_version(a, b, c, d); T.eq(v, ((a * 100 + b) * 100 + c) * 100 + d, 'make_version'); T.eq(tuple(U.get_version(v)), (a, b, c, d), 'get_version')
    else: T.raises(ValueError, U.make_version, a, b, c, d)
def target(T, bits):
    m, e = bits & 0x7fffff, bits >> 24
    t = m * 256 ** (e - 3) if e >= 3 else m // 256 ** (3 - e)
    if t < 1 << 256: T.eq(U.get_target(bits), t.to_bytes(32, 'big'), 'get_target')
class Coin(object):
    def __init__(self, work): self.work, self.asked = work, []
    def proof_of_work(self, head): self.asked.append(head); return self.work
def meets(T, off, bits, h32, nums, parsed):
    from nbc.protocol import format as F
    m, e = bits & 0x7fffff, bits >> 24
    t = m * 256 ** (e - 3) if e >= 3 else m // 256 ** (3 - e)
    if t >= 1 << 256: return
    w = h32 if off is None else min(max(t + off, 0), (1 << 256) - 1)
    o = F.BlockHeader(nums[0], bytes(range(32)), bytes(32), nums[1], bits, nums[2], nums[3]); b = o.binary(); c = Coin(w.to_bytes(32, 'little'))
    if parsed: o = F.BlockHeader.parse(b)[1]
    T.eq(U.verify_target(c, o), w <= t, 'target met'); T.eq(c.asked, [b[:80]], 'hashed'); T.eq(b[:80], __import__('struct').pack('<I32s32sIII', nums[0], bytes(range(32)), bytes(32), nums[1], bits, nums[2]), 'header')
def hexx(T, b):
    T.eq(U.bin_to_hex(b), b[::-1].hex().encode(), 'bin_to_hex'); T.eq(U.hex_to_bin(U.bin_to_hex(b)), b, 'hex_to_bin'); T.eq(U.hex_to_bin(b[::-1].hex()), b, 'hex_to_bin of str')
def run(T):
    for h in T.hints:
        if isinstance(h.get('bits'), int): T.case(target, h['bits'])
        if isinstance(h.get('x'), bytes): T.case(hexx, h['x'])
        p = [h.get(k) for k in ('major', 'minor', 'revision', 'build')]
        if all(isinstance(x, int) for x in p): T.case(version, *p)
    for x in (-1, 0, 1, 9, 10, 50, 99, 100, 101, 255, 256, -100):
        for a in (0, 1, 99, 100, 12345, 10 ** 20, -1, -7): T.case(version, a, x, 0, 0); T.case(version, a, 0, x, 99); T.case(version, a, 99, 99, x); T.case(version, a, 1, 2, x); T.case(version, a, x, x, x)
    for e in range(0, 256):
        for m in (0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff, 0x123456, 0x008000): T.case(target, e << 24 | m)
    for n in range(0, 70): T.case(hexx, bytes(n)); T.case(hexx, bytes(range(n)))
    for e in range(0, 35):
        for m in (0, 1, 0x80, 0x7fff, 0xffff, 0x7fffff, 0x800001, 0x010000):
            for off in (-1, 0, 1, -(1 << 200), 1 << 200): T.case(meets, off, e << 24 | m, 0, (1, 2, 3, 4), e & 1)
    while T.more():
        n4 = [T.below(1 << 32) for _ in range(4)]; T.case(meets, None, T.rng.randrange(34) << 24 | T.below(1 << 24), T.below(1 << T.rng.choice((256, 250, 200, 100, 8))), n4, T.rng.random() < .5); T.case(meets, T.rng.randrange(-3, 4), T.rng.randrange(34) << 24 | T.below(1 << 24), 0, n4, T.rng.random() < .5)
        T.case(version, *[T.rng.randint(-3, 300) if T.rng.random() < .5 else T.rng.randrange(100) for _ in range(4)])
        T.case(target, T.rng.randrange(36) << 24 | T.below(1 << 24)); T.case(hexx, T.bytes(0, 64))
