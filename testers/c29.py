from .wire import *
def names(cmd):
    s = cmd.strip(b'\0'); return s.decode('latin-1') if s.decode('latin-1') in MSG else None
def well(T, d, magic):
    """the documented outcome of parsing a complete frame"""
    n = int.from_bytes(d[16:20], 'little'); p = d[24:24 + n]
    if d[:4] != magic or dsha(p)[:4] != d[20:24]: return M.MsgFormatError
    if names(d[4:16]) is None: return M.UnknownMsgError
    return None
def frame_case(T, d, magic):
    w = well(T, d, magic)
    if w: T.raises(w, M.Message.parse, d, magic); return
    try: m = M.Message.parse(d, magic)
    except F.ParameterError: return
    except M.UnknownMsgError: T.ok(d[4] == 0, 'a registered command refused', d[4:16]); return
    T.ok(type(m) is getattr(M, MSG[names(d[4:16])][0]), 'type', type(m))
def cut(T, name, vs, k, magic):
    p = payload(name, vs); p2 = p[:k]; d = frame(magic, name, p2)
    if name == 'version' and k == len(p) - 1: M.Message.parse(d, magic); return
    if k < len(p): T.raises(F.ParameterError, M.Message.parse, d, magic)
    else: M.Message.parse(d, magic)
def unregistered(T, cmd, p, magic): T.raises(M.UnknownMsgError, M.Message.parse, frame(magic, cmd, p), magic)
def length(T, d):
    r = M.Message.first_msg_len(d)
    if len(d) < 20: T.ok(r is None, 'announced early', len(d), r)
    else: T.eq(r, 24 + int.from_bytes(d[16:20], 'little'), 'frame length')
def long_(T, n, magic): T.raises(M.UnknownMsgError, M.Message.parse, frame(magic, 'nosuchthing', bytes(n)), magic)
def vals(T, name): return [gen(T, t) for f, t in MSG[name][1]]
def run(T):
    R = T.rng; mg = b'\xf9\xbe\xb4\xd9'
    for h in T.hints:
        if isinstance(h.get('data'), bytes): T.case(length, h['data'])
        if isinstance(h.get('cmd'), bytes):
            for p in (b'', bytes(8), h.get('payload') or b''): T.case(frame_case, frame(mg, h['cmd'][:12], p), mg)
    for k in range(64): T.case(length, bytes(range(k))); T.case(length, b'\xff' * k); T.case(length, bytes(k))
    for c in ('filterload', 'filteradd', 'filterclear', 'merkleblock', '', 'Ping', 'PING', 'pin', 'pingx', 'versio', 'versionx', 'sendheaders', 'x' * 12, 'feefilter', 'getdataa', 'txx', 't'): T.case(unregistered, c.encode(), b'', mg); T.case(unregistered, c.encode(), bytes(100), mg)
    for c in (b'ping ', b' ping', b'ping\0x', b'pi\0ng', b'\xff', b'ping\xff'): T.case(unregistered, c, bytes(8), mg)
    for n in (1 << 16, (1 << 16) + 1, (1 << 24) + 3): T.case(long_, n, mg)
    for name in MSG:
        v = vals(T, name); d = frame(mg, name, payload(name, v))
        for i in range(4): T.case(frame_case, d[:i] + bytes([d[i] ^ 1]) + d[i + 1:], mg); T.case(frame_case, d[:20 + i] + bytes([d[20 + i] ^ 128]) + d[21 + i:], mg)
        T.case(frame_case, frame(mg, name, payload(name, v), bytes(4)), mg); T.case(frame_case, frame(mg[::-1], name, payload(name, v)), mg)
    while T.more():
        for name in MSG:
            v = vals(T, name); p = payload(name, v); d = frame(mg, name, p)
            if len(p) <= 120: ks = range(len(p) + 1)
            else: ks = sorted({0, 1, len(p) - 1, len(p) - 2, len(p)} | {R.randint(0, len(p)) for _ in range(12)})
            for k in ks: T.case(cut, name, v, k, mg)
            T.case(length, d[:R.randint(0, 40)]); T.case(length, T.bytes(0, 40))
            T.case(frame_case, frame(T.bytes(4) if R.random() < .2 else mg, name, T.bytes(0, 90)), mg)
            i = R.randrange(len(d)); T.case(frame_case, d[:i] + bytes([d[i] ^ (1 << R.randrange(8))]) + d[i + 1:], mg)
            T.case(unregistered, bytes(R.choice(b'abcdefgopinz') for _ in range(R.randint(1, 12))) + b'q' * 0 if False else R.choice((b'zz', b'foo', b'pingg', b'ver')), p, mg)
