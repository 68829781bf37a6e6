from .net import *
def version(T, nd, ip):
    na = ('S', 'NetworkAddress', [1, 1, ('IP', bytes(10) + b'\xff\xff' + bytes(int(x) for x in ip.split('.'))), 5])
    return W.frame(nd.coin.magic, 'version', W.payload('version', [1, 1, 5, na, na, bytes(8), b'x', 0, 1]))
def session(T, ops, explicit):
    nd = node(); said = {}; ps = {}; guess = nd.external_ip
    for op in ops:
        i = op[1]
        if i not in ps: ps[i] = peer(nd, where(i))
        p, s = ps[i]
        if op[0] == 'say': s.inq.append(version(T, nd, op[2])); p.handle_read(); said[i] = op[2]
        elif op[0] == 'close': p.handle_close(); said.pop(i, None); del ps[i]; continue
        elif op[0] == 'silent': continue
        n = {a: list(said.values()).count(a) for a in said.values()}; got = nd.external_ip
        if n: T.ok(got in n and n[got] == max(n.values()), 'guessed address', got, n)
        else: T.eq(got, guess, 'guess kept')
        guess = got
        if explicit:
            nd.external_ip = '77.7.7.7'; T.eq(nd.external_ip, '77.7.7.7', 'explicit address'); nd.connected(p); T.eq(nd.external_ip, '77.7.7.7', 'explicit address'); nd.external_ip = None; T.eq(nd.external_ip, guess, 'guess again')
def run(T):
    while T.more():
        R = T.rng; ips = R.sample(['9.9.9.9', '88.1.1.1', '10.0.0.1', '127.0.0.1', '0.0.0.0', '255.255.255.255', '192.168.1.1'], R.randint(1, 3)); ops = []
        for _ in range(R.randint(1, 10)):
            k = R.choice(('say', 'say', 'say', 'silent', 'close')); i = R.randint(1, 8); ops.append((k, i, R.choice(ips)) if k == 'say' else (k, i))
        T.case(session, ops, R.random() < .3)
