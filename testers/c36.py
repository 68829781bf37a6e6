from .net import *
def score(T, ops):
    nd = node(); p, s = peer(nd); v = 0
    for up, n in ops:
        (p.add_banscore if up else p.reduce_banscore)(n); v = v + n if up else max(0, v - n); T.eq(p.banscore, v, 'score')
class Queue(object):
    def __init__(self): self.q = []
    def accept(self): return self.q.pop(0)
    def close(self): pass
def session(T, listen, ops):
    """ops: ('punish', ip, port, n) ('come', ip, port) ('wait', seconds) ('decay', ip, port, n)"""
    nd = node(**({} if listen else dict(address=None))); t = [1000000.0]; banned = {}; peers = {}; nd.socket = Queue()
    with Clock(1000000.0) as clk:
        for op in ops:
            if op[0] == 'wait': clk.t += op[1]; continue
            if op[0] == 'come':
                s = Sock(); nd.socket.q.append((s, op[1:])); before = set(map(id, nd.values())); nd.handle_accept()
                new = [x for x in nd.values() if id(x) not in before]
                b = op[1] in banned and clk.t - banned[op[1]] < 3600
                if not b: banned.pop(op[1], None)
                if b or not listen: T.ok(s.closed > 0 and not new, 'closed without being served', s.closed, len(new))
                else: T.ok(s.closed == 0 and len(new) == 1 and new[0].address == op[1:] and new[0].incoming, 'served', s.closed, len(new))
                continue
            k = op[1:3]
            if k not in peers: p, s = peer(nd, k, True); peers[k] = [p, s, 0]
            p, s, v = peers[k]
            if op[0] == 'decay': p.reduce_banscore(op[3]); peers[k][2] = max(0, v - op[3]); continue
            for _ in range(op[3]):
                c0 = s.closed; nd.punish_peer(p); peers[k][2] += 1
                if peers[k][2] > 5: banned[k[0]] = clk.t; T.ok(s.closed > c0, 'disconnected')
                else: T.eq(s.closed, c0, 'closed')
                T.eq(p.banscore, peers[k][2], 'score')
            if peers[k][2] > 5: del peers[k]
def run(T):
    ips = ['127.0.0.1', '10.0.0.1', '0.0.0.0', '192.168.0.1', '255.255.255.255']
    for w in (0, 1, 3599, 3599.5, 3600, 3600.5, 7200):
        for n in (5, 6, 7): T.case(session, True, [('punish', ips[0], 5, n), ('wait', w), ('come', ips[0], 6), ('come', ips[0], 5), ('come', ips[1], 5)])
    while T.more():
        R = T.rng
        T.case(score, [(R.random() < .5, R.choice((0, 1, 2, 5, 100))) for _ in range(8)])
        ops = []
        for _ in range(R.randint(1, 12)):
            r = R.random(); ip = R.choice(ips); pt = R.choice((1, 2))
            ops.append(('punish', ip, pt, R.randint(1, 7)) if r < .35 else ('come', ip, pt) if r < .7 else ('wait', R.choice((1, 100, 1800, 3599, 3600, 3601))) if r < .9 else ('decay', ip, pt, R.randint(1, 3)))
        T.case(session, R.random() < .8, ops)
