"""the channel table: histories against a dictionary"""
from .net import *
def history(T, ops):
    nd = node(); base = {k: nd[k] for k in list(nd.keys())}; d = dict(base); conns = []
    for op, k, v in ops:
        if op == 'set': nd[k] = v; d[k] = v
        elif op == 'del':
            if k in d: del nd[k]; del d[k]
            else: T.raises(KeyError, nd.__delitem__, k)
        elif op == 'get': T.ok(nd.get(k) is d.get(k), 'get', k); T.ok(nd.get(k, v) is d.get(k, v), 'get with a default', k); T.ok(nd.get(k, default = v) is d.get(k, v), 'get with a default', k)
        elif op == 'sub':
            if k in d: T.ok(nd[k] is d[k], 'lookup', k)
            else: T.raises(KeyError, nd.__getitem__, k)
        elif op == 'in': T.ok((k in nd) is (k in d), 'in', k)
        elif op == 'open':
            o, _ = peer(nd, ('10.1.2.3', k)); conns.append(o); new = [x for x in nd.keys() if nd[x] is o]; T.eq(len(new), 1, 'a connection is in the table'); d[new[0]] = o
        elif op == 'close' and conns:
            o = conns.pop(0); key = [x for x in d if d[x] is o]; o.handle_close(); [d.pop(x) for x in key]
        T.eq(len(nd), len(d), 'number'); T.eq(list(nd.keys()), list(d.keys()), 'keys'); T.eq([id(x) for x in nd.values()], [id(x) for x in d.values()], 'values'); T.eq(list(iter(nd)), list(d), 'iteration')
def run(T):
    R = T.rng
    while T.more():
        keys = [R.randrange(1, 9) * 1000 for _ in range(4)]
        T.case(history, [(R.choice(('set', 'set', 'del', 'get', 'sub', 'in', 'open', 'close')), R.choice(keys), R.choice((None, 0, 'x', 7, (1, 2)))) for _ in range(R.randint(1, 14))])
