"""Symbolic interpreter for the real Python functions of /repo.

The source text of every interpreted function is the file the imported module was loaded from
(parsed on this run); nothing is rewritten by hand.  Values are native Python values, SInt, SBool,
Rope, real instances of repository classes with symbolic attributes, or abstract objects (SObj).
"""
import ast, types, builtins, inspect, functools, dis, sys, collections, contextlib, re
from . import core
from .core import *
from .rope import *
from . import rope as R

_AST = {}
def file_index(fn):
    if fn not in _AST:
        src = open(fn).read()
        tree = ast.parse(src)
        idx = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                line = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    line = min(d.lineno for d in n.decorator_list)
                idx.setdefault(line, []).append(n)
        _AST[fn] = idx
    return _AST[fn]
def func_node(f):
    co = f.__code__
    cands = file_index(co.co_filename).get(co.co_firstlineno, [])
    if co.co_name == '<lambda>':
        cands = [n for n in cands if isinstance(n, ast.Lambda) and [a.arg for a in n.args.args] == list(co.co_varnames[:co.co_argcount])]
        if len(cands) > 1:
            pos = [p for p in co.co_positions() if p[0] is not None and p[2] is not None and p[3] is not None and p[3] > p[2]]
            lo = min((p[0], p[2]) for p in pos)
            best = [n for n in cands if (n.body.lineno, n.body.col_offset) == lo]
            cands = best or [n for n in cands if (n.lineno, n.col_offset) <= lo <= (n.end_lineno, n.end_col_offset)]
    else:
        cands = [n for n in cands if isinstance(n, ast.FunctionDef) and n.name == co.co_name]
    if len(cands) < 1: raise Unsupported('source of %s not found' % f.__qualname__)
    return cands[0]

CHANCE = {'randint', 'randrange', 'urandom', 'entropy', 'time', 'getpass', 'open', 'random', 'choice', 'shuffle', 'getrandbits', 'uuid4'}
_chancy = {}
MUTATORS = {'append', 'extend', 'insert', 'update', 'setdefault', 'pop', 'popitem', 'add', 'remove', 'discard', 'clear', 'sort', 'reverse', 'appendleft', 'popleft'}
def stateful(f, k):
    """the code k of f may change a module-level name or a container shared between calls"""
    ops = {i.opname for i in dis.get_instructions(k)}
    if 'STORE_GLOBAL' in ops or 'DELETE_GLOBAL' in ops: return True
    gl = [f.__globals__.get(n) for n in k.co_names]
    shared = any(isinstance(v, MUTABLE) or in_repo(type(v).__module__) for v in gl) or 'STORE_ATTR' in ops and any(isinstance(v, (type, types.FunctionType)) and in_repo(v.__module__) for v in gl)
    if any(isinstance(d, MUTABLE) for d in (f.__defaults__ or ())) and (MUTATORS & set(k.co_names) or 'STORE_SUBSCR' in ops): return True
    if not shared: return False
    return bool(ops & {'STORE_SUBSCR', 'DELETE_SUBSCR', 'STORE_ATTR'} or MUTATORS & set(k.co_names)) 
def chancy(f):
    """f may draw random numbers, look at the outside world or keep state between calls: never replaced by one native run"""
    if f in _chancy: return _chancy[f]
    _chancy[f] = False; todo = [f.__code__]; r = False
    while todo and not r:
        k = todo.pop()
        if CHANCE & set(k.co_names) or stateful(f, k): r = True; break
        todo += [x for x in k.co_consts if isinstance(x, types.CodeType)]
        for n in k.co_names:
            v = f.__globals__.get(n)
            if isinstance(v, types.FunctionType) and in_repo(v.__module__) and chancy(v): r = True; break
    _chancy[f] = r; return r
class SObj(object):
    """abstract object: attributes and methods given by the specification"""
    _cls = object
    def s_getattr(self, it, name): raise Unsupported('attribute %s of %r' % (name, self))
    def s_call(self, it, args, kw): raise Unsupported('call of %r' % self)
    def s_eq(self, it, o): return self is o
    def s_truth(self, it): return True
    def ckey(self): return ('sobj', id(self))
class Opaque(SObj):
    """an unknown value; whether it equals another value of its class is not known, unless it stands for an object of its own (ident)"""
    DATA = (str, bytes, int, float, bool)
    def __init__(self, key, cls=object, ident=False): self.key = key; self._cls = cls; self.ident = ident
    def ckey(self): return ('opq',) + tuple(seqkey(k) for k in self.key)
    def s_eq(self, it, o):
        if isinstance(o, Opaque):
            k = o.ckey()
            if k == self.ckey(): return True
            if self.ident or o.ident: return False
            if self._cls is not object and o._cls is not object and not self.alike(o._cls): return False
            key = ('equal', tuple(sorted((repr(k), repr(self.ckey())))))
        elif self.ident or o is None or not (isinstance(o, self.DATA + (SInt, Rope)) or is_int(o)): return False
        else:
            t = bytes if kind_of(o) == 'b' else str if kind_of(o) == 's' else float if isinstance(o, float) else int
            if self._cls is not object and not self.alike(t): return False
            key = ('equal', repr(self.ckey()), repr(o))
        if key not in it.c.memo:
            b = it.c.memo[key] = it.c.fresh_bool('equal')
            if not isinstance(o, Opaque) and isinstance(o, self.DATA):              # of two constants it equals one at most
                cs = it.c.memo.setdefault(('constants', repr(self.ckey())), [])
                for x, y in cs:
                    if x != o: it.c.fact(s_not(s_and(b, y)))
                cs.append((o, b))
        return it.c.memo[key]
    def alike(self, t):
        n = (int, float, bool); return t is self._cls or (t in n and self._cls in n)
    def s_truth(self, it):
        if self.ident or self._cls not in (str, bytes, int, float, list, tuple, dict, bool): return True
        k = ('truth of', self.ckey())
        if k not in it.c.memo: it.c.memo[k] = it.c.fresh_bool('truth')
        return it.c.memo[k]
    def __repr__(self): return 'Opaque%r' % (self.key,)
class Undef(object):
    def __init__(self, name, loop=None): self.name, self.loop = name, loop
class SIter(SObj):
    """lazy sequence of symbolic length"""
    def __init__(self, n, elem, key): self.n, self.elem, self.key = n, elem, key
    def ckey(self): return ('siter',) + tuple(seqkey(k) for k in self.key)
class SKey(object):
    """a symbolic key of a dictionary, different from the other keys on this path"""
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
class Splat(SObj):
    """the rest of the positional arguments: a sequence of symbolic length (only as the last argument)"""
    def __init__(self, rope): self.rope = rope
    def ckey(self): return ('splat', seqkey(self.rope))
class SFilter(SObj):
    """the elements of a symbolic sequence that satisfy a condition"""
    def __init__(self, n, elem, cond, key=()): self.n, self.elem, self.cond, self.key = n, elem, cond, key
    def s_truth(self, it): return it.exists(self.n, self.cond, key=self.key)
SKIP = type('Skip', (), {})()             # an element a filter leaves out
class Closure(object):
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name
    def ckey(self): return ('clo', id(self.node))
class BMethod(object):
    """method of a modelled value"""
    def __init__(self, obj, name): self.obj, self.name = obj, name
class PMethod(object):
    """python function bound to a receiver"""
    def __init__(self, func, recv): self.func, self.recv = func, recv
class Frame(object):
    def __init__(self, globs, parent, clsname, fname, cls=None):
        self.l = {}; self.g = globs; self.parent = parent; self.clsname = clsname; self.fname = fname; self.cls = cls
        self.nonlocals = set(); self.globals_ = set()
def is_generator(node):
    if not isinstance(node, ast.FunctionDef): return False
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): todo += ast.iter_child_nodes(n)
    return False
class Ret(object):
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
BRK, CONT = 'brk', 'cont'
class RestartUnit(BaseException): pass

REPO = 'nbc'
KEEPS = (type, isinstance, issubclass, id, callable, hasattr, getattr, setattr, len, bool)
MUTABLE = (dict, list, set, bytearray, collections.deque)
def shared_ids(allowed=()):
    """the mutable objects that outlive a call: reachable from the modules, classes and functions of the repository"""
    out = set(); seen = set()
    def visit(v, d):
        if id(v) in seen or d > 5: return
        seen.add(id(v))
        if isinstance(v, MUTABLE):
            out.add(id(v))
            for x in (list(v.values()) if isinstance(v, dict) else v if not isinstance(v, bytearray) else ()): visit(x, d + 1)
        elif isinstance(v, (tuple, frozenset)):
            for x in v: visit(x, d + 1)
        elif isinstance(v, type):
            if in_repo(v.__module__):
                for x in list(vars(v).values()): visit(x, d + 1)
        elif isinstance(v, (staticmethod, classmethod)): visit(v.__func__, d + 1)
        elif isinstance(v, property):
            for x in (v.fget, v.fset, v.fdel): visit(x, d + 1)
        elif isinstance(v, types.FunctionType):
            if in_repo(v.__module__):
                for x in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()) + list(vars(v).values()): visit(x, d + 1)
                for c in v.__closure__ or ():
                    try: visit(c.cell_contents, d + 1)
                    except ValueError: pass
        elif in_repo(type(v).__module__):
            out.add(id(v))
            for x in list(getattr(v, '__dict__', {}).values()): visit(x, d + 1)
    for n, m in list(sys.modules.items()):
        if in_repo(n) and n not in allowed and m is not None:
            for x in list(vars(m).values()): visit(x, 0)
    return out
def in_repo(m): return bool(m) and (m == REPO or m.startswith(REPO + '.'))
PURE_NATIVE_TYPES = (int, float, complex, bool, str, bytes, bytearray, type(None), range, slice, type, types.FunctionType,
                     types.BuiltinFunctionType, types.ModuleType, types.MethodType, staticmethod)
def concrete_deep(v, depth=0):
    if isinstance(v, (SInt, SBool, Rope, SObj, Undef, Closure, BMethod, PMethod, SKey)): return False
    if isinstance(v, PURE_NATIVE_TYPES): return True
    if depth > 6: return False
    if isinstance(v, (list, tuple, set, frozenset)): return all(concrete_deep(x, depth + 1) for x in v)
    if isinstance(v, dict): return all(concrete_deep(k, depth + 1) and concrete_deep(x, depth + 1) for k, x in v.items())
    d = getattr(v, '__dict__', None)
    if d is not None and in_repo(type(v).__module__): return all(concrete_deep(x, depth + 1) for x in d.values())
    return True

class LoopSpec(object):
    """invariant of a loop, over roles.
    roles: list of (role, kind); kind is an object with  fresh(it, name) -> value,  view(it, v) -> data or None
    inv(it, g, pos): list of (name, SBool) ; g maps role -> view data; roles may be missing from g (optional ones)
    """
    def __init__(self, name, roles, inv, optional=(), hint=None, at_exit=None, assume=None, at_body=None, guard=None, variant=None, ghost=False):
        self.variant = variant; self.ghost = ghost      # ghost: count the iterations of a while loop as pos
        self.name, self.roles, self.inv, self.optional = name, roles, inv, set(optional)
        self.hint = hint or {}; self.at_exit = at_exit; self.assume_ = assume; self.at_body = at_body; self.guard = guard

class Interp(object):
    def __init__(self, ctx, unit):
        self.c = ctx; self.unit = unit
        self.contracts = {}          # function object -> handler
        self.alloc = {}; self.keep = []; self.nalloc = 0
        self.shared = unit.shared_ids
        self.writes = []             # stack of write logs
        self.loop_stack = []; self.turns = []              # loops under way: frame and the names they assign
        self.depth = 0
        self.steps = 0
        self.covered = set()

    # ------------------------------------------------------------ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Closure): return self.call_closure(f, args, kw)
        if isinstance(f, BMethod):
            if not isinstance(f.obj, (list, dict, set)) and not (isinstance(f.obj, Rope) and f.obj.kind == 'l'): args = [still(x) for x in args]
            return self.model_method(f.obj, f.name, args, kw)
        if isinstance(f, PMethod): return self.call(f.func, [f.recv] + args, kw)
        if isinstance(f, types.MethodType): return self.call(f.__func__, [f.__self__] + args, kw)
        if isinstance(f, SObj): return f.s_call(self, args, kw)
        if isinstance(f, functools.partial): return self.call(f.func, list(f.args) + args, dict(f.keywords, **kw))
        try: h = self.contracts.get(f)
        except TypeError: h = None
        if h is not None: return h(self, [still(x) for x in args], {k: still(v) for k, v in kw.items()})
        if isinstance(f, functools._lru_cache_wrapper) and in_repo(f.__module__):
            g = f.__wrapped__; data = (int, str, bytes, type(None), SInt, SBool)
            ok = lambda v: isinstance(v, data) or isinstance(v, Rope) and v.kind in 'bs' or type(v) is tuple and all(ok(x) for x in v)
            if not all(ok(x) for x in args) or kw or chancy(g): raise Unsupported('a cache over %r' % g)
            r = self.call(g, args)
            if not ok(r): raise Unsupported('a cache of %r' % (r,))
            return r
        if isinstance(f, types.FunctionType):
            if in_repo(f.__module__) or f in self.unit.inline:
                if concrete_deep(args) and concrete_deep(kw) and concrete_deep(f) and self.native_ok(f, args):
                    return self.native(f, args, kw)
                return self.call_body(f, args, kw)
        m = MODELS.get(f) if _hashable(f) else None
        if m is not None: return m(self, args if f in KEEPS else [still(x) for x in args], kw)
        if isinstance(f, type):
            if issubclass(f, BaseException):
                e = f.__new__(f)
                try: e.args = tuple(args)
                except Exception: pass
                return e
            if in_repo(f.__module__): return self.instantiate(f, args, kw)
        # a callable instance of a repository class
        if in_repo(type(f).__module__) and hasattr(type(f), '__call__') and not isinstance(f, type):
            return self.call(type(f).__call__, [f] + args, kw)
        if getattr(f, '__self__', None) is not None and id(f.__self__) in self.shared: raise Unsupported('use of the shared state %r' % (f,))
        if concrete_deep(args) and concrete_deep(kw): return self.native(f, args, kw)
        if isinstance(f, (types.BuiltinFunctionType, types.MethodWrapperType)) and getattr(f, '__self__', None) is not None \
           and not isinstance(f.__self__, types.ModuleType):
            return self.model_method(f.__self__, f.__name__, args, kw)
        if isinstance(f, types.MethodDescriptorType) and args:
            return self.model_method(args[0], f.__name__, args[1:], kw)
        raise Unsupported('call of %r' % (f,))
    def native_ok(self, f, args):
        # objects of the repository are mutable: run natively only on plain data
        return all(not in_repo(type(a).__module__) or isinstance(a, type) or type(a).__name__ in self.unit.frozen for a in args) and not chancy(f)
    def native(self, f, args, kw):
        try: return f(*args, **kw)
        except (Unsupported, PathEnd, ProgExc, RestartUnit): raise
        except (KeyboardInterrupt, SystemExit): raise
        except Exception as e: raise ProgExc(e)
    def instantiate(self, cls, args, kw):
        obj = cls.__new__(cls)
        self.note_alloc(obj)
        init = None
        for k in cls.__mro__:
            if '__init__' in k.__dict__: init = k.__dict__['__init__']; break
        if init is not None and isinstance(init, types.FunctionType):
            self.call(init, [obj] + list(args), kw)
        elif args or kw: raise ProgExc(TypeError('%s() takes no arguments' % cls.__name__))
        return obj
    def note_alloc(self, o):
        self.nalloc += 1; self.alloc[id(o)] = self.nalloc; self.keep.append(o); return o
    def call_closure(self, f, args, kw):
        fr = Frame(f.frame.g, f.frame, f.frame.clsname, f.name, f.frame.cls)
        self.bind(f.node.args, f.defaults, f.kwdefaults, args, kw, fr, f.name)
        return self.run(f.node, fr)
    def call_body(self, f, args, kw=None):
        node = func_node(f)
        q = f.__qualname__.split('.')
        clsname = q[-2] if len(q) >= 2 and q[-2] != '<locals>' else None
        fr = Frame(f.__globals__, None, clsname, f.__qualname__)
        a = node.args.posonlyargs + node.args.args; fr.first = a[0].arg if a else None
        if f.__closure__:
            fr.parent = Frame(f.__globals__, None, clsname, '<closure>')
            for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                try: fr.parent.l[n] = cell.cell_contents
                except ValueError: pass
        self.covered.add(f.__module__ + '.' + f.__qualname__)
        self.bind(node.args, list(f.__defaults__ or ()), f.__kwdefaults__ or {}, list(args), kw or {}, fr, f.__name__)
        return self.run(node, fr)
    def bind(self, a, defaults, kwdefaults, args, kw, fr, name):
        ps = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw); more = None
        if args and isinstance(args[-1], Splat):
            more, args = args[-1].rope, args[:-1]
            if not a.vararg or len(args) < len(ps): raise Unsupported('arguments of symbolic number')
        for i, p in enumerate(ps):
            if i < len(args):
                if p in kw: raise ProgExc(TypeError('%s() got multiple values for argument %r' % (name, p)))
                fr.l[p] = args[i]
            elif p in kw: fr.l[p] = kw.pop(p)
            else:
                j = i - (len(ps) - len(defaults))
                if j < 0: raise ProgExc(TypeError('%s() missing argument %r' % (name, p)))
                fr.l[p] = defaults[j]
        if a.vararg: fr.l[a.vararg.arg] = tuple(args[len(ps):]) if more is None else rcat(tuple(args[len(ps):]), norm('t', segs_of(more)))
        elif len(args) > len(ps): raise ProgExc(TypeError('%s() takes %d arguments' % (name, len(ps))))
        for p in a.kwonlyargs:
            if p.arg in kw: fr.l[p.arg] = kw.pop(p.arg)
            elif p.arg in kwdefaults: fr.l[p.arg] = kwdefaults[p.arg]
            else: raise ProgExc(TypeError('missing keyword argument'))
        if a.kwarg: fr.l[a.kwarg.arg] = kw
        elif kw: raise ProgExc(TypeError('%s() got an unexpected keyword argument %r' % (name, sorted(kw)[0])))
    def run(self, node, fr):
        self.depth += 1
        if self.depth > 60: raise Unsupported('call depth')
        try:
            if isinstance(node, ast.Lambda): return self.ev(node.body, fr)
            if 'yield' not in self.c.extra and is_generator(node):      # run to its end: the values it yields
                fr.l['$yield'] = self.note_alloc([])
                try: self.block(node.body, fr)
                except ProgExc:
                    if isinstance(fr.l['$yield'], list) and not fr.l['$yield']: raise
                    raise Unsupported('a generator that fails after its first value')
                return fr.l['$yield']
            r = self.block(node.body, fr)
            return r.v if isinstance(r, Ret) else None
        finally: self.depth -= 1

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            r = self.stmt(s, fr)
            if r is not None: return r
        return None
    def stmt(self, s, fr):
        self.steps += 1
        if self.steps > self.unit.max_steps: raise Unsupported('too many steps')
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr)
    def st_Expr(self, s, fr): self.ev(s.value, fr)
    def st_Pass(self, s, fr): pass
    def st_Return(self, s, fr): return Ret(self.ev(s.value, fr) if s.value else None)
    def st_Break(self, s, fr): return BRK
    def st_Continue(self, s, fr): return CONT
    def st_Global(self, s, fr): fr.globals_.update(s.names)
    def st_Nonlocal(self, s, fr): fr.nonlocals.update(s.names)
    def st_Import(self, s, fr):
        for a in s.names:
            m = __import__(a.name)
            if a.asname:
                for p in a.name.split('.')[1:]: m = getattr(m, p)
            fr.l[a.asname or a.name.split('.')[0]] = m
    def st_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.g.get('__package__') or fr.g['__name__'].rpartition('.')[0]
        m = importlib.import_module('.' * s.level + (s.module or ''), pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            v = getattr(m, a.name, None)
            if v is None: v = importlib.import_module('.' + a.name, m.__name__)
            fr.l[a.asname or a.name] = v
    def st_FunctionDef(self, s, fr):
        if s.decorator_list: raise Unsupported('a decorated inner function')
        fr.l[s.name] = Closure(s, fr, [self.ev(d, fr) for d in s.args.defaults],
            {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}, s.name)
    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)
    def st_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
    def st_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name): cur = self.name(t.id, fr); put = lambda v: self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr); a = self.mangle(t.attr, fr)
            cur = self.getattr(o, a); put = lambda v: self.setattr(o, a, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr); i = self.index(t.slice, fr)
            cur = self.getitem(o, i); put = lambda v: self.setitem(o, i, v)
        else: raise Unsupported('augassign')
        rhs = self.ev(s.value, fr)
        if isinstance(cur, list) and isinstance(s.op, ast.Add) and not isinstance(rhs, Rope):
            self.log_write(cur, '[]'); cur.extend(self.to_list(rhs)); put(cur); return
        if isinstance(cur, BA) and isinstance(s.op, ast.Add):
            rhs = still(rhs)
            if kind_of(rhs) != 'b': raise ProgExc(TypeError("can't concat to bytearray"))
            self.model_method(cur, 'extend', [rhs], {}); put(cur); return
        put(self.binop(type(s.op).__name__, cur, rhs))
    def st_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for case in s.cases:
            got = {}
            if not self.matches(case.pattern, v, fr, got): continue
            for n, x in got.items(): fr.l[n] = x
            if case.guard is None or self.truth(self.ev(case.guard, fr)): return self.block(case.body, fr)
        return None
    def matches(self, p, v, fr, got):
        if isinstance(p, ast.MatchValue): return self.truth(self.eq(v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton): return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchOr): return any(self.matches(q, v, fr, got) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, fr, got): return False
            if p.name is not None: got[p.name] = v
            return True
        if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            if kind_of(v) not in ('l', 't'): 
                if isinstance(v, SObj): raise Unsupported('match of a sequence')
                return False
            if not self.truth(s_eq(rlen(v), len(p.patterns))): return False
            return all(self.matches(q, self.getitem(v, i), fr, got) for i, q in enumerate(p.patterns))
        raise Unsupported('pattern %s' % type(p).__name__)
    def st_If(self, s, fr):
        return self.block(s.body if self.truth(self.ev(s.test, fr)) else s.orelse, fr)
    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)): raise ProgExc(AssertionError())
    def st_Raise(self, s, fr):
        if s.exc is None:
            if getattr(self, 'cur_exc', None): raise ProgExc(self.cur_exc[-1])
            raise Unsupported('bare raise')
        e = self.ev(s.exc, fr)
        if isinstance(e, type): e = self.call(e, [])
        if not isinstance(e, BaseException): raise Unsupported('raise %r' % (e,))
        raise ProgExc(e)
    def st_Try(self, s, fr):
        def inner():
            try:
                r = self.block(s.body, fr)
            except ProgExc as pe:
                for h in s.handlers:
                    if h.type is None: ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ok = isinstance(pe.exc, t)
                    if ok:
                        if h.name: fr.l[h.name] = pe.exc
                        if not hasattr(self, 'cur_exc'): self.cur_exc = []
                        self.cur_exc.append(pe.exc)
                        try: return self.block(h.body, fr)
                        finally:
                            self.cur_exc.pop()
                            if h.name: fr.l.pop(h.name, None)
                raise
            if r is None and s.orelse: return self.block(s.orelse, fr)
            return r
        if not s.finalbody: return inner()
        try: r = inner()
        except ProgExc:
            r2 = self.block(s.finalbody, fr)
            if r2 is not None: return r2
            raise
        r2 = self.block(s.finalbody, fr)
        return r2 if r2 is not None else r
    def st_With(self, s, fr):
        exits = []
        for i in s.items:
            m = self.ev(i.context_expr, fr)
            v = self.call(self.getattr(m, '__enter__'), [])
            if i.optional_vars is not None: self.assign(i.optional_vars, v, fr)
            exits.append(m)
        try: r = self.block(s.body, fr)
        except ProgExc:
            for m in reversed(exits): self.call(self.getattr(m, '__exit__'), [None, None, None])
            raise
        for m in reversed(exits): self.call(self.getattr(m, '__exit__'), [None, None, None])
        return r
    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.l.pop(t.id, None)
            elif isinstance(t, ast.Subscript): self.delitem(self.ev(t.value, fr), self.index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr); self.log_write(o, t.attr); delattr(o, self.mangle(t.attr, fr))
            else: raise Unsupported('del')
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                if fr.g.get('__name__') not in self.unit.shared: raise Unsupported('a write to the module-level name %s' % t.id)
                fr.g[t.id] = v; return
            if t.id in fr.nonlocals:
                p = fr.parent
                while p is not None and t.id not in p.l: p = p.parent
                p.l[t.id] = v; return
            fr.l[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.to_list(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]; k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1: raise ProgExc(ValueError('not enough values to unpack'))
                vs = vs[:i] + [vs[i:len(vs) - k]] + vs[len(vs) - k:]
                for x, y in zip(t.elts, vs): self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            if len(vs) != len(t.elts): raise ProgExc(ValueError('wrong number of values to unpack'))
            for x, y in zip(t.elts, vs): self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), self.mangle(t.attr, fr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        else: raise Unsupported('assignment target')
    def log_write(self, o, attr):
        if id(o) in self.shared and id(o) not in self.alloc: raise Unsupported('a write to state shared between calls: %s of a %s' % (attr, type(o).__name__))
        for w in self.writes: w.append((o, attr))

    # ------------------------------------------------------------ loops
    def st_While(self, s, fr):
        return self.loop(s, fr, None)
    def st_For(self, s, fr):
        it = self.ev(s.iter, fr)
        return self.loop(s, fr, it)
    def iter_of(self, it):
        """(n, elem) view of an iterable; explicit list when the length is concrete"""
        if isinstance(it, SIter):
            n = self.c.concrete(it.n)
            if n is not None and n <= self.unit.unroll: return [it.elem(i) for i in range(n)]
            return it
        if isinstance(it, Rope):
            if is_explicit(it) : 
                n = rlen(it)
                if n <= self.unit.unroll: return self.to_list(it)
            n = self.c.concrete(rlen(it))
            if n is not None and n <= self.unit.unroll:
                return [rindex(it, i) for i in range(n)]
            if it.kind == 's': return SIter(rlen(it), lambda i: rindex(it, i), ('rope', it))
            return SIter(rlen(it), lambda i: rindex(it, i), ('rope', it))
        return self.to_list(it)
    def loop(self, s, fr, it):
        isfor = it is not None
        if isinstance(it, SFilter):
            f = it; it = seq = SIter(f.n, lambda i: f.elem(i) if self.truth(f.cond(i)) else SKIP, f.key)
        seq = self.iter_of(it) if isfor else None
        far = seq
        if isinstance(it, range) and len(it) > self.unit.unroll and self.unit.loops:
            far = SIter(len(it), lambda i: s_add(it.start, s_mul(i, it.step)), ('range', it.start, it.stop, it.step))
        r = self.try_specs(s, fr, far)
        if r is not None: return r[0]
        if isfor:
            if isinstance(seq, SIter): raise Unsupported('loop over a symbolic sequence needs an invariant (%s line %d)' % (fr.fname, s.lineno))
            for v in seq:
                if v is SKIP: continue
                self.assign(s.target, v, fr)
                r = self.block(s.body, fr)
                if r is BRK: return None
                if isinstance(r, Ret): return r
            return self.block(s.orelse, fr) if s.orelse else None
        n = forks = 0
        while True:
            before = len(self.c.trace)
            if not self.truth(self.ev(s.test, fr)):
                return self.block(s.orelse, fr) if s.orelse else None
            if len(self.c.trace) > before: forks += 1
            n += 1
            if forks > self.unit.max_forks or n > self.unit.unroll:
                raise Unsupported('loop needs an invariant (%s line %d)' % (fr.fname, s.lineno))
            r = self.block(s.body, fr)
            if r is BRK: return None
            if isinstance(r, Ret): return r
    def loop_lvalues(self, s, fr):
        names, attrs = [], []; self.rebound = rebound = set()
        def store(t, content=False):
            if isinstance(t, ast.Name):
                if t.id not in names: names.append(t.id)
                if not content: rebound.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts: store(x)
            elif isinstance(t, ast.Starred): store(t.value)
            elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                k = (t.value.id, self.mangle(t.attr, fr))
                if k not in attrs: attrs.append(k)
                if not content: rebound.add(k)
            elif isinstance(t, ast.Subscript): store(t.value, True)
        body = list(s.body) + ([ast.Expr(s.test)] if isinstance(s, ast.While) else [])
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Assign):
                    for t in n.targets: store(t)
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): store(n.target)
                elif isinstance(n, ast.For): store(n.target)
                elif isinstance(n, ast.NamedExpr): store(n.target)
                elif isinstance(n, (ast.Yield, ast.YieldFrom)) and '$yield' in fr.l: store(ast.Name(id='$yield', ctx=ast.Store()), True)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: store(ast.Name(id=n.name, ctx=ast.Store()))
                elif isinstance(n, ast.Delete):
                    for t in n.targets: store(t)
                elif isinstance(n, ast.withitem):
                    if n.optional_vars is not None: store(n.optional_vars)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                     n.func.attr in ('append', 'insert', 'extend', 'pop', 'reverse', 'sort', 'update', 'add', 'remove', 'clear', 'setdefault'):
                    store(n.func.value, True)
        tn = []
        if isinstance(s, ast.For):
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name): tn.append(n.id)
        return names, attrs, tn
    def called_attrs(self, s, fr):
        """(name, attribute) pairs that methods called by the loop on an object at hand assign"""
        out, seen = [], set()
        def calls(nodes, root, me, o):
            for st in nodes:
                for n in ast.walk(st):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                        x = n.func.value.id
                        if me is None:
                            p = fr.l.get(x)
                            if p is not None: method(p, x, n.func.attr)
                        elif x == me: method(o, root, n.func.attr)
        def method(o, root, m):
            if isinstance(o, (SObj, Rope, type, types.ModuleType)) or not in_repo(type(o).__module__): return
            f = getattr(type(o), m, None)
            if not isinstance(f, types.FunctionType) or f in self.contracts or (root, f) in seen: return
            seen.add((root, f))
            try: node = func_node(f)
            except Unsupported: return
            if not node.args.args: return
            me = node.args.args[0].arg; cls = f.__qualname__.rsplit('.', 2)[-2] if '.' in f.__qualname__ else ''
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    a = '_%s%s' % (cls.lstrip('_'), n.attr) if n.attr.startswith('__') and not n.attr.endswith('__') else n.attr
                    if (root, a) not in out: out.append((root, a))
            calls(node.body, root, me, o)
        calls(list(s.body) + ([s.test] if isinstance(s, ast.While) else []), None, None, None)
        for st in list(s.body) + ([s.test] if isinstance(s, ast.While) else []):    # functions defined beside the loop
            for n in ast.walk(st):
                f = fr.l.get(n.func.id) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) else None
                if not isinstance(f, Closure) or f.frame is not fr or not isinstance(f.node, ast.FunctionDef): continue
                inner = ast.For(target=ast.Name(id='$none', ctx=ast.Store()), iter=ast.Constant(None), body=list(f.node.body), orelse=[])
                keep = self.rebound; names, attrs, tn = self.loop_lvalues(inner, fr); self.rebound = keep
                out += [x for x in attrs if x not in out and x[0] not in [a.arg for a in f.node.args.args]]
        return out
    def lv_get(self, lv, fr):
        if lv[0] == 'n':
            f = fr
            return f.l.get(lv[1], Undef(lv[1]))
        o = lv[1]
        return o.__dict__.get(lv[2], Undef(lv[2])) if not isinstance(o, SObj) else self.getattr(o, lv[2])
    def lv_set(self, lv, v, fr):
        if lv[0] == 'n': fr.l[lv[1]] = v
        else: self.setattr(lv[1], lv[2], v)
    def try_specs(self, s, fr, seq):
        specs = self.unit.loops
        if not specs: return None
        if seq is not None and not isinstance(seq, SIter) and not self.unit.spec_concrete_for: return None
        key = (fr.g.get('__file__'), s.lineno, s.col_offset)
        self.cur_seq = seq.key[1] if isinstance(seq, SIter) and seq.key[0] == 'rope' else None
        if self.cur_seq is None and isinstance(seq, SIter): self.cur_seq = self.under(seq, fr)
        cur_seq = self.cur_seq; cur_count = self.cur_count = seq.n if isinstance(seq, SIter) else None
        names, attrs, tn = self.loop_lvalues(s, fr)
        rebound = self.rebound
        # an abstract object that is only written into keeps its identity; its state is in loop_lvs
        lvs = [('n', n) for n in names if n not in tn and not (n not in rebound and isinstance(fr.l.get(n), SObj))]
        for (root, a) in attrs:
            o = fr.l.get(root)
            if o is None:
                try: o = self.name(root, fr)
                except ProgExc: continue
            if (root, a) not in rebound and not isinstance(o, SObj) and isinstance(getattr(o, '__dict__', {}).get(a), SObj): continue
            if not isinstance(o, (type, types.ModuleType)): lvs.append(('a', o, a))
        for (root, a) in self.unit.frames.get(key, ()):
            o = self.root(root, fr)
            if not any(l[0] == 'a' and l[1] is o and l[2] == a for l in lvs): lvs.append(('a', o, a))
        for (o, a) in self.c.extra.get('loop_lvs', ()): lvs.append(('a', o, a))      # state of abstract objects
        lvname = lambda l: l[1] if l[0] == 'n' else '.' + l[2]
        entry = {i: self.lv_get(l, fr) for i, l in enumerate(lvs)}
        c = self.c
        pos0 = 0 if seq is not None else None
        n = seq.n if isinstance(seq, SIter) else len(seq) if seq is not None else None
        # options: (spec, binding role -> lvalue index)
        if key not in self.unit.angel:
            opts = []
            for spec in specs:
                if spec.guard and not spec.guard(self, seq, s): continue
                for b in self.bindings(spec, lvs, entry, lvname):
                    g = {r: v for r, (i, v) in b.items()}
                    if not self.inv_ok(spec, g, 0 if spec.ghost else pos0, n): continue
                    opts.append((specs.index(spec), tuple(sorted((r, lvname(lvs[i])) for r, (i, v) in b.items()))))
                    if len(opts) > 24: break
            if not opts:
                more = [x for x in self.called_attrs(s, fr) if x not in self.unit.frames.get(key, ())]
                if more: self.unit.frames.setdefault(key, []).extend(more); return self.try_specs(s, fr, seq)
            if seq is None or not isinstance(seq, SIter): opts.append(None)
            if not opts: opts = [None]
            self.unit.angel[key] = [opts, 0]; self.unit.angel_order.append(key); self.unit.inside[key] = tuple(self.loop_stack)
        opts, idx = self.unit.angel[key]
        opt = opts[idx]
        if opt is None: return None
        spec = specs[opt[0]]
        byname = {lvname(l): i for i, l in enumerate(lvs)}
        bind = {}
        kinds = dict(spec.roles)
        if spec.ghost: pos0 = 0
        for r, nm in opt[1]:
            i = byname[nm]
            d = kinds[r].view(self, still(entry[i]))
            if d is None:
                c.oblige_by('loop %s: initial value of %s' % (spec.name, r), False, 'shape', 'unexpected shape'); raise PathEnd()
            bind[r] = (i, d)
        g0 = {r: d for r, (i, d) in bind.items()}
        self.unit.g0 = g0
        # peel: what the loop leaves behind is looked at: a for loop ends with its last iteration, a while loop is rotated
        peel = key in self.unit.peel
        if peel and seq is None and not self.truth(self.ev(s.test, fr)): return (self.block(s.orelse, fr) if s.orelse else None,)
        for nm, b in self.eval_inv(spec, g0, pos0, n):
            if not c.oblige('loop %s: %s holds initially' % (spec.name, nm), b): raise PathEnd()
        # havoc
        pos = None
        if seq is not None:
            pos = c.fresh('pos_' + spec.name, 0, None, record=False)
            c.fact(s_le(pos, n))
        elif spec.ghost: pos = c.fresh('pos_' + spec.name, 0, None, record=False)
        forks0 = len(c.trace)
        g = {}; roleof = {i: r for r, (i, d) in bind.items()}; head = {}
        for i, l in enumerate(lvs):
            if i in roleof:
                r = roleof[i]
                v = kinds[r].fresh_at(self, r, pos) if hasattr(kinds[r], 'fresh_at') else kinds[r].fresh(self, r)
                g[r] = kinds[r].view(self, v)
                if isinstance(entry[i], BA): v = BA(segs_of(v))
                self.lv_set(l, v, fr); head[i] = v
            else: self.lv_set(l, Undef(lvname(l), key), fr)
        try:
            for nm, b in self.eval_inv(spec, g, pos, n): c.assume(b)
            for lm in (spec.assume_(self, g, pos) if spec.assume_ else ()): c.assume(lm)
        except PathEnd:
            if len(c.trace) > forks0: raise             # this case is excluded, others are looked at on paths of their own
            raise Unsupported('invariant of loop %s excludes every state' % spec.name)
        # one arbitrary iteration
        wlog = []; seq0 = self.nalloc
        turns = set(names) | set(tn) | {n.name for st in s.body for n in ast.walk(st) if isinstance(n, (ast.FunctionDef, ast.ExceptHandler)) and n.name}
        def check_frame():
            for (o, a) in wlog:
                if self.alloc.get(id(o), 0) > seq0: continue
                if any(l[0] == 'a' and l[1] is o and (l[2] == a) for l in lvs): continue
                if a == '[]' and any(self.lv_get(l, fr) is o or entry[i] is o for i, l in enumerate(lvs)): continue
                if a == '[]' and any(h is o and self.alloc.get(id(entry[i]), 0) > 0 for i, h in head.items()): continue
                root = self.find_root(o, fr)
                if root is not None and a != '[]':
                    fl = self.unit.frames.setdefault(key, [])
                    if (root, a) not in fl:
                        fl.append((root, a)); raise RestartUnit()
                raise Unsupported('loop %s writes outside its frame (%r.%s)' % (spec.name, type(o).__name__, a))
        self.writes.append(wlog); self.turns.append((fr, turns)); self.loop_stack.append(key)
        try:
            if seq is not None:
                more = c.decide(s_lt(pos, n), 'loop')
                skip = False
                if more:
                    v = seq.elem(pos) if isinstance(seq, SIter) else self.elem_at(seq, pos)
                    skip = v is SKIP
                    if not skip: self.assign(s.target, v, fr)
            else: more, skip = peel or self.truth(self.ev(s.test, fr)), False
            if more:
                c.reach('loop %s body' % spec.name)
                if spec.at_body: spec.at_body(self, g, pos)
                r = self.block(s.body, fr) if not skip else None
                check_frame()
                if isinstance(r, Ret): return (r,)
                if r is BRK: return (None,)
                last = peel and seq is None and not self.truth(self.ev(s.test, fr))
                if last and not spec.at_exit: c.reach('loop %s exit' % spec.name); return (self.block(s.orelse, fr) if s.orelse else None,)
                g2 = {}
                for r_, (i, d) in bind.items():
                    v = self.lv_get(lvs[i], fr)
                    d2 = None if isinstance(v, Undef) else kinds[r_].view(self, still(v))
                    if d2 is None:
                        c.oblige_by('loop %s: %s preserved (shape)' % (spec.name, r_), False, 'shape', 'value %r' % (v,)); raise PathEnd()
                    g2[r_] = d2
                pos2 = s_add(pos, 1) if pos is not None else None
                if spec.variant:
                    v1, v2 = spec.variant(self, g), spec.variant(self, g2)
                    c.oblige('loop %s: terminates' % spec.name, s_and(s_le(0, v1), s_lt(v2, v1)))
                self.unit.gprev = g; self.cur_seq, self.cur_count = cur_seq, cur_count
                for nm, b in self.eval_inv(spec, g2, pos2, n):
                    if not c.oblige('loop %s: %s preserved' % (spec.name, nm), b): raise PathEnd()
                if not last and (not peel or seq is None or not c.choose(2)): raise PathEnd()
                if seq is not None: c.assume(s_eq(pos2, n))
                g, pos = g2, pos2
            elif peel and seq is not None:
                c.assume(s_eq(n, 0)); g = g0
                for i, l in enumerate(lvs):
                    if not isinstance(entry[i], Undef): self.lv_set(l, entry[i], fr)
                    elif l[0] == 'n': fr.l.pop(l[1], None)
            check_frame()
        finally: self.writes.pop(); self.turns.pop(); self.loop_stack.pop()
        c.reach('loop %s exit' % spec.name)
        self.loop_frame = fr
        self.cur_count = cur_count
        if spec.at_exit: spec.at_exit(self, g, pos)
        # values of variables assigned by the loop but not covered by the invariant stay undefined
        r = self.block(s.orelse, fr) if s.orelse else None
        return (r,)
    @contextlib.contextmanager
    def later(self, f):
        """a closure runs at any later time: what the loops under way, or a comprehension, assign has moved on"""
        todo = [(fr, set(ns)) for fr, ns in self.turns]; fr = f.frame if isinstance(f, Closure) else None
        while fr is not None:
            if getattr(fr, 'comp', False): todo.append((fr, set(fr.l)))
            fr = fr.parent
        saved = [(fr, dict(fr.l)) for fr, ns in todo]
        for fr, ns in todo:
            for n in ns:
                if n in fr.l: fr.l[n] = Undef(n)
        try: yield
        finally:
            for fr, l in reversed(saved): fr.l.clear(); fr.l.update(l)
    def elem_at(self, seq, pos): raise Unsupported('symbolic position in explicit sequence')
    def find_root(self, o, fr):
        for k, v in fr.l.items():
            if v is o: return k
        for k, v in fr.l.items():
            d = getattr(v, '__dict__', None)
            if d and not isinstance(v, (type, types.ModuleType)):
                for a, w in d.items():
                    if w is o: return k + '.' + a
        return None
    def root(self, path, fr):
        p = path.split('.', 1)
        o = fr.l[p[0]]
        return o if len(p) == 1 else o.__dict__[p[1]]
    def eval_inv(self, spec, g, pos, n):
        r = spec.inv(self, g, pos) if spec.inv else []
        r = [('%s is as specified' % k, kd.check(self, g[k], pos)) for k, kd in spec.roles if hasattr(kd, 'check') and k in g] + list(r)
        return [(x if isinstance(x, tuple) else ('invariant %d' % k, x)) for k, x in enumerate(r)]
    def inv_ok(self, spec, g, pos, n):
        try: return all(self.c.entails(b, 2000) for nm, b in self.eval_inv(spec, g, pos, n))
        except (KeyError, AttributeError, TypeError, Unsupported): return False
    def bindings(self, spec, lvs, entry, lvname):
        roles = list(spec.roles)
        out = []
        def rec(k, used, acc):
            if len(out) > 200: return
            if k == len(roles): out.append(dict(acc)); return
            r, kind = roles[k]
            cand = []
            for i, l in enumerate(lvs):
                if i in used or isinstance(entry[i], Undef): continue
                d = kind.view(self, still(entry[i]))
                if d is None: continue
                nm = lvname(l).lstrip('.')
                cand.append((0 if nm == r or nm in spec.hint.get(r, ()) else 1, i, d))
            cand.sort(key=lambda x: x[:2])
            for _, i, d in cand: rec(k + 1, used | {i}, acc + [(r, (i, d))])
            if r in spec.optional: rec(k + 1, used, acc)
        rec(0, frozenset(), [])
        out.sort(key=lambda b: len(spec.roles) - len(b))
        return out

    # ------------------------------------------------------------ names and attributes
    def mangle(self, n, fr):
        if n.startswith('__') and not n.endswith('__') and fr.clsname:
            return '_%s%s' % (fr.clsname.lstrip('_'), n)
        return n
    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.l:
                v = f.l[n]
                if isinstance(v, Undef): self.unit.undefs.add(v.loop); raise Unsupported('read of %s after a loop that does not constrain it' % n)
                return v
            f = f.parent
        if n in fr.g: return fr.g[n]
        if hasattr(builtins, n): return getattr(builtins, n)
        raise ProgExc(NameError(n))
    def getattr(self, o, a):
        if isinstance(o, SObj): return o.s_getattr(self, a)
        if isinstance(o, (Rope, bytes, str, bytearray, list, tuple, dict, set, frozenset)) and type(o).__module__ in ('builtins', 'pyvc.rope'):
            if not hasattr(o if not isinstance(o, Rope) else bytearray() if isinstance(o, BA) else NAT[o.kind](), a): raise ProgExc(AttributeError(a))
            return BMethod(o, a)
        if isinstance(o, (SInt, SBool)):
            if a in ('__iter__',): raise ProgExc(AttributeError(a))
            return BMethod(o, a)
        if isinstance(o, types.ModuleType):
            try: return getattr(o, a)
            except AttributeError as e: raise ProgExc(e)
        if isinstance(o, type) or isinstance(o, super):
            try: return getattr(o, a)
            except AttributeError as e: raise ProgExc(e)
        if isinstance(o, (Closure, PMethod, BMethod)): raise ProgExc(AttributeError(a))
        cls = type(o)
        d = getattr(o, '__dict__', {})
        for k in cls.__mro__:
            if a in k.__dict__:
                v = k.__dict__[a]
                if isinstance(v, property): return self.call(v.fget, [o])
                if a in d: break
                if isinstance(v, types.FunctionType): return PMethod(v, o)
                if isinstance(v, classmethod): return PMethod(v.__func__, cls)
                if isinstance(v, staticmethod): return v.__func__
                if isinstance(v, (types.GetSetDescriptorType, types.MemberDescriptorType)): break
                if isinstance(v, (types.WrapperDescriptorType, types.MethodDescriptorType)): break
                return v
        if a in d:
            v = d[a]
            if isinstance(v, Undef): self.unit.undefs.add(v.loop); raise Unsupported('read of .%s after a loop that does not constrain it' % a)
            return v
        try: return getattr(o, a)
        except AttributeError as e: raise ProgExc(e)
    def setattr(self, o, a, v):
        if isinstance(o, SObj):
            self.log_write(o, a)
            return o.s_setattr(self, a, v)
        for k in type(o).__mro__:
            p = k.__dict__.get(a)
            if isinstance(p, property):
                if p.fset is None: raise ProgExc(AttributeError("can't set attribute"))
                return self.call(p.fset, [o, v])
        if isinstance(o, (type, types.ModuleType, types.FunctionType)): raise Unsupported('write to class or module attribute %s' % a)
        self.log_write(o, a)
        o.__dict__[a] = v
    # ------------------------------------------------------------ subscripts
    def index(self, n, fr):
        if isinstance(n, ast.Slice):
            e = lambda x: None if x is None else self.ev(x, fr)
            return slice(e(n.lower), e(n.upper), e(n.step))
        return self.ev(n, fr)
    def getitem(self, o, i):
        if isinstance(o, SObj): return o.s_getitem(self, i)
        if isinstance(o, (Rope, bytes, str, list, tuple, bytearray)):
            if isinstance(i, slice):
                if isinstance(i.step, int) and i.step > 1 and isinstance(o, Rope) and o.kind in 'lt' and not is_explicit(o):
                    v = rslice(o, i.start, i.stop); n = s_divmod(s_add(rlen(v), i.step - 1), i.step)[0]
                    return SIter(n, lambda k: rindex(v, s_mul(i.step, k)), ('stride', v, i.step))
                return rslice(o, i.start, i.stop, i.step)
            if hasattr(i, 's_lookup') and isinstance(o, (list, tuple)): return i.s_lookup(self, o)
            if isinstance(i, (SBool, bool)): i = 1 if self.truth(i) else 0
            if isinstance(o, (list, tuple)) and isinstance(i, SInt):
                k = self.c.concrete(i)
                if k is not None: i = k
                elif len(o) and all(isinstance(x, int) for x in o): return self.table(o, i)
            return rindex(o, i)
        if isinstance(o, dict):
            found, v = self.dict_find(o, i)
            if not found: raise ProgExc(KeyError(i if not isinstance(i, (Rope, SInt)) else 'symbolic'))
            return v
        if isinstance(o, type): return o[i]
        m = getattr(type(o), '__getitem__', None)
        if isinstance(m, types.FunctionType): return self.call(m, [o, i])
        if concrete_deep(i): return self.native(lambda: o[i], [], {})
        raise Unsupported('subscript of %r' % type(o))
    def table(self, o, i):
        """constant table lookup at a symbolic index"""
        c = self.c
        if c.decide(s_lt(i, 0), 'index'): i = s_add(i, len(o))
        if not c.decide(s_and(s_le(0, i), s_lt(i, len(o))), 'index'): raise ProgExc(IndexError('list index out of range'))
        a, new = c.atom2(('tab', tuple(o), i), 'tab')
        if new:
            for k, v in enumerate(o): c.fact(s_implies(s_eq(i, k), s_eq(a, v)))
        return a
    def dict_find(self, d, k):
        f, kk = self.dict_key(d, k)
        return (True, d[kk]) if f else (False, None)
    def dict_key(self, d, k):
        """the key of d that equals k"""
        if isinstance(k, (Rope, SInt, SBool)) or (isinstance(k, tuple) and not concrete_deep(k)):
            for kk in d:
                u = kk.k if type(kk) is SKey else kk
                if kind_of(u) != kind_of(k) and isinstance(k, Rope): continue
                if self.truth(self.eq(u, k)): return True, kk
            return False, None
        if isinstance(k, SObj):
            for kk in d:
                if self.truth(self.eq(kk.k if type(kk) is SKey else kk, k)): return True, kk
            return False, None
        try: hit = k in d
        except TypeError as e: raise ProgExc(e)
        if hit: return True, k
        for kk in d:      # symbolic keys present
            if type(kk) is SKey or not concrete_deep(kk):
                if self.truth(self.eq(kk.k if type(kk) is SKey else kk, k)): return True, kk
        return False, None
    def dict_put(self, d, k, v):
        if concrete_deep(k) and not any(type(x) is SKey for x in d): d[k] = v; return
        if not (isinstance(k, (int, str, bytes, SInt, Rope)) or isinstance(k, tuple)) or isinstance(k, Rope) and k.kind not in 'bs': raise Unsupported('symbolic dict key')
        f, kk = self.dict_key(d, k)
        d[kk if f else k if concrete_deep(k) else SKey(k)] = v
    def setitem(self, o, i, v):
        if not getattr(o, 's_logs', False): self.log_write(o, '[]')
        if isinstance(o, SObj): return o.s_setitem(self, i, v)
        if isinstance(o, dict):
            self.dict_put(o, i, v); return
        if isinstance(o, BA):
            if isinstance(i, slice):
                if i.step is not None: raise Unsupported('slice store')
                n = rlen(o); lo = clamp(i.start, n, 0); hi = clamp(i.stop, n, n); v = still(v)
                if self.c.decide(s_lt(hi, lo), 'slice'): hi = lo
                if kind_of(v) != 'b': v = self.call(bytes, [v])
                r = rcat(rslice(still(o), 0, lo), v, rslice(still(o), hi, None))
            else:
                self.call(bytes, [[v]])
                r = Rope('l', list(o.segs)); self.note_alloc(r); self.setitem(r, i, v)
            o.segs = list(segs_of(norm('b', list(segs_of(r))))); o._key = None
            return
        if isinstance(o, list):
            if isinstance(i, slice) and i.step is None and all(x is None or isinstance(x, int) for x in (i.start, i.stop)) and kind_of(v) is not None and is_explicit(v):
                o[i] = self.to_list(v); return
            if isinstance(i, SInt):
                k = self.c.concrete(i)
                if k is None: raise Unsupported('store at symbolic index')
                i = k
            if isinstance(i, slice): return self.splice(o, i, v)
            try: o[i] = v
            except IndexError as e: raise ProgExc(e)
            return
        if isinstance(o, Rope) and o.kind == 'l' and isinstance(i, slice): return self.splice(o, i, v)
        if isinstance(o, Rope) and o.kind == 'l' and is_int(i):
            n = rlen(o); j = i
            if self.c.decide(s_lt(i, 0), 'store'): j = s_add(i, n)
            if not self.c.decide(s_and(s_le(0, j), s_lt(j, n)), 'store'): raise ProgExc(IndexError('list assignment index out of range'))
            if o.segs[-1][0] == 'L' and same(s_add(j, 1), n): a, b = o.segs[:-1] + [('L', o.segs[-1][1][:-1])], []
            else: a, b = split(o.segs, j); _, b = split(nonempty(b), 1)
            r = norm('l', list(a) + [('L', (v,))] + list(b)); o.segs = list(segs_of(r)); o._key = None
            return
        m = getattr(type(o), '__setitem__', None)
        if isinstance(m, types.FunctionType): return self.call(m, [o, i, v])
        raise Unsupported('item store on %r' % type(o))
    def splice(self, o, i, v):
        """o[a:b] = v on a list"""
        if i.step is not None: raise Unsupported('slice store')
        if kind_of(v) is None: v = self.to_list(v)
        x = Rope('l', list(segs_of(o))); n = rlen(x); lo = clamp(i.start, n, 0); hi = clamp(i.stop, n, n)
        if self.c.decide(s_lt(hi, lo), 'slice'): hi = lo
        r = rcat(rslice(x, 0, lo), norm('l', segs_of(v)), rslice(x, hi, None))
        if isinstance(o, Rope): o.segs = list(segs_of(r)); o._key = None
        elif is_explicit(r): o[:] = self.to_list(r)
        else: raise Unsupported('slice store')
    def delitem(self, o, i):
        if not getattr(o, 's_logs', False): self.log_write(o, '[]')
        if isinstance(o, SObj): return o.s_delitem(self, i)
        if isinstance(o, dict):
            f, k = self.dict_key(o, i)
            if not f: raise ProgExc(KeyError(i))
            del o[k]; return
        if isinstance(o, list) and concrete_deep(i):
            try: del o[i]
            except Exception as e: raise ProgExc(e)
            return
        if isinstance(o, (list, Rope)) and kind_of(o) == 'l':
            if isinstance(i, slice): return self.splice(o, i, [])
            if is_int(i):
                self.getitem(o, i)
                if self.c.decide(s_lt(i, 0), 'index'): i = s_add(i, rlen(o))
                return self.splice(o, slice(i, s_add(i, 1), None), [])
        m = getattr(type(o), '__delitem__', None)
        if isinstance(m, types.FunctionType): return self.call(m, [o, i])
        raise Unsupported('del item')

    # ------------------------------------------------------------ truth, equality, operators
    def truth(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, SBool): return self.c.decide(v)
        if isinstance(v, SInt): return not self.c.decide(s_eq(v, 0), 'truth')
        if isinstance(v, Rope): return not self.c.decide(s_eq(rlen(v), 0), 'truth')
        if isinstance(v, SObj):
            t = v.s_truth(self)
            return self.truth(t) if not isinstance(t, bool) else t
        if isinstance(v, (Closure, PMethod, BMethod)): return True
        if in_repo(type(v).__module__) and not isinstance(v, type):
            for k in type(v).__mro__:
                for nm in ('__bool__', '__len__'):
                    if nm in k.__dict__: return self.truth(self.call(k.__dict__[nm], [v]))
            return True
        return bool(v)
    def eq(self, a, b):
        """a == b as a (symbolic) boolean"""
        if a is b and not isinstance(a, float): return True
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)): return s_iff(a, b)
            if is_int(a) or is_int(b):
                x, y = (a, b) if isinstance(a, SBool) else (b, a)
                return s_iff(x, s_eq(y, 1)) if not isinstance(y, (SInt,)) else s_or(s_and(x, s_eq(y, 1)), s_and(s_not(x), s_eq(y, 0)))
            return False
        if is_int(a) and is_int(b): return s_eq(a, b)
        if isinstance(a, SObj): return a.s_eq(self, b)
        if isinstance(b, SObj): return b.s_eq(self, a)
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb: return req(a, b, self.eq)
        for x, y in ((a, b), (b, a)):
            if in_repo(type(x).__module__) and not isinstance(x, type):
                for k in type(x).__mro__:
                    m = k.__dict__.get('__eq__')
                    if isinstance(m, types.FunctionType):
                        r = self.call(m, [x, y])
                        if r is not NotImplemented: return r
                        break
        if concrete_deep(a) and concrete_deep(b):
            return bool(a == b)
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b): return False
            return s_and(*[self.eqb(a[k], b[k]) for k in a])
        if isinstance(a, (SInt, Rope)) or isinstance(b, (SInt, Rope)): return False
        return a is b
    def eqb(self, a, b):
        r = self.eq(a, b)
        return r if isinstance(r, (bool, SBool)) else self.truth(r)
    def ev(self, n, fr):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fr)
    def ex_Constant(self, n, fr): return n.value
    def ex_Name(self, n, fr): return self.name(n.id, fr)
    def ex_Attribute(self, n, fr): return self.getattr(self.ev(n.value, fr), self.mangle(n.attr, fr))
    def ex_Subscript(self, n, fr): return self.getitem(self.ev(n.value, fr), self.index(n.slice, fr))
    def ex_Tuple(self, n, fr): return tuple(self.elts(n.elts, fr))
    def ex_List(self, n, fr): return self.note_alloc(self.elts(n.elts, fr))
    def ex_Set(self, n, fr): return set(self.elts(n.elts, fr))
    def elts(self, es, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred): out += self.to_list(self.ev(e.value, fr))
            else: out.append(self.ev(e, fr))
        return out
    def ex_Dict(self, n, fr):
        d = self.note_alloc({})
        for k, v in zip(n.keys, n.values):
            if k is None: d.update(self.ev(v, fr)); continue
            kk = self.ev(k, fr); d[kk] = self.ev(v, fr)
        return d
    def ex_Lambda(self, n, fr): return Closure(n, fr, [self.ev(d, fr) for d in n.args.defaults], {}, '<lambda>')
    def ex_IfExp(self, n, fr): return self.ev(n.body if self.truth(self.ev(n.test, fr)) else n.orelse, fr)
    def ex_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr); self.assign(n.target, v, fr); return v
    def ex_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x, fr)
            if i == len(n.values) - 1: return v
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, SBool) else False
            if not isand and t: return v if not isinstance(v, SBool) else True
        return v
    def ex_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            if isinstance(v, (bool, SBool)): return s_not(v)
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if hasattr(type(v), '__neg__') and in_repo(type(v).__module__): return self.call(type(v).__neg__, [v])
            return -v
        if isinstance(n.op, ast.Invert): return s_add(-v, -1) if isinstance(v, SInt) else ~v
        if isinstance(n.op, ast.UAdd): return v
        raise Unsupported('unary')
    def ex_Compare(self, n, fr):
        l = self.ev(n.left, fr); res = True
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            r = self.ev(r, fr)
            b = self.compare(type(op).__name__, l, r)
            if k == len(n.ops) - 1:
                if res is True: return b
                return s_and(res, b) if isinstance(b, (bool, SBool)) else b
            if not isinstance(b, (bool, SBool)): b = self.truth(b)
            res = s_and(res, b)
            if res is False: return False
            l = r
        return res
    def compare(self, op, l, r):
        if op == 'Is': return self.is_(l, r)
        if op == 'IsNot': return s_not(self.is_(l, r))
        if op == 'Eq': return self.eq(l, r)
        if op == 'NotEq':
            e = self.eq(l, r)
            return s_not(e) if isinstance(e, (bool, SBool)) else not self.truth(e)
        if op == 'In': return self.contains(r, l)
        if op == 'NotIn':
            e = self.contains(r, l)
            return s_not(e) if isinstance(e, (bool, SBool)) else not self.truth(e)
        if isinstance(l, SBool): l = 1 if self.truth(l) else 0
        if isinstance(r, SBool): r = 1 if self.truth(r) else 0
        if is_int(l) and is_int(r):
            return {'Lt': s_lt(l, r), 'LtE': s_le(l, r), 'Gt': s_lt(r, l), 'GtE': s_le(r, l)}[op]
        for x in (l, r):
            if isinstance(x, SObj) and hasattr(x, 's_cmp'): return x.s_cmp(self, op, l, r)
        if concrete_deep(l) and concrete_deep(r):
            f = {'Lt': lambda: l < r, 'LtE': lambda: l <= r, 'Gt': lambda: l > r, 'GtE': lambda: l >= r}[op]
            return self.native(f, [], {})
        if l is None or r is None: raise ProgExc(TypeError('unorderable'))
        if kind_of(l) == kind_of(r) == 'b' and self.c.quick(s_eq(rlen(l), rlen(r))):       # the order of bytes of one length is that of their big-endian values
            x, y = val(l), val(r)
            if x is not None and y is not None: return self.compare(op, x, y)
        if isinstance(l, tuple) and isinstance(r, tuple): return self.tuple_cmp(op, l, r)
        raise Unsupported('comparison %s of %r and %r' % (op, type(l), type(r)))
    def tuple_cmp(self, op, l, r):
        for a, b in zip(l, r):
            if self.truth(self.eq(a, b)): continue
            return self.compare(op.replace('E', ''), a, b)
        return {'Lt': len(l) < len(r), 'LtE': len(l) <= len(r), 'Gt': len(l) > len(r), 'GtE': len(l) >= len(r)}[op]
    def is_(self, l, r):
        if l is r: return True
        if isinstance(l, (SInt, SBool, Rope, SObj)) or isinstance(r, (SInt, SBool, Rope, SObj)):
            if l is None or r is None: 
                x = r if l is None else l
                if isinstance(x, SObj) and hasattr(x, 's_isnone'): return x.s_isnone(self)
                return False
            if isinstance(l, SBool) and isinstance(r, bool): return l if r else s_not(l)
            if isinstance(r, SBool) and isinstance(l, bool): return r if l else s_not(r)
            if isinstance(l, (type, types.FunctionType)) or isinstance(r, (type, types.FunctionType)): return False
            if isinstance(l, bool) or isinstance(r, bool): return False
            raise Unsupported('identity of symbolic values')
        return l is r
    def plain(self, b):
        """a truth value without taking sides"""
        if isinstance(b, (bool, SBool)): return b
        if b is None or isinstance(b, (int, str, bytes, list, tuple, dict)): return bool(b)
        raise Unsupported('condition on an arbitrary element')
    def parts(self, key):
        """the rope whose elements a lazy sequence is made of"""
        return key[1] if key and key[0] == 'rope' else self.parts(key[1].key) if key and key[0] == 'map' and isinstance(key[1], SIter) else None
    def exists(self, n, pred, again=False, key=()):
        """whether one of n elements satisfies pred: an element the specification names does, or an arbitrary one does not"""
        c = self.c; u = self.parts(key)
        if u is not None and u.kind in 'lt' and len(u.segs) > 1:
            at = 0
            for g in u.segs:
                m = R.seglen(g); base = at; at = s_add(at, m)
                if g[0] == 'L':
                    if any(self.truth(pred(s_add(base, j))) for j in range(len(g[1]))): return True
                elif self.exists(m, lambda i: pred(s_add(base, i)), again): return True
            return False
        for w in c.extra.get('witnesses', ()):
            if c.quick(s_and(s_le(0, w), s_lt(w, n))):
                p = pred(w)
                if p is True or (isinstance(p, SBool) and c.quick(p)): return True
        if not c.decide(s_lt(0, n)): return False
        i = c.fresh('any', 0, record=False); c.fact(s_lt(i, n)); p = pred(i)
        if p is False or (isinstance(p, SBool) and c.quick(s_not(p))): return False
        case = c.extra.get('exists_case')
        if case is not None and not again: case(self); return self.exists(n, pred, True)
        raise Unsupported('whether an element of a symbolic sequence satisfies a condition')
    def contains(self, s, x):
        if isinstance(s, SFilter): return self.exists(s.n, lambda i: s_and(s.cond(i), self.plain(self.eqb(s.elem(i), x))), key=s.key)
        if isinstance(s, SIter): return self.exists(s.n, lambda i: self.plain(self.eqb(s.elem(i), x)), key=s.key)
        if isinstance(s, SObj): return s.s_contains(self, x)
        if isinstance(s, dict): return self.dict_find(s, x)[0]
        if isinstance(s, (bytes, str)) and concrete_deep(x):
            try: return x in s
            except TypeError as e: raise ProgExc(e)
        if isinstance(s, Rope) and s.kind in 'bs' and (kind_of(x) == s.kind):
            raise Unsupported('substring test')
        if isinstance(s, bytes) and isinstance(x, SInt):
            return s_or(*[s_eq(x, k) for k in sorted(set(s))])
        if isinstance(s, (set, frozenset)) and concrete_deep(x) and concrete_deep(s): return x in s
        for k in type(s).__mro__ if in_repo(type(s).__module__) else ():
            if '__contains__' in k.__dict__: return self.call(k.__dict__['__contains__'], [s, x])
        if x is None and isinstance(s, Rope) and s.kind in 'lt' and all(g[0] in 'AL' for g in s.segs):   # elements of abstract lists are values
            return any(e is None for g in s.segs if g[0] == 'L' for e in g[1])
        if isinstance(s, Rope) and len(s.segs) == 1 and s.segs[0][0] == 'A' and hasattr(s.segs[0][1], 'member') and same(s.segs[0][2], 0) and same(s.segs[0][3], s.segs[0][1].n): return s.segs[0][1].member(self, x)
        if isinstance(s, Rope) and not is_explicit(s): raise Unsupported('membership in a symbolic sequence')
        if isinstance(s, range):
            if isinstance(x, SInt): 
                if s.step == 1: return s_and(s_le(s.start, x), s_lt(x, s.stop))
            else: return x in s
        return s_or(*[self.eqb(e, x) if not (e is x) else True for e in self.to_list(s)])
    OPN = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'FloorDiv': '__floordiv__', 'Mod': '__mod__',
           'Pow': '__pow__', 'LShift': '__lshift__', 'RShift': '__rshift__', 'BitAnd': '__and__', 'BitOr': '__or__', 'BitXor': '__xor__', 'Div': '__truediv__'}
    def ex_BinOp(self, n, fr):
        l = self.ev(n.left, fr); r = self.ev(n.right, fr)
        return self.binop(type(n.op).__name__, l, r)
    def binop(self, op, l, r):
        if isinstance(l, SBool): l = 1 if self.truth(l) else 0
        if isinstance(r, SBool): r = 1 if self.truth(r) else 0
        for x in (l, r):
            if isinstance(x, SObj) and hasattr(x, 's_binop'):
                v = x.s_binop(self, op, l, r)
                if v is not NotImplemented: return v
        if is_int(l) and is_int(r):
            return self.intop(op, l, r)
        mn = self.OPN[op]
        if in_repo(type(l).__module__) and not isinstance(l, type):
            m = getattr(type(l), mn, None)
            if isinstance(m, types.FunctionType):
                v = self.call(m, [l, r])
                if v is not NotImplemented: return v
        if in_repo(type(r).__module__) and not isinstance(r, type):
            m = getattr(type(r), '__r' + mn[2:], None)
            if isinstance(m, types.FunctionType):
                v = self.call(m, [r, l])
                if v is not NotImplemented: return v
        kl, kr = kind_of(l), kind_of(r)
        if op == 'Mod' and kl in ('b', 's'): return fmt(self, l, r)
        if op == 'Add' and kl and kr: 
            v = rcat(l, r)
            if isinstance(v, list): self.note_alloc(v)
            return v
        if op == 'Mult' and kl and is_int(r): return rrep(l, r)
        if op == 'Mult' and kr and is_int(l): return rrep(r, l)
        if concrete_deep(l) and concrete_deep(r):
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
                 'Mod': operator.mod, 'Pow': operator.pow, 'BitOr': operator.or_, 'BitAnd': operator.and_, 'BitXor': operator.xor,
                 'LShift': operator.lshift, 'RShift': operator.rshift}[op]
            return self.native(f, [l, r], {})
        if (kl or kr or l is None or r is None): raise ProgExc(TypeError('unsupported operand types for %s' % op))
        raise Unsupported('operator %s on %r and %r' % (op, type(l), type(r)))
    def intop(self, op, l, r):
        if op == 'Add': return s_add(l, r)
        if op == 'Sub': return s_add(l, -r)
        if op == 'Mult': return s_mul(l, r)
        if op == 'FloorDiv': return s_divmod(l, r)[0]
        if op == 'Mod': return s_divmod(l, r)[1]
        if op == 'Pow':
            if isinstance(r, int):
                if isinstance(l, int): return l ** r
                if 0 <= r <= 16: return s_pow(l, r)
            elif isinstance(l, int) and l >= 2:
                if self.c.decide(s_le(0, r)): return POW(l, r)
            raise Unsupported('power')
        if isinstance(l, int) and isinstance(r, int):
            import operator
            return self.native({'LShift': operator.lshift, 'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_,
                                'BitXor': operator.xor, 'Div': operator.truediv}[op], [l, r], {})
        if op in ('LShift', 'RShift') and isinstance(l, int) and self.c.quick(s_and(s_le(0, r), s_le(r, 8))):
            for k in range(9):
                if self.c.decide(s_eq(r, k)): return l << k if op == 'LShift' else l >> k
            raise PathEnd()
        if op == 'LShift': return s_shl(l, r)
        if op == 'RShift': return s_shr(l, r)
        if op == 'BitAnd': return s_band(l, r)
        if op == 'BitOr': return s_bor(l, r)
        if op == 'BitXor': return s_bxor(l, r)
        raise Unsupported('integer operator %s' % op)
    def ex_JoinedStr(self, n, fr):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant): out = rcat(out, v.value)
            else:
                x = self.ev(v.value, fr)
                spec = self.ev(v.format_spec, fr) if v.format_spec else ''
                if v.conversion != -1: x = self.call({115: str, 114: repr}.get(v.conversion, ascii), [x])
                out = rcat(out, self.format(x, spec))
        return out
    def format(self, x, spec):
        if isinstance(spec, Rope): 
            s = spec.segs        # '0' + width + 'x'
            if kind_of(spec) == 's' and s[0] == ('L', (48,)) and s[-1] == ('L', (120,)): return fmt(self, rcat('%', spec), (x,))
            raise Unsupported('format spec')
        if concrete_deep(x): return self.native(format, [x, spec], {})
        if isinstance(x, SBool): x = self.truth(x)
        if isinstance(x, bool): return self.native(format, [x, spec], {})
        if is_int(x):
            if spec == '': spec = 'd'
            if re.fullmatch(r'(0[0-9]*)?[xXd]', spec): return fmt(self, '%' + spec, (x,))
            if re.fullmatch(r'0?[0-9]*b', spec):
                w = int(spec[:-1].lstrip('0') or 0)
                if w and spec[0] != '0' or not self.c.decide(s_le(0, x)): raise Unsupported('format spec')
                if w and self.c.decide(s_lt(x, 2 ** w)): return mk_pos(2, 'dec', x, w, kind='s')
                return mk_pos(2, 'dec', x, ndigits(2, x), kind='s')
            raise Unsupported('format spec')
        if spec == '': return fmt(self, '%s', (x,))
        raise Unsupported('format spec')
    def under(self, seq, fr):
        """the sequence a loop goes through, seen through enumerate, map, reversed or a range over its positions"""
        if isinstance(seq, Rope): return seq
        if not isinstance(seq, SIter): return None
        k = seq.key
        if k[0] == 'rope': return k[1]
        if k[0] in ('map', 'enum'): return self.under(k[1], fr)
        if k[0] == 'rev':
            u = self.under(k[1], fr); return rreverse(u) if u is not None else None
        if k[0] == 'range' and fr is not None and k[3] in (1, -1):
            for v in list(fr.l.values()):
                v = still(v)
                if isinstance(v, Rope) and v.kind in 'bslt' and same(rlen(v), seq.n):
                    if k[3] == 1 and same(k[1], 0): return v
                    if k[3] == -1 and same(k[2], -1): return rreverse(v)
        return None
    def fold(self, f, src, init, what):
        """acc = init; for x in src: acc = f(acc, x)"""
        node = what.node if isinstance(what, Closure) else None
        line, col = (node.lineno, node.col_offset) if node is not None else (0, abs(hash(getattr(what, '__qualname__', str(what)))) % 10 ** 6)
        nm = lambda i, c: ast.Name(id=i, ctx=c)
        loop = ast.For(target=nm('$x', ast.Store()), iter=nm('$it', ast.Load()), orelse=[],
                       body=[ast.Assign(targets=[nm('acc', ast.Store())], value=ast.Call(func=nm('$f', ast.Load()), args=[nm('acc', ast.Load()), nm('$x', ast.Load())], keywords=[]))])
        for n in ast.walk(loop): n.lineno = n.end_lineno = -1 - line; n.col_offset = n.end_col_offset = col
        class Step(SObj):
            def s_call(s, it, a, kw): return f(*a)
        fr = Frame(self.unit_globals(what), None, None, 'fold')
        fr.l['acc'] = init; fr.l['$f'] = Step()
        r = self.loop(loop, fr, src)
        return fr.l['acc']
    def unit_globals(self, what):
        if isinstance(what, Closure): return what.frame.g
        return getattr(what, '__globals__', {'__file__': 'fold', '__name__': 'fold'})
    # comprehensions
    def comp(self, n, fr, emit):
        fr2 = Frame(fr.g, fr, fr.clsname, fr.fname, fr.cls)
        def rec(k):
            if k == len(n.generators): emit(fr2); return
            g = n.generators[k]
            seq = self.iter_of(self.ev(g.iter, fr2 if k else fr))
            if isinstance(seq, SIter):
                raise Unsupported('comprehension over a symbolic sequence')
            for v in seq:
                self.assign(g.target, v, fr2)
                if all(self.truth(self.ev(c, fr2)) for c in g.ifs): rec(k + 1)
        rec(0)
    def ex_ListComp(self, n, fr):
        lazy = self.lazy_comp(n, fr)
        if lazy is not None: return lazy
        out = []
        self.comp(n, fr, lambda f: out.append(self.ev(n.elt, f)))
        return self.note_alloc(out)
    def short(self, what, n, fr):
        """any, all, next of a generator expression: elements are produced until the answer is known"""
        e = n.args[0]; g = e.generators[0]; src = self.ev(g.iter, fr); seq = self.iter_of(src)
        if not isinstance(seq, SIter):
            fr2 = Frame(fr.g, fr, fr.clsname, fr.fname, fr.cls)
            for v in seq:
                self.assign(g.target, v, fr2)
                if not all(self.truth(self.ev(c, fr2)) for c in g.ifs): continue
                x = self.ev(e.elt, fr2)
                if what == 'next': return x
                if self.truth(x) is (what == 'any'): return what == 'any'
            if what != 'next': return what == 'all'
        else:
            lazy = self.lazy_comp(e, fr, src)
            if what != 'next': return self.call({'any': any, 'all': all}[what], [lazy], {})
            nm = lambda i, c: ast.Name(id=i, ctx=c)
            loop = ast.For(target=nm('$x', ast.Store()), iter=nm('$it', ast.Load()), orelse=[], body=[ast.Return(value=nm('$x', ast.Load()))])
            for m in ast.walk(loop): m.lineno = m.end_lineno = -1 - n.lineno; m.col_offset = m.end_col_offset = n.col_offset
            r = self.loop(loop, Frame(fr.g, fr, fr.clsname, fr.fname, fr.cls), lazy)
            if isinstance(r, Ret): return r.v
        if len(n.args) > 1: return self.ev(n.args[1], fr)
        raise ProgExc(StopIteration())
    def lazy_comp(self, n, fr, src=None):
        """[e(x) for x in symbolic sequence] -> the unit's comprehension rule, or a lazy map"""
        if len(n.generators) != 1: return None
        g = n.generators[0]
        if src is None: src = self.ev(g.iter, fr)
        seq = self.iter_of(src)
        if not isinstance(seq, SIter):
            # already evaluated: avoid evaluating twice
            out = []
            fr2 = Frame(fr.g, fr, fr.clsname, fr.fname, fr.cls)
            for v in seq:
                self.assign(g.target, v, fr2)
                if all(self.truth(self.ev(c, fr2)) for c in g.ifs): out.append(self.ev(n.elt, fr2))
            return self.note_alloc(out)
        if g.ifs:
            def item(i):
                fr2 = Frame(fr.g, fr, fr.clsname, fr.fname, fr.cls); self.assign(g.target, seq.elem(i), fr2); return fr2
            return SFilter(seq.n, lambda i: self.ev(n.elt, item(i)), lambda i: s_and(*[self.plain(self.ev(c, item(i))) for c in g.ifs]), seq.key)
        def elem(i):
            fr2 = Frame(fr.g, fr, fr.clsname, fr.fname, fr.cls)
            self.assign(g.target, seq.elem(i), fr2); fr2.comp = True
            return self.ev(n.elt, fr2)
        if self.unit.comp_rule:
            r = self.unit.comp_rule(self, src, seq, elem)
            if r is not None:
                if isinstance(r, Rope): r = Rope(r.kind, list(r.segs)); self.note_alloc(r)
                return r
        r = elementwise(seq, elem)
        if isinstance(r, list): return self.note_alloc(r)
        if r is not None and kind_of(r) == 'l':
            r = Rope(r.kind, list(segs_of(r))); self.note_alloc(r); return r
        return SIter(seq.n, elem, ('map', seq, id(n)))
    def ex_GeneratorExp(self, n, fr): return self.ex_ListComp(n, fr)
    def ex_SetComp(self, n, fr):
        lazy = self.lazy_comp(n, fr)
        if lazy is not None:
            if not isinstance(lazy, list): return lazy
            if not concrete_deep(lazy): raise Unsupported('symbolic set')
            return set(lazy)
        out = []
        self.comp(n, fr, lambda f: out.append(self.ev(n.elt, f)))
        if not concrete_deep(out): raise Unsupported('symbolic set')
        return set(out)
    def ex_DictComp(self, n, fr):
        out = {}
        def e(f): k = self.ev(n.key, f); out[k] = self.ev(n.value, f)
        self.comp(n, fr, e)
        return out
    def ex_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fr
            while f is not None and 'first' not in f.__dict__: f = f.parent if f.fname == fr.fname else None
            if f is None or f.first is None or f.parent is None or '__class__' not in f.parent.l: raise Unsupported('zero-argument super')
            o = f.l[f.first]
            if isinstance(o, SObj): raise Unsupported('zero-argument super')
            try: return super(f.parent.l['__class__'], o)
            except TypeError as e: raise ProgExc(e)
        f = self.ev(n.func, fr)
        if (f is any or f is all or f is next) and n.args and isinstance(n.args[0], ast.GeneratorExp) and len(n.args[0].generators) == 1 and f not in self.contracts:
            return self.short(f.__name__, n, fr)
        last = None
        if n.args and isinstance(n.args[-1], ast.Starred):
            args = self.elts(n.args[:-1], fr); last = self.ev(n.args[-1].value, fr)
            if isinstance(last, Rope) and last.kind in 'lt' and not is_explicit(last): args.append(Splat(last))
            else: args += self.to_list(last)
        else: args = self.elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                for a, b in d.items():
                    if a in kw: raise ProgExc(TypeError('multiple values for %s' % a))
                    kw[a] = b
            else: kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)
    def ex_Yield(self, n, fr):
        # the body of a generator, run on its own: the unit checks every value it yields
        if 'yield' not in self.c.extra:
            self.model_method(fr.l['$yield'], 'append', [self.ev(n.value, fr) if n.value else None], {}); return None
        return self.c.extra['yield'](self, self.ev(n.value, fr) if n.value else None)
    def ex_YieldFrom(self, n, fr):
        if 'yield' in self.c.extra: raise Unsupported('yield from')
        v = self.ev(n.value, fr)
        self.model_method(fr.l['$yield'], 'extend', [v], {})
    def ex_Starred(self, n, fr): raise Unsupported('starred')
    def to_list(self, v):
        if isinstance(v, list): return list(v)
        if isinstance(v, (tuple, set, frozenset, range)): return list(v)
        if isinstance(v, dict): return [k.k if type(k) is SKey else k for k in v]
        if isinstance(v, bytes): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, Rope):
            if not is_explicit(v):
                n = self.c.concrete(rlen(v))
                if n is None or n > 4096: raise Unsupported('iteration over a sequence of symbolic length')
                e = [rindex(v, i) for i in range(n)]
                return e
            e = explicit(v)
            if v.kind == 's': return [mk_seq('s', [x]) for x in e]
            return e
        if isinstance(v, SIter):
            n = self.c.concrete(v.n)
            if n is None or n > 4096: raise Unsupported('iteration over a symbolic sequence')
            return [v.elem(i) for i in range(n)]
        if isinstance(v, SObj):
            if hasattr(v, 's_iter'): return v.s_iter(self)
            raise Unsupported('iteration over %r' % v)
        if in_repo(type(v).__module__) and not isinstance(v, type):
            m = getattr(type(v), '__iter__', None)
            if isinstance(m, types.FunctionType): return self.to_list(self.call(m, [v]))
            raise ProgExc(TypeError('not iterable'))
        if isinstance(v, (SInt, SBool, int, type(None), float)): raise ProgExc(TypeError('object is not iterable'))
        return self.native(list, [v], {})

def _hashable(f):
    try: hash(f); return True
    except TypeError: return False

from .models import MODELS, fmt, model_method
Interp.model_method = model_method
