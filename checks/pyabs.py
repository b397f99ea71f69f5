"""Abstract interpreter for the Python layer: numbers are affine expressions over symbols, a state carries a
conjunction of linear inequalities over them (convex polyhedra, decided by Fourier-Motzkin elimination with integer
tightening), one state per path.  Lists, tuples and dicts have known structure.  Nothing is executed and no solver
is used."""
import ast, itertools
from math import gcd


class Undecided(Exception):
    """the code uses something the interpreter has no meaning for"""


# ------------------------------------------------------------------ affine expressions
class Lin:
    __slots__ = ('co', 'c')

    def __init__(self, co=None, c=0):
        self.co = {k: v for k, v in (co or {}).items() if v}
        self.c = c

    def __add__(self, o):
        r = dict(self.co)
        for k, v in o.co.items():
            r[k] = r.get(k, 0) + v
        return Lin(r, self.c + o.c)

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def scale(self, n):
        return Lin({k: v * n for k, v in self.co.items()}, self.c * n)

    def const(self):
        return not self.co

    def __eq__(self, o):
        return isinstance(o, Lin) and self.co == o.co and self.c == o.c

    def __hash__(self):
        return hash((tuple(sorted(self.co.items())), self.c))

    def __repr__(self):
        s = ' + '.join(('%s' % k if v == 1 else '%d*%s' % (v, k)) for k, v in sorted(self.co.items()))
        return (s + (' + %d' % self.c if self.c else '')) if s else str(self.c)


def I(n):
    return Lin({}, n)


def S(name):
    return Lin({name: 1}, 0)


def feasible(cons):
    """is there an integer point with all of cons <= 0 (over-approximated by the rational relaxation)?"""
    work = set()
    for x in cons:
        if x.const():
            if x.c > 0:
                return False
            continue
        work.add(x)
    while work:
        # eliminate the variable with the fewest pairs
        occ = {}
        for x in work:
            for k, v in x.co.items():
                a = occ.setdefault(k, [0, 0])
                a[0 if v > 0 else 1] += 1
        var = min(occ, key=lambda k: (occ[k][0] * occ[k][1], k))
        up = [x for x in work if x.co.get(var, 0) > 0]
        lo = [x for x in work if x.co.get(var, 0) < 0]
        work = {x for x in work if var not in x.co}
        for a in up:
            for b in lo:
                p, q = a.co[var], -b.co[var]
                r = a.scale(q) + b.scale(p)
                if r.const():
                    if r.c > 0:
                        return False
                    continue
                g = 0
                for v in r.co.values():
                    g = gcd(g, abs(v))
                if g > 1:
                    r = Lin({k: v // g for k, v in r.co.items()}, -((-r.c) // g))
                work.add(r)
        if len(work) > 4000:
            return True
    return True


# ------------------------------------------------------------------ values
class K:
    """a constant that is not a number"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, K) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(('K', repr(self.v)))

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE, ELL = K(None), K(True), K(False), K(Ellipsis)


class Sl:
    """slice object"""
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __repr__(self):
        return 'slice(%r, %r, %r)' % (self.a, self.b, self.s)


class Ref:
    """reference to a heap object (list, tuple, dict, set)"""
    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.i == self.i

    def __hash__(self):
        return hash(('ref', self.i))

    def __repr__(self):
        return '@%d' % self.i


class Sym:
    """an unknown object; `kind` is what is known about its type"""
    def __init__(self, name, kind=None):
        self.name, self.kind = name, kind

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name and o.kind == self.kind

    def __hash__(self):
        return hash(('sym', self.name, self.kind))

    def __repr__(self):
        return '<%s>' % self.name


class Arr:
    """an array: shape (tuple of values), where its contents come from"""
    def __init__(self, shape, src):
        self.shape, self.src = tuple(shape), src

    def __repr__(self):
        return 'arr%r' % (self.shape,)


class Fn:
    def __init__(self, node, mod, env=None, self_=None, cls=None):
        self.node, self.mod, self.env, self.self_, self.cls = node, mod, env, self_, cls

    def __repr__(self):
        return 'fn'


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod


class Ty:
    """a type or module attribute, by dotted name"""
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Ty) and o.n == self.n

    def __hash__(self):
        return hash(('ty', self.n))

    def __repr__(self):
        return self.n


class Bound:
    """a method of a value"""
    def __init__(self, o, n):
        self.o, self.n = o, n


class Inst:
    """an instance of a class of the package"""
    def __init__(self, cls, name):
        self.cls, self.name = cls, name


class State:
    def __init__(self):
        self.heap = {}      # id -> (kind, payload)
        self.cons = []
        self.facts = {}     # opaque condition -> bool
        self.events = []
        self.fields = {}
        self.exc = None

    def copy(self):
        s = State()
        s.heap = {k: (a, list(p) if isinstance(p, list) else dict(p) if isinstance(p, dict) else p) for k, (a, p) in self.heap.items()}
        s.cons = list(self.cons)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.fields = dict(self.fields)
        return s

    def le0(self, x):
        """x <= 0 certain"""
        return not feasible(self.cons + [I(1) - x])

    def can_le0(self, x):
        return feasible(self.cons + [x])

    def eq(self, a, b):
        """certainly equal"""
        d = a - b
        if d.const():
            return d.c == 0
        return self.le0(d) and self.le0(-d)


class Raise(Exception):
    pass


_ids = itertools.count(1)
NUMERIC = {'numbers.Number', 'numbers.Integral', 'numbers.Real', 'numbers.Complex', 'numbers.Rational', 'int', 'np.integer', 'np.number', 'np.generic', 'numpy.integer', 'numpy.number'}
# type tests per kind of value; anything not listed is False
KINDS = {
    'int': {'numbers.Number', 'numbers.Integral', 'numbers.Real', 'numbers.Complex', 'numbers.Rational', 'int'},
    'npint': {'numbers.Number', 'numbers.Integral', 'numbers.Real', 'numbers.Complex', 'numbers.Rational', 'np.integer', 'np.number', 'np.generic', 'np.signedinteger', 'np.int64'},
    'bool': {'numbers.Number', 'numbers.Integral', 'numbers.Real', 'numbers.Complex', 'numbers.Rational', 'int', 'bool'},
    'float': {'numbers.Number', 'numbers.Real', 'numbers.Complex', 'float'},
    'npbool': {'np.bool_', 'np.generic'}, 'complex': {'numbers.Number', 'numbers.Complex', 'complex'},
    'str': {'str'}, 'none': set(), 'slice': {'slice'}, 'ellipsis': {'type(Ellipsis)', 'types.EllipsisType', 'EllipsisType'},
    'tuple': {'tuple', 'Sequence', 'collections.abc.Sequence', 'Iterable'}, 'list': {'list', 'Sequence', 'collections.abc.Sequence', 'Iterable'},
    'dict': {'dict', 'Mapping', 'collections.abc.Mapping'}, 'set': {'set'},
    'arr': {'np.ndarray', 'numpy.ndarray'}, 'object': set(),
}


def is_generator(node):
    work = list(node.body) if isinstance(node.body, list) else []
    while work:
        n = work.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            work.extend(ast.iter_child_nodes(n))
    return False


class Interp:
    """run(fn, args) -> list of (state, ('ret', value) | ('exc', type name))"""
    LIMIT = 6000

    def __init__(self, modules):
        self.mods = {}
        for name, (path, tree) in modules.items():
            self.mods[name] = (path, tree, self.globals_of(tree))
        self.steps = 0
        self.depth = 0

    def globals_of(self, tree):
        g = {}
        for n in tree.body:
            self.top(n, g)
        return g

    def top(self, n, g):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            g[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names:
                g[a.asname or a.name.split('.')[0]] = Ty({'numpy': 'np'}.get(a.name, a.name))
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                g[a.asname or a.name] = ('from', (n.module or '').split('.')[-1], a.name)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    g[t.id] = ('expr', n.value)
        elif isinstance(n, (ast.If, ast.Try)):
            for b in n.body:
                self.top(b, g)

    # -------------------------------------------------- entry
    def run(self, fn, args, st=None, kw=None):
        st = st or State()
        out = []
        for s, v in self.call_fn(fn, list(args), kw or {}, st):
            out.append((s, ('exc', s.exc) if s.exc else ('ret', v)))
        return out

    def tick(self):
        self.steps += 1
        if self.steps > 400000:
            raise Undecided('too many steps')

    # -------------------------------------------------- heap
    def new(self, st, kind, payload):
        i = next(_ids)
        st.heap[i] = (kind, payload)
        return Ref(i)

    def tup(self, st, xs):
        return self.new(st, 'tuple', list(xs))

    def items(self, st, v):
        """elements of an iterable value"""
        if isinstance(v, Ref):
            k, p = st.heap[v.i]
            if k in ('list', 'tuple', 'set'):
                return list(p)
            if k == 'dict':
                if p.get('*'):
                    raise Undecided('iteration over an open dict')
                return [x for x in p if x != '*']
        if isinstance(v, K) and isinstance(v.v, str):
            return [K(c) for c in v.v]
        raise Undecided('iteration over %r' % (v,))

    def kind(self, st, v):
        if isinstance(v, Lin):
            return 'int'
        if isinstance(v, K):
            return {bool: 'bool', str: 'str', float: 'float', type(None): 'none', type(Ellipsis): 'ellipsis'}.get(type(v.v))
        if isinstance(v, Sl):
            return 'slice'
        if isinstance(v, Ref):
            return st.heap[v.i][0]
        if isinstance(v, Arr):
            return 'arr'
        if isinstance(v, Sym):
            return v.kind
        return None

    # -------------------------------------------------- functions
    def call_fn(self, f, args, kw, st):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Undecided('recursion')
        try:
            node = f.node
            env = {}
            a = node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if f.self_ is not None:
                args = [f.self_] + list(args)
            rest = args[len(names):]
            for n, v in zip(names, args):
                env[n] = v
            if rest and not a.vararg:
                raise Undecided('too many arguments for %s' % getattr(node, 'name', 'lambda'))
            if a.vararg:
                env[a.vararg.arg] = self.tup(st, rest)
            kw = dict(kw)
            star = kw.pop('**', None)
            extra = {}
            for k, v in kw.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    env[k] = v
                else:
                    extra[k] = v
            if a.kwarg:
                d = {K(k): v for k, v in extra.items()}
                if star is not None:
                    d.update(st.heap[star.i][1])
                env[a.kwarg.arg] = self.new(st, 'dict', d)
            elif extra or star is not None and st.heap[star.i][1]:
                raise Undecided('unexpected keyword')
            states = [st]
            defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            fr = Frame(env, f.mod, f.env, f.cls)
            for n, d in defs:
                if n not in env:
                    r = self.ev(d, st, fr)
                    if len(r) != 1:
                        raise Undecided('default value')
                    env[n] = r[0][1]
            for n in names:
                if n not in env:
                    raise Undecided('missing argument %s' % n)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, st, fr)
            out = []
            gen = is_generator(node)
            if gen:
                # run eagerly: the values produced, in order
                acc = self.new(st, 'list', [])
                fr.env['*yield'] = acc
            for s, o, v, e in self.block(node.body, st, fr):
                if gen and o != 'exc':
                    out.append((s, acc))
                    continue
                if o == 'exc':
                    out.append((s, None))
                else:
                    out.append((s, v if o == 'ret' else NONE))
            if len(out) > self.LIMIT:
                raise Undecided('too many paths')
            return out
        finally:
            self.depth -= 1

    # -------------------------------------------------- statements: [(state, outcome, value, env)]
    def block(self, body, st, fr):
        cur = [(st, 'norm', None, fr)]
        for n in body:
            nxt = []
            for s, o, v, e in cur:
                if o != 'norm':
                    nxt.append((s, o, v, e))
                else:
                    nxt.extend(self.stmt(n, s, e))
            cur = nxt
            if len(cur) > self.LIMIT:
                raise Undecided('too many paths')
        return cur

    def after(self, rs, fr, k):
        """continue with k(state, value) for every normal evaluation"""
        out = []
        for s, v in rs:
            if s.exc:
                out.append((s, 'exc', None, fr))
            else:
                out.extend(k(s, v))
        return out

    def stmt(self, n, st, fr):
        self.tick()
        t = type(n)
        if t is ast.Expr:
            return self.after(self.ev(n.value, st, fr), fr, lambda s, v: [(s, 'norm', None, fr)])
        if t is ast.Return:
            if n.value is None:
                return [(st, 'ret', NONE, fr)]
            return self.after(self.ev(n.value, st, fr), fr, lambda s, v: [(s, 'ret', v, fr)])
        if t is ast.Assign:
            def k(s, v):
                cur = [(s, fr)]
                for tg in n.targets:
                    nx = []
                    for s2, f2 in cur:
                        nx.extend(self.assign(tg, v, s2, f2))
                    cur = nx
                return [(s2, 'exc' if s2.exc else 'norm', None, f2) for s2, f2 in cur]
            return self.after(self.ev(n.value, st, fr), fr, k)
        if t is ast.AnnAssign:
            if n.value is None:
                return [(st, 'norm', None, fr)]
            return self.after(self.ev(n.value, st, fr), fr, lambda s, v: [(s2, 'exc' if s2.exc else 'norm', None, f2) for s2, f2 in self.assign(n.target, v, s, fr)])
        if t is ast.AugAssign:
            load = ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n)

            def k(s, v):
                def k2(s2, w):
                    return [(s3, 'exc' if s3.exc else 'norm', None, f3) for s3, f3 in self.assign(n.target, w, s2, fr)]
                if isinstance(v, Ref) and s.heap[v.i][0] == 'list' and isinstance(n.op, ast.Add):
                    return self.after([(s2, self.extend(s2, v, w)) for s2, w in self.ev(n.value, s, fr) if True], fr, lambda s2, w: [(s2, 'norm', None, fr)])
                rs = []
                for s2, w in self.ev(n.value, s, fr):
                    rs.extend([(s2, None)] if s2.exc else self.binop(n.op, v, w, s2))
                return self.after(rs, fr, k2)
            return self.after(self.ev(load, st, fr), fr, k)
        if t is ast.If:
            def k(s, v):
                out = []
                for s2, b in self.truth(v, s):
                    out.extend(self.block(n.body if b else n.orelse, s2, fr.fork() ))
                return out
            return self.after(self.ev(n.test, st, fr), fr, k)
        if t is ast.For:
            return self.after(self.ev(n.iter, st, fr), fr, lambda s, v: self.for_(n, s, v, fr))
        if t is ast.While:
            return self.while_(n, st, fr)
        if t is ast.Raise:
            s = st.copy()
            name = 'Exception'
            e = n.exc
            if isinstance(e, ast.Call):
                e = e.func
            if isinstance(e, (ast.Name, ast.Attribute)):
                name = ast.unparse(e)
            s.exc = name
            s.excline = n.lineno
            return [(s, 'exc', None, fr)]
        if t is ast.Pass or t is ast.Global or t is ast.Nonlocal:
            return [(st, 'norm', None, fr)]
        if t is ast.Break:
            return [(st, 'brk', None, fr)]
        if t is ast.Continue:
            return [(st, 'cont', None, fr)]
        if t is ast.Assert:
            def k(s, v):
                out = []
                for s2, b in self.truth(v, s):
                    if b:
                        out.append((s2, 'norm', None, fr))
                    else:
                        s2.exc = 'AssertionError'
                        out.append((s2, 'exc', None, fr))
                return out
            return self.after(self.ev(n.test, st, fr), fr, k)
        if t is ast.Try:
            out = []
            for s, o, v, e in self.block(n.body, st, fr.fork()):
                if o == 'exc':
                    done = False
                    for h in n.handlers:
                        hn = ast.unparse(h.type) if h.type is not None else 'BaseException'
                        if self.catches(hn, s.exc):
                            s2 = s.copy()
                            f2 = e.fork()
                            if h.name:
                                f2.env[h.name] = Sym('exception', 'object')
                            prev = s.exc
                            for r in self.block(h.body, s2, f2):
                                if r[1] == 'exc' and r[0].exc == 'Exception' and any(isinstance(x, ast.Raise) and x.exc is None for x in ast.walk(h)):
                                    r[0].exc = prev
                                out.append(r)
                            done = True
                            break
                    if not done:
                        out.append((s, o, v, e))
                elif o == 'norm' and n.orelse:
                    out.extend(self.block(n.orelse, s, e))
                else:
                    out.append((s, o, v, e))
            if n.finalbody:
                res = []
                for s, o, v, e in out:
                    ex = s.exc
                    s.exc = None
                    for s2, o2, v2, e2 in self.block(n.finalbody, s, e):
                        if o2 == 'norm':
                            s2.exc = ex
                            res.append((s2, o, v, e2))
                        else:
                            res.append((s2, o2, v2, e2))
                return res
            return out
        if t is ast.FunctionDef:
            fr.env[n.name] = Fn(n, fr.mod, fr)
            return [(st, 'norm', None, fr)]
        if t is ast.Delete:
            cur = [(st, fr)]
            for tg in n.targets:
                if isinstance(tg, ast.Subscript):
                    rs = []
                    for s, f in cur:
                        for s2, o in self.ev(tg.value, s, f):
                            for s3, k in self.ev(tg.slice, s2, f):
                                if isinstance(o, Ref) and s3.heap[o.i][0] == 'dict' and isinstance(k, K):
                                    s3 = s3.copy()
                                    s3.heap[o.i][1].pop(k, None)
                                    rs.append((s3, f))
                                else:
                                    raise Undecided('del')
                    cur = rs
                elif isinstance(tg, ast.Name):
                    fr.env.pop(tg.id, None)
                else:
                    raise Undecided('del')
            return [(s, 'norm', None, f) for s, f in cur]
        if t is ast.Import:
            for a in n.names:
                fr.env[a.asname or a.name.split('.')[0]] = Ty({'numpy': 'np'}.get(a.name, a.name))
            return [(st, 'norm', None, fr)]
        if t is ast.With:
            cur = [(st, 'norm', None, fr)]
            for it in n.items:
                nx = []
                for s, o, v, e in cur:
                    nx.extend(self.after(self.ev(it.context_expr, s, e), e, lambda s2, v2: [(s2, 'norm', None, e)]))
                cur = nx
            out = []
            for s, o, v, e in cur:
                out.extend(self.block(n.body, s, e) if o == 'norm' else [(s, o, v, e)])
            return out
        raise Undecided('statement %s' % t.__name__)

    def catches(self, handler, exc):
        fam = {'Exception', 'BaseException'}
        hs = handler.strip('()').replace(' ', '').split(',')
        sup = {'KeyError': {'LookupError'}, 'IndexError': {'LookupError'}, 'OverflowError': {'ArithmeticError'}, 'ZeroDivisionError': {'ArithmeticError'}}
        return any(h in fam or h == exc or h in sup.get(exc, ()) for h in hs)

    def extend(self, s, v, w):
        s.heap[v.i] = ('list', s.heap[v.i][1] + self.items(s, w))
        return v

    def for_(self, n, st, v, fr):
        if isinstance(v, Sym) or (isinstance(v, Ref) and st.heap[v.i][0] == 'iter'):
            raise Undecided('loop over an unknown iterable')
        k = 0
        done = []
        cur = [(st, fr.fork())]
        while cur:
            nxt = []
            for s, f in cur:
                xs = self.items(s, v)
                if k >= len(xs):
                    done.extend(self.block(n.orelse, s, f) if n.orelse else [(s, 'norm', None, f)])
                    continue
                for s2, f2 in self.assign(n.target, xs[k], s, f):
                    for s3, o, val, f3 in self.block(n.body, s2, f2):
                        if o in ('norm', 'cont'):
                            nxt.append((s3, f3))
                        elif o == 'brk':
                            done.append((s3, 'norm', None, f3))
                        else:
                            done.append((s3, o, val, f3))
            cur = nxt
            k += 1
            if len(cur) + len(done) > self.LIMIT or k > 60:
                raise Undecided('too many paths')
        return done

    def while_(self, n, st, fr):
        done, cur = [], [(st, fr.fork())]
        for _ in range(40):
            nxt = []
            for s, f in cur:
                for s1, c in self.ev(n.test, s, f):
                    if s1.exc:
                        done.append((s1, 'exc', None, f))
                        continue
                    for s2, b in self.truth(c, s1):
                        if not b:
                            done.extend(self.block(n.orelse, s2, f.fork()) if n.orelse else [(s2, 'norm', None, f.fork())])
                            continue
                        for s3, o, val, f3 in self.block(n.body, s2, f.fork()):
                            if o in ('norm', 'cont'):
                                nxt.append((s3, f3))
                            elif o == 'brk':
                                done.append((s3, 'norm', None, f3))
                            else:
                                done.append((s3, o, val, f3))
            cur = nxt
            if not cur:
                return done
            if len(cur) + len(done) > self.LIMIT:
                raise Undecided('too many paths')
        raise Undecided('unbounded loop')

    def assign(self, tg, v, st, fr):
        if isinstance(tg, ast.Name):
            f = fr.fork()
            f.env[tg.id] = v
            return [(st, f)]
        if isinstance(tg, (ast.Tuple, ast.List)):
            xs = self.items(st, v)
            cur = [(st, fr)]
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                m = len(xs) - (len(tg.elts) - 1)
                xs = xs[:i] + [self.new(st, 'list', xs[i:i + m])] + xs[i + m:]
            if len(xs) != len(tg.elts):
                s = st.copy()
                s.exc = 'ValueError'
                return [(s, fr)]
            for e, x in zip(tg.elts, xs):
                if isinstance(e, ast.Starred):
                    e = e.value
                nx = []
                for s, f in cur:
                    nx.extend(self.assign(e, x, s, f))
                cur = nx
            return cur
        if isinstance(tg, ast.Subscript):
            out = []
            for s, o in self.ev(tg.value, st, fr):
                if s.exc:
                    out.append((s, fr))
                    continue
                for s2, k in self.ev(tg.slice, s, fr):
                    if s2.exc:
                        out.append((s2, fr))
                        continue
                    out.extend((s3, fr) for s3 in self.setitem(o, k, v, s2))
            return out
        if isinstance(tg, ast.Attribute):
            out = []
            for s, o in self.ev(tg.value, st, fr):
                s = s.copy()
                s.fields[(id(o) if isinstance(o, Inst) else repr(o), tg.attr)] = v
                out.append((s, fr))
            return out
        raise Undecided('assignment target')

    def setitem(self, o, k, v, st):
        if isinstance(o, Ref):
            kd, p = st.heap[o.i]
            s = st.copy()
            if kd == 'dict' and isinstance(k, K):
                s.heap[o.i][1][k] = v
                return [s]
            if kd == 'list' and isinstance(k, Lin) and k.const() and -len(p) <= k.c < len(p):
                s.heap[o.i][1][k.c] = v
                return [s]
        if isinstance(o, (Arr, Sym)):
            s = st.copy()
            s.events.append(('store', o, k, v))
            return [s]
        raise Undecided('item assignment')

    # -------------------------------------------------- conditions
    def truth(self, v, st):
        """[(state, bool)]"""
        if isinstance(v, K):
            return [(st, bool(v.v) if v.v is not Ellipsis else True)]
        if isinstance(v, Lin):
            return self.compare_lin('!=', v, I(0), st)
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            return self.compare_lin(v[1], v[2], v[3], st)
        if isinstance(v, tuple) and v and v[0] == 'not':
            return [(s, not b) for s, b in self.truth(v[1], st)]
        if isinstance(v, Ref):
            kd, p = st.heap[v.i]
            if kd == 'dict' and p.get('*'):
                return self.split(('nonempty', v.i), st)
            return [(st, len(p) > 0)]
        if isinstance(v, (Sl, Fn, Cls, Ty, Inst)):
            return [(st, True)]
        if isinstance(v, tuple) and v and v[0] == 'b':
            return self.split(v, st)
        if isinstance(v, Sym):
            return self.split(('b', v), st)
        raise Undecided('truth value of %r' % (v,))

    def split(self, key, st):
        if key in st.facts:
            return [(st, st.facts[key])]
        a, b = st.copy(), st.copy()
        a.facts[key] = True
        b.facts[key] = False
        return [(a, True), (b, False)]

    def compare_lin(self, op, a, b, st):
        d = a - b
        alts = {'<': [([d + I(1)], True), ([-d], False)], '<=': [([d], True), ([I(1) - d], False)],
                '>': [([I(1) - d], True), ([d], False)], '>=': [([-d], True), ([d + I(1)], False)],
                '==': [([d, -d], True), ([d + I(1)], False), ([I(1) - d], False)],
                '!=': [([d, -d], False), ([d + I(1)], True), ([I(1) - d], True)]}[op]
        out = []
        for cs, r in alts:
            if all(c.const() and c.c <= 0 for c in cs):
                return [(st, r)] if op not in ('==', '!=') or len(cs) == 2 or True and d.const() else out
            if feasible(st.cons + cs):
                s = st.copy()
                s.cons += [c for c in cs if not c.const()]
                out.append((s, r))
        if len({r for _, r in out}) == 1 and len(out) == 1:
            return [(st, out[0][1])]
        return out

    # -------------------------------------------------- expressions: [(state, value)]
    def evs(self, ns, st, fr):
        cur = [(st, [])]
        for n in ns:
            nx = []
            for s, vs in cur:
                if s.exc:
                    nx.append((s, vs))
                    continue
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s, fr):
                        nx.append((s2, vs + (self.items(s2, v) if not s2.exc else [])))
                else:
                    for s2, v in self.ev(n, s, fr):
                        nx.append((s2, vs + [v]))
            cur = nx
        return cur

    def fail(self, st, name):
        s = st.copy()
        s.exc = name
        return [(s, None)]

    def ev(self, n, st, fr):
        self.tick()
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        v = n.value
        if isinstance(v, int) and not isinstance(v, bool):
            return [(st, I(v))]
        return [(st, K(v))]

    def e_JoinedStr(self, n, st, fr):
        return [(st, Sym('text', 'str'))]

    def e_Name(self, n, st, fr):
        return [(st, self.name(n.id, st, fr))]

    def name(self, i, st, fr):
        f = fr
        while f is not None:
            if i in f.env:
                return f.env[i]
            f = f.up
        g = self.mods[fr.mod][2] if fr.mod in self.mods else {}
        if i in g:
            return self.glob(fr.mod, i, st)
        return ELL if i == 'Ellipsis' else Ty(i)

    def glob(self, mod, i, st):
        x = self.mods[mod][2].get(i)
        if isinstance(x, ast.FunctionDef):
            return Fn(x, mod)
        if isinstance(x, ast.ClassDef):
            return Cls(x, mod)
        if isinstance(x, tuple) and x[0] == 'from':
            if x[1] in self.mods and x[2] in self.mods[x[1]][2]:
                return self.glob(x[1], x[2], st)
            return Ty((x[1] + '.' if x[1] else '') + x[2])
        if isinstance(x, tuple) and x[0] == 'expr':
            try:
                r = self.ev(x[1], st, Frame({}, mod, None, None))
                if len(r) == 1:
                    return r[0][1]
            except Undecided:
                pass
            return Sym('%s.%s' % (mod, i))
        if isinstance(x, Ty):
            return x
        return Ty(i)

    def e_Tuple(self, n, st, fr):
        return [(s, None if s.exc else self.tup(s, vs)) for s, vs in self.evs(n.elts, st, fr)]

    def e_List(self, n, st, fr):
        return [(s, None if s.exc else self.new(s, 'list', vs)) for s, vs in self.evs(n.elts, st, fr)]

    def e_Set(self, n, st, fr):
        return [(s, None if s.exc else self.new(s, 'set', vs)) for s, vs in self.evs(n.elts, st, fr)]

    def e_Dict(self, n, st, fr):
        out = []
        for s, ks in self.evs([k for k in n.keys if k is not None], st, fr):
            for s2, vs in self.evs(n.values, s, fr):
                if s2.exc:
                    out.append((s2, None))
                    continue
                d = {}
                it = iter(ks)
                for k, v in zip(n.keys, vs):
                    if k is None:
                        d.update(s2.heap[v.i][1])
                    else:
                        kk = next(it)
                        if not isinstance(kk, (K, Lin)):
                            kk = ('key', repr(kk))
                        d[kk] = v
                out.append((s2, self.new(s2, 'dict', d)))
        return out

    def e_IfExp(self, n, st, fr):
        out = []
        for s, c in self.ev(n.test, st, fr):
            if s.exc:
                out.append((s, None))
                continue
            for s2, b in self.truth(c, s):
                out.extend(self.ev(n.body if b else n.orelse, s2, fr))
        return out

    def e_BoolOp(self, n, st, fr):
        cur, out = [(st, None)], []
        for i, x in enumerate(n.values):
            nx = []
            for s, _ in cur:
                for s2, v in self.ev(x, s, fr):
                    if s2.exc or i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.truth(v, s2):
                        if b == isinstance(n.op, ast.Or):
                            out.append((s3, v if not isinstance(v, tuple) else K(b)))
                        else:
                            nx.append((s3, None))
            cur = nx
        return out

    def e_UnaryOp(self, n, st, fr):
        out = []
        for s, v in self.ev(n.operand, st, fr):
            if s.exc:
                out.append((s, None))
            elif isinstance(n.op, ast.Not):
                out.extend((s2, K(not b)) for s2, b in self.truth(v, s))
            elif isinstance(n.op, ast.USub) and isinstance(v, Lin):
                out.append((s, -v))
            elif isinstance(n.op, ast.USub) and isinstance(v, K) and isinstance(v.v, float):
                out.append((s, K(-v.v)))
            else:
                raise Undecided('unary operator')
        return out

    def e_BinOp(self, n, st, fr):
        out = []
        for s, a in self.ev(n.left, st, fr):
            if s.exc:
                out.append((s, None))
                continue
            for s2, b in self.ev(n.right, s, fr):
                if s2.exc:
                    out.append((s2, None))
                else:
                    out.extend(self.binop(n.op, a, b, s2))
        return out

    def binop(self, op, a, b, st):
        if isinstance(a, K) and isinstance(a.v, bool) and isinstance(b, Lin):
            a = I(int(a.v))
        if isinstance(b, K) and isinstance(b.v, bool) and isinstance(a, Lin):
            b = I(int(b.v))
        if isinstance(a, Lin) and isinstance(b, Lin):
            if isinstance(op, ast.Add):
                return [(st, a + b)]
            if isinstance(op, ast.Sub):
                return [(st, a - b)]
            if isinstance(op, ast.Mult):
                if a.const():
                    return [(st, b.scale(a.c))]
                if b.const():
                    return [(st, a.scale(b.c))]
                return [(st, S('(%r)*(%r)' % tuple(sorted((a, b), key=repr))))]
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and a.const() and b.const() and b.c:
                return [(st, I(a.c // b.c if isinstance(op, ast.FloorDiv) else a.c % b.c))]
            if isinstance(op, ast.Mod) and b.co:
                # a % b for b > 0 with -b <= a < 2b is a case split
                return self.modulo(a, b, st)
            raise Undecided('arithmetic')
        if isinstance(op, ast.Mod) and (isinstance(a, K) and isinstance(a.v, str) or isinstance(a, Sym) and a.kind == 'str'):
            return [(st, Sym('text', 'str'))]
        if isinstance(op, ast.Add):
            if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
                return [(st, K(a.v + b.v))]
            if isinstance(a, Ref) and isinstance(b, Ref) and st.heap[a.i][0] == st.heap[b.i][0] and st.heap[a.i][0] in ('list', 'tuple'):
                return [(st, self.new(st, st.heap[a.i][0], st.heap[a.i][1] + st.heap[b.i][1]))]
            if self.kind(st, a) == 'str' or self.kind(st, b) == 'str':
                return [(st, Sym('text', 'str'))]
        if isinstance(op, ast.Mult) and isinstance(a, Lin):
            a, b = b, a
        if isinstance(op, ast.Mult) and isinstance(a, Ref) and isinstance(b, Lin) and b.const():
            return [(st, self.new(st, st.heap[a.i][0], st.heap[a.i][1] * max(0, b.c)))]
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)) and isinstance(a, Ref) and isinstance(b, Ref):
            xa, xb = self.items(st, a), self.items(st, b)
            if isinstance(op, ast.Sub):
                return [(st, self.new(st, 'set', [x for x in xa if x not in xb]))]
            if isinstance(op, ast.BitAnd):
                return [(st, self.new(st, 'set', [x for x in xa if x in xb]))]
            if st.heap[a.i][0] == 'dict':
                d = dict(st.heap[a.i][1])
                d.update(st.heap[b.i][1])
                return [(st, self.new(st, 'dict', d))]
            return [(st, self.new(st, 'set', xa + [x for x in xb if x not in xa]))]
        if isinstance(a, (Sym, K)) or isinstance(b, (Sym, K)):
            if NONE in (a, b) or self.kind(st, a) in ('none',) or self.kind(st, b) == 'none':
                return self.fail(st, 'TypeError')
            ka, kb = self.kind(st, a), self.kind(st, b)
            if 'float' in (ka, kb) and (ka in ('float', 'int')) and kb in ('float', 'int'):
                return [(st, Sym('%r %s %r' % (a, type(op).__name__, b), 'float'))]
            return [(st, Sym('%r %s %r' % (a, type(op).__name__, b)))]
        raise Undecided('operator')

    def modulo(self, a, b, st):
        out = []
        for s, neg in self.compare_lin('<', a, I(0), st):
            if neg:
                for s2, far in self.compare_lin('<', a + b, I(0), s):
                    if far:
                        raise Undecided('modulo')
                    out.append((s2, a + b))
            else:
                for s2, small in self.compare_lin('<', a, b, s):
                    if not small:
                        raise Undecided('modulo')
                    out.append((s2, a))
        return out

    OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}

    def e_Compare(self, n, st, fr):
        out = []
        for s, vs in self.evs([n.left] + n.comparators, st, fr):
            if s.exc:
                out.append((s, None))
                continue
            cur = [(s, None)]
            for i, op in enumerate(n.ops):
                nx = []
                for s2, _ in cur:
                    for s3, r in self.compare(op, vs[i], vs[i + 1], s2):
                        if s3.exc:
                            out.append((s3, None))
                        elif i == len(n.ops) - 1:
                            out.append((s3, r if isinstance(r, tuple) else K(r)))
                        else:
                            for s4, b in (self.truth(r, s3) if isinstance(r, tuple) else [(s3, r)]):
                                if b:
                                    nx.append((s4, None))
                                else:
                                    out.append((s4, FALSE))
                cur = nx
        return out

    def same(self, a, b, st):
        """True, False or None for equality of two values; may need a split"""
        if isinstance(a, K) and isinstance(b, K):
            return a == b
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            if d.const():
                return d.c == 0
            return None
        ka, kb = self.kind(st, a), self.kind(st, b)
        if isinstance(a, (Ty, Cls)) and isinstance(b, (Ty, Cls)):
            return a == b
        if isinstance(a, Sym) and isinstance(b, Sym) and a == b:
            return True
        if 'value' in (ka, kb):
            # any value but None
            return False if 'none' in (ka, kb) else None
        if ka is not None and kb is not None and ka != kb and not {ka, kb} & {'object'}:
            if {ka, kb} <= {'int', 'npint', 'bool', 'float'}:
                return None
            return False
        if ka is None or kb is None:
            if ka == 'none' or kb == 'none':
                return None if isinstance(a, Sym) or isinstance(b, Sym) else False
            return None
        if 'object' in (ka, kb):
            return False
        return None

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if isinstance(a, Lin) and isinstance(b, Lin):
                return [(s, r != neg) for s, r in self.compare_lin('==', a, b, st)]
            if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(op, (ast.Eq, ast.NotEq)):
                return [(s, r != neg) for s, r in self.eq_seq(a, b, st)]
            if isinstance(a, Sl) and isinstance(b, Sl):
                raise Undecided('slice comparison')
            r = self.same(a, b, st)
            if r is None:
                if isinstance(op, (ast.Is, ast.IsNot)) and (a == NONE or b == NONE):
                    x = b if a == NONE else a
                    if isinstance(x, Sym) and x.kind not in (None, 'none'):
                        return [(st, neg)]
                key = ('b', 'eq', repr(a), repr(b))
                return [(s, q != neg) for s, q in self.split(key, st)]
            return [(st, r != neg)]
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if isinstance(b, Ref):
                kd, p = st.heap[b.i]
                xs = list(p)
                if kd == 'dict':
                    if isinstance(a, K):
                        if a in p:
                            return [(st, not neg)]
                        if not p.get('*'):
                            return [(st, neg)]
                    return [(s, q != neg) for s, q in self.split(('b', 'in', repr(a), b.i), st)]
                cur, out = [st], []
                for x in xs:
                    nx = []
                    for s in cur:
                        for s2, r in self.compare(ast.Eq(), x, a, s):
                            if r is True:
                                out.append((s2, not neg))
                            else:
                                nx.append(s2)
                    cur = nx
                return out + [(s, neg) for s in cur]
            if isinstance(b, K) and isinstance(b.v, str) and isinstance(a, K) and isinstance(a.v, str):
                return [(st, (a.v in b.v) != neg)]
            return [(s, q != neg) for s, q in self.split(('b', 'in', repr(a), repr(b)), st)]
        o = self.OPS[type(op)]
        if isinstance(a, K) and isinstance(a.v, bool):
            a = I(int(a.v))
        if isinstance(b, K) and isinstance(b.v, bool):
            b = I(int(b.v))
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.compare_lin(o, a, b, st)
        if a == NONE or b == NONE:
            return self.fail(st, 'TypeError')
        if isinstance(a, Sl) or isinstance(b, Sl) or self.kind(st, a) == 'object' or self.kind(st, b) == 'object':
            return self.fail(st, 'TypeError')
        return [(s, q) for s, q in self.split(('b', o, repr(a), repr(b)), st)]

    def eq_seq(self, a, b, st):
        ka, pa = st.heap[a.i]
        kb, pb = st.heap[b.i]
        if ka != kb:
            return [(st, False)]
        if ka in ('list', 'tuple'):
            if len(pa) != len(pb):
                return [(st, False)]
            cur, out = [st], []
            for x, y in zip(pa, pb):
                nx = []
                for s in cur:
                    for s2, r in self.compare(ast.Eq(), x, y, s):
                        if r is True:
                            nx.append(s2)
                        else:
                            out.append((s2, False))
                cur = nx
            return out + [(s, True) for s in cur]
        if ka == 'set':
            return [(st, set(pa) == set(pb))]
        return [(st, pa == pb)]

    # comprehensions
    def comp(self, n, st, fr, mk):
        """[(state, list of results)]"""
        cur = [(st, fr.fork(True), [])]

        def gen(i, s, f, acc):
            if i == len(n.generators):
                out = []
                for s2, v in mk(s, f):
                    out.append((s2, f, acc if s2.exc else acc + [v]))
                return out
            g = n.generators[i]
            res = []
            for s2, it in self.ev(g.iter, s, f):
                if s2.exc:
                    res.append((s2, f, acc))
                    continue
                if isinstance(it, Sym):
                    raise Undecided('comprehension over an unknown iterable')
                cur = [(s2, f, acc)]
                for x in self.items(s2, it):
                    nx = []
                    for s3, f3, a3 in cur:
                        if s3.exc:
                            nx.append((s3, f3, a3))
                            continue
                        for s4, f4 in self.assign(g.target, x, s3, f3):
                            tests = [(s4, True)]
                            for c in g.ifs:
                                tt = []
                                for s5, ok in tests:
                                    if not ok or s5.exc:
                                        tt.append((s5, ok))
                                        continue
                                    for s6, cv in self.ev(c, s5, f4):
                                        if s6.exc:
                                            tt.append((s6, False))
                                        else:
                                            tt.extend(self.truth(cv, s6))
                                tests = tt
                            for s5, ok in tests:
                                if s5.exc or not ok:
                                    nx.append((s5, f4, a3))
                                else:
                                    nx.extend(gen(i + 1, s5, f4, a3))
                    cur = nx
                    if len(cur) > self.LIMIT:
                        raise Undecided('too many paths')
                res.extend(cur)
            return res
        return [(s, acc) for s, f, acc in gen(0, st, cur[0][1], [])]

    def e_ListComp(self, n, st, fr):
        return [(s, None if s.exc else self.new(s, 'list', xs)) for s, xs in self.comp(n, st, fr, lambda s, f: self.ev(n.elt, s, f))]

    def e_GeneratorExp(self, n, st, fr):
        return self.e_ListComp(n, st, fr)

    def e_SetComp(self, n, st, fr):
        return [(s, None if s.exc else self.new(s, 'set', xs)) for s, xs in self.comp(n, st, fr, lambda s, f: self.ev(n.elt, s, f))]

    def e_DictComp(self, n, st, fr):
        def mk(s, f):
            return [(s2, tuple(['kv'] + vs)) for s2, vs in self.evs([n.key, n.value], s, f)]
        return [(s, None if s.exc else self.new(s, 'dict', {k: v for _, k, v in xs})) for s, xs in self.comp(n, st, fr, mk)]

    def e_Yield(self, n, st, fr):
        out = []
        for s, v in (self.ev(n.value, st, fr) if n.value is not None else [(st, NONE)]):
            if not s.exc:
                s = s.copy()
                s.heap[self.name('*yield', s, fr).i][1].append(v)
            out.append((s, NONE))
        return out

    def e_Lambda(self, n, st, fr):
        return [(st, Fn(n, fr.mod, fr))]

    def e_NamedExpr(self, n, st, fr):
        out = []
        for s, v in self.ev(n.value, st, fr):
            fr.env[n.target.id] = v
            out.append((s, v))
        return out

    def e_Slice(self, n, st, fr):
        parts = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        return [(s, None if s.exc else Sl(*vs)) for s, vs in self.evs(parts, st, fr)]

    def e_Subscript(self, n, st, fr):
        out = []
        for s, o in self.ev(n.value, st, fr):
            if s.exc:
                out.append((s, None))
                continue
            for s2, k in self.ev(n.slice, s, fr):
                if s2.exc:
                    out.append((s2, None))
                else:
                    out.extend(self.getitem(o, k, s2))
        return out

    def getitem(self, o, k, st):
        if isinstance(o, Ref):
            kd, p = st.heap[o.i]
            if kd in ('list', 'tuple'):
                if isinstance(k, Lin):
                    if not k.const():
                        raise Undecided('symbolic position')
                    if -len(p) <= k.c < len(p):
                        return [(st, p[k.c])]
                    return self.fail(st, 'IndexError')
                if isinstance(k, Sl):
                    def c(x):
                        if x == NONE:
                            return None
                        if isinstance(x, Lin) and x.const():
                            return x.c
                        raise Undecided('symbolic slice')
                    return [(st, self.new(st, kd, p[slice(c(k.a), c(k.b), c(k.s))]))]
            if kd == 'dict':
                kk = k if isinstance(k, (K, Lin)) else ('key', repr(k))
                if kk in p:
                    return [(st, p[kk])]
                if not p.get('*'):
                    if isinstance(k, K):
                        return self.fail(st, 'KeyError')
                return [(st, Sym('%r[%r]' % (o, k)))]
        if isinstance(o, Inst):
            f = self.method(o.cls, '__getitem__')
            if f is not None:
                return self.call_fn(Fn(f, o.cls.mod, None, o, o.cls), [k], {}, st)
        if isinstance(o, Arr):
            return self.arr_index(o, k, st)
        if isinstance(o, Sym):
            return [(st, Sym('%r[%r]' % (o, k)))]
        raise Undecided('subscript of %r' % (o,))

    def arr_index(self, o, k, st):
        ks = self.items(st, k) if isinstance(k, Ref) else [k]
        if ELL in ks:
            i = ks.index(ELL)
            ks = ks[:i] + [Sl(NONE, NONE, NONE)] * (len(o.shape) - len(ks) + 1) + ks[i + 1:]
        sh, drop = [], []
        for d, x in enumerate(ks):
            if isinstance(x, Sl):
                if x.a in (NONE, I(0)) and x.b == NONE and x.s in (NONE, I(1)):
                    sh.append(o.shape[d])
                else:
                    return [(st, Arr([Sym('?')], ('index', o, k)))]
            elif isinstance(x, Lin):
                drop.append(d)
            else:
                return [(st, Sym('%r[%r]' % (o, k)))]
        sh += o.shape[len(ks):]
        return [(st, Arr(sh, ('index', o, tuple(drop))))]

    # -------------------------------------------------- attributes
    def method(self, cls, name):
        for b in cls.node.body:
            if isinstance(b, ast.FunctionDef) and b.name == name:
                return b
        for base in cls.node.bases:
            if isinstance(base, ast.Name):
                x = self.glob(cls.mod, base.id, State())
                if isinstance(x, Cls):
                    r = self.method(x, name)
                    if r is not None:
                        return r
        return None

    def mro(self, cls):
        out = [cls]
        for base in cls.node.bases:
            if isinstance(base, ast.Name):
                x = self.glob(cls.mod, base.id, State())
                if isinstance(x, Cls):
                    out += self.mro(x)
        return out

    def decorated(self, f):
        return {ast.unparse(d).split('.')[-1] for d in f.decorator_list}

    def e_Attribute(self, n, st, fr):
        out = []
        for s, o in self.ev(n.value, st, fr):
            if s.exc:
                out.append((s, None))
            else:
                out.extend(self.attr(o, n.attr, s))
        return out

    def attr(self, o, a, st):
        key = (id(o) if isinstance(o, Inst) else repr(o), a)
        if key in st.fields:
            return [(st, st.fields[key])]
        if isinstance(o, Ty):
            return [(st, Ty(o.n + '.' + a))]
        if isinstance(o, Sl) and a in ('start', 'stop', 'step'):
            return [(st, {'start': o.a, 'stop': o.b, 'step': o.s}[a])]
        if isinstance(o, (Inst, Cls)):
            c = o.cls if isinstance(o, Inst) else o
            f = self.method(c, a)
            if f is not None:
                dec = self.decorated(f)
                if 'property' in dec and isinstance(o, Inst):
                    return self.call_fn(Fn(f, c.mod, None, o, c), [], {}, st)
                if 'staticmethod' in dec:
                    return [(st, Fn(f, c.mod, None, None, c))]
                if 'classmethod' in dec:
                    return [(st, Fn(f, c.mod, None, c, c))]
                return [(st, Fn(f, c.mod, None, o if isinstance(o, Inst) else None, c))]
            for c in self.mro(c):
                for b in c.node.body:
                    if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in b.targets):
                        try:
                            return self.ev(b.value, st, Frame({}, c.mod, None, c))
                        except Undecided:
                            return [(st, Sym('%s.%s' % (c.node.name, a)))]
            return [(st, self.field(o, a, st))]
        if isinstance(o, Arr):
            if a == 'shape':
                return [(st, self.tup(st, o.shape))]
            if a == 'ndim':
                return [(st, I(len(o.shape)))]
            if a == 'dtype':
                return [(st, Sym('dtype of %r' % (o.src,)))]
            return [(st, Bound(o, a))]
        if isinstance(o, (Ref, K, Lin, Sl)):
            return [(st, Bound(o, a))]
        if isinstance(o, Sym):
            return self.sym_attr(o, a, st)
        if isinstance(o, Fn):
            return [(st, Sym('attribute'))]
        raise Undecided('attribute %s of %r' % (a, o))

    def field(self, o, a, st):
        return Sym('%s.%s' % (o.name if isinstance(o, Inst) else o.node.name, a))

    def sym_attr(self, o, a, st):
        return [(st, Sym('%s.%s' % (o.name, a)))]

    # -------------------------------------------------- calls
    def e_Call(self, n, st, fr):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return [(st, Sym('super'))]
        for s, f in self.ev(n.func, st, fr):
            if s.exc:
                out.append((s, None))
                continue
            for s2, args in self.evs(n.args, s, fr):
                if s2.exc:
                    out.append((s2, None))
                    continue
                for s3, kvs in self.evs([k.value for k in n.keywords], s2, fr):
                    if s3.exc:
                        out.append((s3, None))
                        continue
                    kw = {}
                    for k, v in zip(n.keywords, kvs):
                        if k.arg is None:
                            if isinstance(v, Ref) and s3.heap[v.i][0] == 'dict':
                                for kk, vv in list(s3.heap[v.i][1].items()):
                                    if isinstance(kk, K):
                                        kw[kk.v] = vv
                                    else:
                                        raise Undecided('open keyword arguments')
                            else:
                                raise Undecided('keyword arguments')
                        else:
                            kw[k.arg] = v
                    out.extend(self.call(f, args, kw, s3, n, fr))
        return out

    def call(self, f, args, kw, st, n, fr):
        r = self.native(f, args, kw, st, n)
        if r is not None:
            return r
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st)
        if isinstance(f, Cls):
            init = self.method(f, '__init__')
            o = Inst(f, '%s#%d' % (f.node.name, next(_ids)))
            if init is None:
                return [(st, o)]
            return [(s, None if s.exc else o) for s, _ in self.call_fn(Fn(init, f.mod, None, o, f), args, kw, st)]
        if isinstance(f, Bound):
            return self.call_method(f.o, f.n, args, kw, st)
        if isinstance(f, Ty):
            return self.builtin(f.n, args, kw, st)
        if isinstance(f, Sym):
            return [(st, Sym('%s(%s)' % (f.name, ', '.join(map(repr, args)))))]
        raise Undecided('call of %r' % (f,))

    def native(self, f, args, kw, st, n):
        return None

    def apply(self, f, args, st):
        if isinstance(f, Fn):
            return self.call_fn(f, args, {}, st)
        if isinstance(f, Ty):
            return self.builtin(f.n, args, {}, st)
        if isinstance(f, Bound):
            return self.call_method(f.o, f.n, args, {}, st)
        raise Undecided('call')

    def isinst(self, v, t, st):
        """True/False/None"""
        ts = []

        def flat(x):
            if isinstance(x, Ref):
                for y in st.heap[x.i][1]:
                    flat(y)
            elif isinstance(x, Ty):
                ts.append(x.n)
            elif isinstance(x, Cls):
                ts.append(x.node.name)
            elif isinstance(x, Sym) and x.name.startswith('type('):
                ts.append(x.name)
            else:
                raise Undecided('isinstance')
        flat(t)
        if isinstance(v, Inst):
            return v.cls.node.name in ts
        k = self.kind(st, v)
        if k is None:
            return None
        if k not in KINDS:
            return None
        return any(x in KINDS[k] or x.split('.')[-1] in {y.split('.')[-1] for y in KINDS[k]} for x in ts)

    def builtin(self, name, args, kw, st):
        leaf = name.split('.')[-1]
        if name == 'isinstance':
            r = self.isinst(args[0], args[1], st)
            if r is None:
                return [(s, K(b)) for s, b in self.split(('b', 'isinstance', repr(args[0]), repr(args[1])), st)]
            return [(st, K(r))]
        if name == 'type' and len(args) == 1:
            k = self.kind(st, args[0])
            if k == 'ellipsis':
                return [(st, Ty('type(Ellipsis)'))]
            return [(st, Ty({'none': 'NoneType', None: '?'}.get(k, k)))]
        if name == 'len':
            v = args[0]
            if isinstance(v, Ref):
                kd, p = st.heap[v.i]
                if kd == 'dict' and p.get('*'):
                    return [(st, Sym('len'))]
                return [(st, I(len(p)))]
            if isinstance(v, Arr):
                return [(st, v.shape[0])]
            if isinstance(v, K) and isinstance(v.v, str):
                return [(st, I(len(v.v)))]
            return [(st, Sym('len(%r)' % (v,)))]
        if name in ('int', 'operator.index', 'index') and len(args) == 1:
            v = args[0]
            if isinstance(v, Lin):
                return [(st, v)]
            if isinstance(v, Sym) and v.kind in ('npint',):
                return [(st, S(v.name))]
            if isinstance(v, Sym) and v.kind == 'float' or isinstance(v, K) and isinstance(v.v, float):
                if leaf == 'index':
                    return self.fail(st, 'TypeError')
                return [(st, S('int(%r)' % (v,)))]
            if isinstance(v, K) and isinstance(v.v, bool) or isinstance(v, Sym) and v.kind == 'bool':
                return [(st, I(int(v.v)) if isinstance(v, K) else S('int(%r)' % (v,)))]
            if self.kind(st, v) in ('none', 'object', 'list', 'tuple', 'slice', 'ellipsis'):
                return self.fail(st, 'TypeError')
            return [(st, S('int(%r)' % (v,)))]
        if name in ('tuple', 'list', 'set', 'frozenset', 'iter', 'reversed', 'sorted'):
            kd = {'tuple': 'tuple', 'list': 'list', 'set': 'set', 'frozenset': 'set'}.get(name, 'list')
            if not args:
                return [(st, self.new(st, kd, []))]
            if isinstance(args[0], Sym):
                return [(st, args[0])]
            xs = self.items(st, args[0])
            if name == 'reversed':
                xs = xs[::-1]
            if name == 'sorted':
                if all(isinstance(x, Lin) and x.const() for x in xs):
                    xs.sort(key=lambda x: x.c)
                elif all(isinstance(x, K) and isinstance(x.v, str) for x in xs):
                    xs.sort(key=lambda x: x.v)
                else:
                    raise Undecided('sorted')
            return [(st, self.new(st, kd, xs))]
        if name == 'dict':
            d = {}
            if args:
                if not isinstance(args[0], Ref):
                    raise Undecided('dict')
                kd, p = st.heap[args[0].i]
                if kd == 'dict':
                    d.update(p)
                else:
                    for x in p:
                        k, v = self.items(st, x)
                        d[k] = v
            d.update({K(k): v for k, v in kw.items()})
            return [(st, self.new(st, 'dict', d))]
        if name == 'zip':
            xs = [self.items(st, a) for a in args]
            return [(st, self.new(st, 'list', [self.tup(st, t) for t in zip(*xs)]))]
        if name == 'enumerate':
            b = args[1].c if len(args) > 1 else kw['start'].c if 'start' in kw else 0
            return [(st, self.new(st, 'list', [self.tup(st, [I(i + b), x]) for i, x in enumerate(self.items(st, args[0]))]))]
        if name == 'range':
            if not all(isinstance(a, Lin) and a.const() for a in args):
                raise Undecided('symbolic range')
            return [(st, self.new(st, 'list', [I(i) for i in range(*[a.c for a in args])]))]
        if name == 'map':
            cur = [(st, [])]
            for xs in zip(*[self.items(st, a) for a in args[1:]]):
                nx = []
                for s, acc in cur:
                    if s.exc:
                        nx.append((s, acc))
                        continue
                    for s2, v in self.apply(args[0], list(xs), s):
                        nx.append((s2, acc + [v]))
                cur = nx
            return [(s, None if s.exc else self.new(s, 'list', acc)) for s, acc in cur]
        if name in ('any', 'all'):
            cur, out = [st], []
            for x in self.items(st, args[0]):
                nx = []
                for s in cur:
                    for s2, b in self.truth(x, s):
                        if b == (name == 'any'):
                            out.append((s2, K(name == 'any')))
                        else:
                            nx.append(s2)
                cur = nx
            return out + [(s, K(name == 'all')) for s in cur]
        if name in ('sum',):
            r = I(0)
            cur = [(st, I(0))]
            for x in self.items(st, args[0]):
                nx = []
                for s, acc in cur:
                    if isinstance(x, K) and isinstance(x.v, bool):
                        x = I(int(x.v))
                    if isinstance(x, Lin):
                        nx.append((s, acc + x))
                    elif isinstance(x, tuple):
                        nx.extend((s2, acc + I(int(b))) for s2, b in self.truth(x, s))
                    else:
                        raise Undecided('sum')
                cur = nx
            return cur
        if name in ('min', 'max') or leaf in ('minimum', 'maximum') and len(args) == 2:
            xs = self.items(st, args[0]) if len(args) == 1 else list(args)
            if not xs or not all(isinstance(x, Lin) for x in xs):
                if any(x == NONE for x in xs):
                    return self.fail(st, 'TypeError')
                raise Undecided('min/max')
            cur = [(st, xs[0])]
            for x in xs[1:]:
                nx = []
                for s, m in cur:
                    for s2, b in self.compare_lin('<' if leaf.startswith('min') else '>', x, m, s):
                        nx.append((s2, x if b else m))
                cur = nx
            return cur
        if name == 'abs':
            if not isinstance(args[0], Lin):
                raise Undecided('abs')
            return [(s, -args[0] if b else args[0]) for s, b in self.compare_lin('<', args[0], I(0), st)]
        if name == 'slice':
            a = list(args) if len(args) > 1 else [NONE] + list(args)
            return [(st, Sl(a[0], a[1], a[2] if len(a) > 2 else NONE))]
        if name == 'bool' and args:
            return [(s, K(b)) for s, b in self.truth(args[0], st)]
        if name in ('str', 'repr', 'format'):
            if args and isinstance(args[0], K) and isinstance(args[0].v, str):
                return [(st, args[0])]
            return [(st, Sym('%s(%r)' % (name, args[0] if args else ''), 'str'))]
        if name in ('getattr',) and isinstance(args[1], K):
            return self.attr(args[0], args[1].v, st)
        if leaf in ('squeeze', 'reshape', 'ravel') and name.startswith('np.') and args and isinstance(args[0], Arr):
            return self.call_method(args[0], leaf, args[1:], kw, st)
        if name in ('print', 'warnings.warn'):
            return [(st, NONE)]
        if name in ('callable', 'hasattr'):
            return [(s, K(b)) for s, b in self.split(('b', name, repr(args)), st)]
        return self.unknown_call(name, args, kw, st)

    def unknown_call(self, name, args, kw, st):
        return [(st, Sym('%s(%s)' % (name, ', '.join(map(repr, args)))))]

    def call_method(self, o, m, args, kw, st):
        if isinstance(o, Ref):
            kd, p = st.heap[o.i]
            if kd in ('list', 'set'):
                if m in ('append', 'add'):
                    s = st.copy()
                    s.heap[o.i][1].append(args[0])
                    return [(s, NONE)]
                if m in ('extend', 'update'):
                    s = st.copy()
                    s.heap[o.i][1].extend(self.items(s, args[0]))
                    return [(s, NONE)]
                if m == 'insert' and args[0].const():
                    s = st.copy()
                    s.heap[o.i][1].insert(args[0].c, args[1])
                    return [(s, NONE)]
                if m == 'pop':
                    i = args[0].c if args else -1
                    if not p:
                        return self.fail(st, 'IndexError')
                    s = st.copy()
                    v = s.heap[o.i][1].pop(i)
                    return [(s, v)]
                if m == 'copy':
                    return [(st, self.new(st, kd, list(p)))]
                if m == 'reverse':
                    s = st.copy()
                    s.heap[o.i][1].reverse()
                    return [(s, NONE)]
                if m in ('difference',):
                    return [(st, self.new(st, 'set', [x for x in p if x not in self.items(st, args[0])]))]
                if m in ('issubset', 'issuperset'):
                    a, b = set(p), set(self.items(st, args[0]))
                    return [(st, K(a <= b if m == 'issubset' else a >= b))]
            if m in ('index', 'count') and kd in ('list', 'tuple'):
                cur, out = [(st, 0)], []
                for i, x in enumerate(p):
                    nx = []
                    for s, k in cur:
                        for s2, r in self.compare(ast.Eq(), x, args[0], s):
                            if r is True and m == 'index':
                                out.append((s2, I(i)))
                            else:
                                nx.append((s2, k + (r is True)))
                    cur = nx
                if m == 'count':
                    return [(s, I(k)) for s, k in cur]
                for s, _ in cur:
                    out += self.fail(s, 'ValueError')
                return out
            if kd == 'dict':
                if m in ('get', 'pop', 'setdefault') and isinstance(args[0], K):
                    if args[0] in p:
                        v = p[args[0]]
                        if m == 'pop':
                            st = st.copy()
                            del st.heap[o.i][1][args[0]]
                        return [(st, v)]
                    if p.get('*'):
                        return [(st, Sym('%r.get(%r)' % (o, args[0])))]
                    if m == 'setdefault':
                        st = st.copy()
                        st.heap[o.i][1][args[0]] = args[1] if len(args) > 1 else NONE
                        return [(st, st.heap[o.i][1][args[0]])]
                    if m == 'pop' and len(args) < 2:
                        return self.fail(st, 'KeyError')
                    return [(st, args[1] if len(args) > 1 else NONE)]
                if m == 'update':
                    s = st.copy()
                    for a in args:
                        k2, p2 = s.heap[a.i]
                        if k2 != 'dict':
                            raise Undecided('update')
                        s.heap[o.i][1].update(p2)
                    s.heap[o.i][1].update({K(k): v for k, v in kw.items()})
                    return [(s, NONE)]
                if p.get('*') and m in ('items', 'keys', 'values'):
                    raise Undecided('open dict')
                if m == 'items':
                    return [(st, self.new(st, 'list', [self.tup(st, [k, v]) for k, v in p.items()]))]
                if m == 'keys':
                    return [(st, self.new(st, 'set', list(p)))]
                if m == 'values':
                    return [(st, self.new(st, 'list', list(p.values())))]
                if m == 'copy':
                    return [(st, self.new(st, 'dict', dict(p)))]
        if isinstance(o, Sl) and m == 'indices':
            return self.slice_indices(o, args[0], st)
        if isinstance(o, Arr):
            if m == 'squeeze':
                ax = args[0] if args else kw.get('axis')
                if ax is None:
                    # every axis of extent one
                    cur = [(st, [])]
                    for d, x in enumerate(o.shape):
                        if not isinstance(x, Lin):
                            raise Undecided('squeeze of all axes')
                        cur = [(s2, acc + [d] if b else acc) for s, acc in cur for s2, b in self.compare_lin('==', x, I(1), s)]
                    return [(s, Arr([x for i, x in enumerate(o.shape) if i not in acc], ('index', o, tuple(acc)))) for s, acc in cur]
                ax = self.items(st, ax) if isinstance(ax, Ref) else [ax]
                if not all(isinstance(x, Lin) and x.const() for x in ax):
                    raise Undecided('squeeze')
                ax = {x.c % len(o.shape) for x in ax}
                return [(st, Arr([x for i, x in enumerate(o.shape) if i not in ax], ('index', o, tuple(sorted(ax)))))]
            if m in ('flatten', 'ravel'):
                return [(st, Arr([Sym('n')], ('flat', o)))]
            if m == 'item':
                return [(st, Arr([], ('scalar', o)))]
            if m == 'reshape':
                sh = self.items(st, args[0]) if isinstance(args[0], Ref) else list(args)
                return [(st, Arr(sh, ('reshape', o)))]
            if m in ('astype', 'copy', 'view'):
                return [(st, Arr(o.shape, o.src))]
            return [(st, Sym('%r.%s' % (o, m)))]
        if isinstance(o, K) and isinstance(o.v, str):
            if m == 'join' and len(args) == 1 and isinstance(args[0], Ref):
                xs = self.items(st, args[0])
                if all(isinstance(x, K) and isinstance(x.v, str) for x in xs):
                    return [(st, K(o.v.join(x.v for x in xs)))]
            if m == 'format' or m == 'join':
                return [(st, Sym('text', 'str'))]
            if all(isinstance(a, K) and isinstance(a.v, str) or isinstance(a, Lin) and a.const() for a in args):
                r = getattr(o.v, m)(*[a.v if isinstance(a, K) else int(a.c) for a in args])
                if isinstance(r, tuple):
                    return [(st, self.tup(st, [K(x) for x in r]))]
                if isinstance(r, (str, bool)):
                    return [(st, K(r))]
                if isinstance(r, int):
                    return [(st, I(r))]
                if isinstance(r, list):
                    return [(st, self.new(st, 'list', [K(x) for x in r]))]
        if isinstance(o, Lin) and m == '__index__':
            return [(st, o)]
        return [(st, Sym('%r.%s(%s)' % (o, m, ', '.join(map(repr, args)))))]

    def slice_indices(self, sl, n, st):
        """slice.indices for step None / 1"""
        out = []
        for s, ok in ([(st, True)] if sl.s in (NONE, I(1)) else self.compare_lin('==', sl.s, I(1), st) if isinstance(sl.s, Lin) else [(st, False)]):
            if not ok:
                raise Undecided('slice.indices with a step')

            def norm(x, default, s):
                if x == NONE:
                    return [(s, default)]
                if not isinstance(x, Lin):
                    raise Undecided('slice.indices')
                res = []
                for s2, neg in self.compare_lin('<', x, I(0), s):
                    if neg:
                        for s3, far in self.compare_lin('<', x + n, I(0), s2):
                            res.append((s3, I(0) if far else x + n))
                    else:
                        for s3, big in self.compare_lin('>', x, n, s2):
                            res.append((s3, n if big else x))
                return res
            for s2, a in norm(sl.a, I(0), s):
                for s3, b in norm(sl.b, n, s2):
                    out.append((s3, self.tup(s3, [a, b, I(1)])))
        return out


class Frame:
    """local variables; forked at branches so that paths do not see each other's assignments"""
    def __init__(self, env, mod, up, cls):
        self.env, self.mod, self.up, self.cls = env, mod, up, cls

    def fork(self, nested=False):
        return Frame(dict(self.env), self.mod, self.up, self.cls)
