"""A bounded-disjunctive abstract interpreter over the resolved trees.

Values are terms (nested tuples); a state maps locations to terms, holds the set of
branch facts that are known to be true on the path, and a set of pending typestate
obligations.  Helper functions of the project are inlined, so the verdict does not
depend on how the code is cut into functions; loops are run from a havoc'd state and
leave universally quantified facts behind.  Nothing is executed and no path is handed
to a solver: facts are decided by look-up and by adding up linear inequalities.
"""
import itertools

TRUE, FALSE = ('c', True), ('c', False)
NULL = ('c', None)
VOID = ('c', 'void')

MOVE_FNS = {'std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::move_if_noexcept', 'std::addressof'}
CMP = {'==', '!=', '<', '>', '<=', '>='}


def is_c(t):
    return isinstance(t, tuple) and len(t) == 2 and t[0] == 'c'


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x[1:] if x and isinstance(x[0], str) else x)


def mentions(t, sub):
    return any(x == sub for x in subterms(t))


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def root_of(l):
    while isinstance(l, tuple) and l[0] in ('f', 'idx', 'deref', 'ver', 'addr'):
        l = l[1]
    return l


def mk_not(t):
    if is_c(t):
        return ('c', not t[1])
    if t[0] == 'not':
        return t[1]
    return ('not', t)


def _key(t):
    return repr(t)


def mk_cmp(op, a, b):
    if op == '!=':
        return mk_not(mk_cmp('==', a, b))
    if op == '>':
        return mk_cmp('<', b, a)
    if op == '<=':
        return mk_not(mk_cmp('<', b, a))
    if op == '>=':
        return mk_not(mk_cmp('<', a, b))
    if is_c(a) and is_c(b):
        try:
            return ('c', a[1] == b[1]) if op == '==' else ('c', a[1] < b[1])
        except TypeError:
            pass
    if op == '==':
        if a == b:
            return TRUE
        # pointer/boolean comparisons with constants
        if is_c(b) and isinstance(b[1], bool):
            return a if b[1] else mk_not(a)
        if is_c(a) and isinstance(a[1], bool):
            return b if a[1] else mk_not(b)
        if is_c(a) or (not is_c(b) and _key(b) < _key(a)):
            a, b = b, a
        return ('==', a, b)
    if a == b:
        return FALSE
    return ('<', a, b)


def truth(t, ty=''):
    """a value used as a condition"""
    if is_c(t):
        return ('c', bool(t[1]))
    if t[0] in ('==', '<', 'not', 'and', 'or', 'okstream', 'bool'):
        return t
    return t


# ---------------------------------------------------------------- linear facts
def lin(t):
    """term -> ({atom: coef}, const) over the integers"""
    if is_c(t):
        if isinstance(t[1], bool):
            return {}, int(t[1])
        if isinstance(t[1], int):
            return {}, t[1]
        return {t: 1}, 0
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
        a, ca = lin(t[2])
        b, cb = lin(t[3])
        s = 1 if t[1] == '+' else -1
        r = dict(a)
        for k, v in b.items():
            r[k] = r.get(k, 0) + s * v
            if r[k] == 0:
                del r[k]
        return r, ca + s * cb
    if t[0] == 'op' and t[1] == '*':
        a, ca = lin(t[2])
        b, cb = lin(t[3])
        if not a:
            return {k: v * ca for k, v in b.items() if v * ca}, ca * cb
        if not b:
            return {k: v * cb for k, v in a.items() if v * cb}, ca * cb
    return {t: 1}, 0


def lin_sub(a, b):
    r = dict(a[0])
    for k, v in b[0].items():
        r[k] = r.get(k, 0) - v
        if r[k] == 0:
            del r[k]
    return r, a[1] - b[1]


def le_forms(lit, pol):
    """linear forms L with L <= 0 implied by the literal"""
    if lit[0] == 'not':
        return le_forms(lit[1], not pol)
    if lit[0] == '<':
        if pol:   # a < b  -> a-b+1 <= 0
            d = lin_sub(lin(lit[1]), lin(lit[2]))
            return [(d[0], d[1] + 1)]
        return [lin_sub(lin(lit[2]), lin(lit[1]))]      # b <= a
    if lit[0] == '==' and pol:
        d = lin_sub(lin(lit[1]), lin(lit[2]))
        return [d, ({k: -v for k, v in d[0].items()}, -d[1])]
    return []


class State:
    __slots__ = ('store', 'facts', 'pend', 'tags', 'foralls')

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.pend = {}
        self.tags = {}
        self.foralls = frozenset()

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.pend = dict(self.pend)
        s.tags = dict(self.tags)
        s.foralls = self.foralls
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), frozenset(self.pend),
                frozenset(self.tags.items()), self.foralls)

    # --- facts
    def known(self, t):
        if is_c(t):
            return bool(t[1])
        if t[0] == 'not':
            k = self.known(t[1])
            return None if k is None else (not k)
        if t[0] == 'and':
            a, b = self.known(t[1]), self.known(t[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
        if t[0] == 'or':
            a, b = self.known(t[1]), self.known(t[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
        if t in self.facts:
            return self.facts[t]
        if t[0] == '==':
            x, c = t[1], t[2]
            if is_c(c):
                for f, p in self.facts.items():
                    if p and f[0] == '==' and f[1] == x and is_c(f[2]) and f[2] != c:
                        return False
        return None

    def assume(self, t, pol=True):
        """False when contradictory"""
        if is_c(t):
            return bool(t[1]) == pol
        if t[0] == 'not':
            return self.assume(t[1], not pol)
        if t[0] == 'and' and pol:
            return self.assume(t[1]) and self.assume(t[2])
        if t[0] == 'or' and not pol:
            return self.assume(t[1], False) and self.assume(t[2], False)
        k = self.known(t)
        if k is not None:
            return k == pol
        self.facts[t] = pol
        if any(f[0] == 'fimp' and f[1] == t and f[2] == pol for f in self.foralls):
            self.foralls = self.foralls | frozenset(('forall',) + f[3:] for f in self.foralls if f[0] == 'fimp' and f[1] == t and f[2] == pol)
        # unit propagation through compound facts
        for f, p in list(self.facts.items()):
            if f[0] == 'and' and p is False:
                a, b = self.known(f[1]), self.known(f[2])
                if a and b is None:
                    if not self.assume(f[2], False):
                        return False
                elif b and a is None:
                    if not self.assume(f[1], False):
                        return False
            elif f[0] == 'or' and p:
                a, b = self.known(f[1]), self.known(f[2])
                if a is False and b is None:
                    if not self.assume(f[2]):
                        return False
                elif b is False and a is None:
                    if not self.assume(f[1]):
                        return False
        return True

    def les(self, unsigned=None):
        out = []
        for f, p in self.facts.items():
            out.extend(le_forms(f, p))
        return out

    def entails_le(self, a, b, strict=False, extra=(), nonneg=None, depth=3):
        """a <= b (a < b when strict) by adding up at most `depth` known inequalities"""
        g = lin_sub(lin(a), lin(b))
        if strict:
            g = (g[0], g[1] + 1)
        facts = self.les() + list(extra)

        def ok(form, left):
            co, c = form
            co = {k: v for k, v in co.items() if v}
            if not co:
                return c <= 0
            # -x <= 0 for unsigned atoms
            if nonneg and c <= 0 and all(v < 0 and nonneg(k) for k, v in co.items()):
                return True
            if left == 0:
                return False
            for fco, fc in facts:
                # subtract the fact (fact <= 0): form = fact + rest -> need rest <= 0
                if not any(k in co and (co[k] > 0) == (v > 0) for k, v in fco.items()):
                    continue
                r = dict(co)
                for k, v in fco.items():
                    r[k] = r.get(k, 0) - v
                    if r[k] == 0:
                        del r[k]
                if len(r) > len(co) + 1:
                    continue
                if ok((r, c - fc), left - 1):
                    return True
            return False
        return ok(g, depth)


class Frame:
    __slots__ = ('fn', 'env', 'this', 'cls', 'parent', 'id', 'caller_line')

    def __init__(self, fn, this, cls, parent, fid):
        self.fn, self.this, self.cls, self.parent, self.id = fn, this, cls, parent, fid
        self.env = dict(parent.env) if parent else {}
        self.caller_line = None


class Interp:
    CAP = 24
    MAXDEPTH = 9

    # exceptions out of calls that are not analysed reach the handlers around them
    implicit_exc = True
    any_exc = False        # an unknown exception may be of a type no handler names

    def __init__(self, unit):
        self.u = unit
        self.uid = itertools.count(1)
        self.frames = []
        self.thr = None            # current collector of thrown states
        self.lams = {}             # lambda term -> (node, frame, env)
        self.quiet = 0             # >0 while iterating towards a loop fixpoint
        self.unsigned = set()
        self.stack = []
        self.stats = {'functions': set(), 'calls': 0, 'paths': 0, 'inlined': 0}
        self.visited_calls = set()
        self.notes = []

    # ----------------------------------------------------------- hooks (override)
    def inline_ok(self, fn):
        return True

    def model(self, st, name, call, obj, args):
        """return None (default handling) or a list of (state, value)"""
        return None

    def on_call(self, st, name, call, obj, args, fn):
        """observer, before the call takes effect"""

    def on_throw(self, st, exc, node):
        pass

    def on_return(self, st, val, fn):
        """observer at every normal exit of the analysed root"""

    def on_store(self, st, l, val, node):
        pass

    def resolve_pend(self, st):
        """drop the obligations that are discharged by the facts of this state"""
        for k in list(st.pend):
            if st.pend[k](st):
                del st.pend[k]

    # ----------------------------------------------------------- helpers
    def fresh(self, tag, *a):
        return ('u', tag, next(self.uid)) + a

    def ty(self, n):
        return self.u.ty(n.get('t', -1))

    def report_ok(self):
        return self.quiet == 0

    @property
    def frame(self):
        return self.frames[-1]

    def where(self, node=None):
        f = self.frame.fn
        return '%s:%d' % (f['file'], (node or f).get('l') or f['l'])

    def merge(self, states):
        """keep at most CAP states; identical ones once; the rest joined"""
        out, seen = [], set()
        for s in states:
            self.resolve_pend(s)
            k = s.key()
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) <= self.CAP:
            return out
        keep, rest = out[:self.CAP - 1], out[self.CAP - 1:]
        return keep + [self.join(rest)]

    def join(self, states):
        j = states[0].copy()
        for s in states[1:]:
            for k in list(j.facts):
                if s.facts.get(k) != j.facts[k]:
                    del j.facts[k]
            for k in set(j.store) | set(s.store):
                a, b = j.store.get(k, k), s.store.get(k, k)
                if a != b:
                    if isinstance(a, tuple) and a[0] == 'u' and a[1] == 'phi' and a[3] == k:
                        continue
                    j.store[k] = self.fresh('phi', k)
            j.pend.update(s.pend)
            j.foralls = j.foralls & s.foralls
            for k in set(j.tags) | set(s.tags):
                if j.tags.get(k) != s.tags.get(k):
                    if k in j.tags and k in s.tags:
                        j.tags[k] = 'mixed'
                    elif k.startswith('may:') if isinstance(k, str) else (isinstance(k, tuple) and k[0] == 'may'):
                        j.tags[k] = j.tags.get(k, s.tags.get(k))
                    else:
                        j.tags.pop(k, None)
        return j

    # ----------------------------------------------------------- store
    def rd(self, st, l):
        if l in st.store:
            return st.store[l]
        if l[0] in ('f', 'idx'):
            b = l[1]
            bv = st.store.get(b)
            if bv is not None and bv != b:
                if l[0] == 'f':
                    return self.rd(st, ('f', bv, l[2]))
                return self.rd(st, ('idx', bv, l[2]))
            if b[0] in ('f', 'idx') and b not in st.store:
                bv = self.rd(st, b)
                if bv != b:
                    return self.rd(st, (l[0], bv, l[2]))
            # element of a known list
            if l[0] == 'idx' and b[0] == 'listv' and is_c(l[2]) and isinstance(l[2][1], int) and l[2][1] < len(b[1]):
                return b[1][l[2][1]]
        return l

    def wr(self, st, l, v, node=None):
        # forget everything stored below l
        for k in list(st.store):
            if k != l and isinstance(k, tuple) and k[0] in ('f', 'idx', 'size', 'cap') and self.below(k, l):
                del st.store[k]
        st.store[l] = v
        self.on_store(st, l, v, node)

    def below(self, k, l):
        while isinstance(k, tuple) and k[0] in ('f', 'idx', 'size', 'cap'):
            k = k[1]
            if k == l:
                return True
        return False

    def havoc(self, st, l, node=None):
        """l was handed out for modification"""
        if not isinstance(l, tuple):
            return
        if l[0] == 'addr':
            l = l[1]
        if l[0] in ('c', 'lam', 'op', 'call', 'listv'):
            return
        self.wr(st, l, ('ver', l, next(self.uid)), node)

    def copy_fields(self, st, src, dst):
        for k in list(st.store):
            if isinstance(k, tuple) and k[0] in ('f', 'idx', 'size') and self.below(k, src):
                st.store[subst(k, src, dst)] = st.store[k]

    # ----------------------------------------------------------- running a root
    def run(self, fn, this=None, args=None, pre=None):
        """interpret fn from an unconstrained state; returns outcomes"""
        st = State()
        self.stats['functions'].add(fn['fid'])
        fr = Frame(fn, this or ('this',), fn.get('cls'), None, next(self.uid))
        for i, p in enumerate(fn['params']):
            fr.env[p['d']] = (args[i] if args and i < len(args) and args[i] is not None else ('par', p['n'] or str(i), i))
        if pre:
            pre(st, fr)
        self.frames = [fr]
        self.stack = [fn['fid']]
        self.thr = []
        outs = []
        sts = [st]
        if fn.get('inits'):
            sts = self.ctor_inits(fn, sts)
        for s in sts:
            outs.extend(self.exec(fn.get('body'), s))
        res = {'ret': [], 'thr': []}
        for kind, s, v in outs:
            self.resolve_pend(s)
            if kind in ('norm', 'ret'):
                res['ret'].append((s, v))
                self.stats['paths'] += 1
                self.on_return(s, v, fn)
        for s, e in self.thr:
            self.resolve_pend(s)
            res['thr'].append((s, e))
        self.frames = []
        return res

    # ----------------------------------------------------------- statements
    def exec(self, n, st):
        """-> list of (kind, state, value), kind in norm/ret/brk/cont"""
        if n is None:
            return [('norm', st, None)]
        k = n['k']
        m = getattr(self, 'x_' + k, None)
        if m:
            return m(n, st)
        # expression statement
        return [('norm', s, None) for s, _ in self.ev(n, st)]

    def seq(self, stmts, states):
        outs = []
        cur = states
        for c in stmts:
            nxt = []
            for s in cur:
                for kind, s2, v in self.exec(c, s):
                    if kind == 'norm':
                        nxt.append(s2)
                    else:
                        outs.append((kind, s2, v))
            cur = self.merge(nxt)
            if not cur:
                break
        return outs, cur

    def x_seq(self, n, st):
        outs, cur = self.seq(n['b'], [st])
        return outs + [('norm', s, None) for s in cur]

    def x_unk(self, n, st):
        if 't' in n:
            return [('norm', s, None) for s, _ in self.e_unk(n, st)]
        return self.x_seq(n, st)

    def x_null(self, n, st):
        return [('norm', st, None)]

    def x_label(self, n, st):
        return self.exec(n['s'], st)

    def x_case(self, n, st):
        return self.exec(n.get('s'), st)

    x_default = x_case

    def x_decl(self, n, st):
        cur = [st]
        for v in n['v']:
            nxt = []
            for s in cur:
                nxt.extend(self.vardecl(v, s))
            cur = self.merge(nxt)
        return [('norm', s, None) for s in cur]

    def vardecl(self, v, st):
        t = self.u.ty(v['t'])
        l = ('v', v['d'], v['n'], self.frame.id)
        isref = t.endswith('&')
        if v.get('static') or v.get('tls'):
            l = ('g', v['n'], v['d'])
            self.frame.env[v['d']] = l
            if 'init' in v:
                for _ in self.ev(v['init'], st.copy()):
                    pass
            return [st]
        self.frame.env[v['d']] = l
        # a new object each time the declaration is reached
        for k in list(st.store):
            if k == l or (isinstance(k, tuple) and k[0] in ('f', 'idx', 'size', 'cap') and self.below(k, l)):
                del st.store[k]
        out = []
        if 'init' not in v:
            st.store[l] = self.fresh('uninit', v['n'])
            res = [st]
        elif isref:
            res = []
            for s, tl in self.lv(v['init'], st):
                # reference: alias the location
                s.store[('alias', l)] = tl
                res.append(s)
        else:
            res = []
            for s, val in self.ev(v['init'], st, dst=l):
                if val == ('inplace', l):
                    pass
                else:
                    self.bind_value(s, l, val, v)
                res.append(s)
        if v.get('bind'):
            for b in v['bind']:
                self.frame.env[b['d']] = ('f', l, b['n'])
        return res

    def bind_value(self, s, l, val, node):
        s.store[l] = val
        if val[0] in ('v', 'f', 'par', 'obj', 'idx', 'this', 'ver') and val != l:
            self.copy_fields(s, val, l)
        self.on_store(s, l, val, node)

    def x_ret(self, n, st):
        if n.get('e') is None:
            return [('ret', st, VOID)]
        fr = self.frame
        rt = self.u.ty(fr.fn.get('rt', -1))
        if rt.endswith('&'):
            return [('ret', s, v) for s, v in self.lv(n['e'], st)]
        return [('ret', s, v) for s, v in self.ev(n['e'], st)]

    def x_break(self, n, st):
        return [('brk', st, None)]

    def x_continue(self, n, st):
        return [('cont', st, None)]

    def x_if(self, n, st):
        cur = [st]
        for key in ('init', 'cvar'):
            if n.get(key) is not None:
                _, cur = self.seq([n[key]], cur)
        if n.get('k2') == 'resolved':
            outs = []
            for s in cur:
                outs.extend(self.exec(n.get('then'), s))
            return outs
        outs = []
        for s in cur:
            ts, fs = self.branch(n['c'], s)
            for t in ts:
                outs.extend(self.exec(n.get('then'), t))
            for f in fs:
                outs.extend(self.exec(n.get('else'), f))
        return outs

    def branch(self, c, st):
        """evaluate a condition: (states where true, states where false)"""
        T, F = [], []
        for s, v in self.ev(c, st):
            v = self.condval(v)
            k = s.known(v)
            if k is True:
                T.append(s)
            elif k is False:
                F.append(s)
            else:
                a, b = s, s.copy()
                if a.assume(v, True):
                    T.append(a)
                if b.assume(v, False):
                    F.append(b)
        return self.merge(T), self.merge(F)

    def condval(self, v):
        if is_c(v):
            return ('c', bool(v[1]) if v[1] is not None else False)
        return v

    # loops ------------------------------------------------------------
    def loop(self, st, cond, body, inc, node, pre=None, post_cond=False, quant=None):
        """generic loop; `pre(state)` binds the loop variable of a range-for"""
        self.quiet += 1
        entry = st.copy()
        changed = set()
        saved_thr = self.thr
        for _ in range(4):
            probe = self.widen(entry, changed)
            self.thr = []
            outs = self.one_iter(probe, cond, body, inc, pre, post_cond)[0]
            new = set()
            for s in outs:
                for k in set(s.store) | set(probe.store):
                    if s.store.get(k, k) != probe.store.get(k, k) and not (isinstance(k, tuple) and k[0] == 'alias'):
                        new.add(k)
            new = {k for k in new if not self.local_to_body(k, entry)}
            if new <= changed:
                break
            changed |= new
        self.quiet -= 1
        self.thr = saved_thr
        head = self.widen(entry, changed)
        tags0 = dict(head.tags)
        ends, brk, rets, exits = self.one_iter(head.copy(), cond, body, inc, pre, post_cond)
        # universally quantified facts
        fa = set()
        for i, hi in self.inductions(entry, head, changed, ends, exits, quant):
            dec = isinstance(i, tuple) and i[0] == 'op'
            sym = i[2] if dec else i

            def gen(f, i=i, dec=dec, sym=sym):
                f = subst(f, i, ('bv',))
                return None if dec and mentions(f, sym) else f

            def news(s):
                out = set()
                for f, p in s.facts.items():
                    if head.facts.get(f) != p and mentions(f, i):
                        g = gen(f)
                        if g is not None:
                            out.add((g, p))
                return out
            common = None
            for s in ends:
                common = news(s) if common is None else (common & news(s))
            for f, p in common or ():
                fa.add(('forall', hi, f, p))
            # the same facts, guarded by a flag that was only left alone when they held
            for k in changed:
                e0 = self.rd(entry, k) if isinstance(k, tuple) and k[0] in ('v', 'f') else None
                if e0 not in (TRUE, FALSE):
                    continue
                good, hv = e0 == TRUE, head.store[k]
                common = None
                for s in ends:
                    v = self.condval(s.store.get(k, k))
                    s2 = s.copy()
                    if not s2.assume(v, good):
                        continue
                    if s2.known(hv) is not good and v != hv:
                        common = set()      # the flag may be set back
                        break
                    common = news(s2) if common is None else (common & news(s2))
                for f, p in common or ():
                    fa.add(('fimp', hv, good, hi, f, p))
        inner = None
        for s in ends:
            fs = s.foralls - head.foralls
            inner = fs if inner is None else (inner & fs)
        if quant or ends:
            for f in inner or ():
                fa.add(f)
        exit_states = []
        for s in exits:
            s.foralls = s.foralls | frozenset(fa)
            # obligations and 'may' tags raised inside the body survive the loop
            for e in ends:
                s.pend.update(e.pend)
                for k, v in e.tags.items():
                    if isinstance(k, tuple) and k[0] == 'may':
                        s.tags.setdefault(k, v)
            exit_states.append(s)
        res = [('norm', s, None) for s in self.merge(exit_states + brk)]
        return res + rets

    def inductions(self, entry, head, changed, ends, exits, quant):
        """(index term, bound): the loop visits every index term value in [0, bound) before it is left through its condition"""
        q = quant(entry, head, changed) if quant else None
        if q:
            return [q]
        out = []
        if not ends:
            return out
        for k in changed:
            i = head.store.get(k)
            e0 = self.rd(entry, k) if isinstance(k, tuple) and k[0] in ('v', 'f', 'par') else None
            if e0 is None or i is None:
                continue
            vals = {s.store.get(k) for s in ends}
            if vals == {self.arith('+', i, ('c', 1))} and e0 == ('c', 0):
                his = None
                for s in exits:
                    h = {f[2] for f, p in s.facts.items() if f[0] == '<' and f[1] == i and not p} | \
                        {(f[2] if f[1] == i else f[1]) for f, p in s.facts.items() if f[0] == '==' and i in f[1:] and p}
                    his = h if his is None else his & h
                out.extend((i, h) for h in his or () if not mentions(h, i))
            elif vals == {self.arith('-', i, ('c', 1))} and exits:
                if all(s.known(mk_cmp('<', ('c', 0), i)) is False or s.known(('==', i, ('c', 0))) for s in exits):
                    out.append((('op', '-', i, ('c', 1)), e0))
                elif all(s.known(mk_cmp('<', i, ('c', 0))) for s in exits) and e0[0] == 'op' and e0[1] == '-' and e0[3] == ('c', 1):
                    out.append((i, e0[2]))
        return out

    def local_to_body(self, k, entry):
        r = root_of(k if k[0] != 'size' else k[1])
        return r[0] == 'v' and r[3] == self.frame.id and r not in entry.store and ('alias', r) not in entry.store and \
            not any(isinstance(x, tuple) and self.below(x, r) for x in entry.store)

    def widen(self, st, changed):
        s = st.copy()
        for k in changed:
            if k in s.store or True:
                s.store[k] = self.fresh('loop', k)
        return s

    def one_iter(self, st, cond, body, inc, pre, post_cond):
        """-> (states at the end of the body, break states, other outcomes, exit states)"""
        exits, ends, brk, rets = [], [], [], []
        if post_cond:
            starts = [st]
        elif cond is not None:
            T, F = self.branch(cond, st.copy())
            starts, exits = T, F
        else:
            starts = [st.copy()]
            exits = [st.copy()] if pre else []
        if pre:
            starts = [x for s in starts for x in pre(s)]
        for s in starts:
            for kind, s2, v in self.exec(body, s):
                if kind in ('norm', 'cont'):
                    nx = [s2]
                    if inc is not None:
                        nx = [x for x, _ in self.ev(inc, s2)]
                    ends.extend(nx)
                elif kind == 'brk':
                    brk.append(s2)
                else:
                    rets.append((kind, s2, v))
        ends = self.merge(ends)
        if post_cond:
            e2 = []
            for s in ends:
                T, F = self.branch(cond, s)
                e2.extend(T)
                exits.extend(F)
            ends = e2
        return ends, brk, rets, exits

    def x_for(self, n, st):
        _, cur = self.seq([n['init']] if n.get('init') else [], [st])
        res = []
        for s in cur:
            res.extend(self.loop(s, n.get('c'), n['body'], n.get('inc'), n))
        return res

    def x_while(self, n, st):
        body = n['body']
        if n.get('cvar') is not None:
            body = {'k': 'seq', 'b': [n['cvar'], body]}
            return self.loop(st, None, body, None, n, pre=lambda s: [s])
        return self.loop(st, n['c'], body, None, n)

    def x_do(self, n, st):
        return self.loop(st, n['c'], n['body'], None, n, post_cond=True)

    def x_rfor(self, n, st):
        res = []
        for s, rng in self.lv(n['range'], st):
            i = self.fresh('it')
            rv = rng

            def pre(s2, rng=rng, i=i):
                v = n['var']
                l = ('v', v['d'], v['n'], self.frame.id)
                self.frame.env[v['d']] = l
                el = ('idx', rng, i)
                t = self.u.ty(v['t'])
                if t.endswith('&'):
                    s2.store[('alias', l)] = el
                else:
                    s2.store[l] = self.rd(s2, el)
                for b in v.get('bind', ()):
                    self.frame.env[b['d']] = ('f', el, b['n'])
                return [s2]
            sz = self.size_of(s, rng)
            res.extend(self.loop(s, None, n['body'], None, n, pre=pre, quant=lambda e, h, ch, i=i, sz=sz: (i, sz)))
        return res

    def size_of(self, st, l):
        v = self.rd(st, l) if l[0] != 'listv' else l
        if ('size', l) in st.store:
            return st.store[('size', l)]
        if ('size', v) in st.store:
            return st.store[('size', v)]
        if v[0] == 'listv':
            return ('c', len(v[1]))
        t = ('call', 'size', v)
        self.unsigned.add(t)
        return t

    def x_switch(self, n, st):
        cur = [st]
        for key in ('init', 'cvar'):
            if n.get(key) is not None:
                _, cur = self.seq([n[key]], cur)
        body = n['body']['b'] if n['body']['k'] == 'seq' else [n['body']]
        groups = []
        for c in body:
            labels, x = [], c
            while x is not None and x['k'] in ('case', 'default'):
                labels.append('default' if x['k'] == 'default' else x)
                x = x.get('s')
            groups.append((labels, x))
        alllab = [x for ls, _ in groups for x in ls if x != 'default']
        outs = []
        for s0 in cur:
            for s, v in self.ev(n['c'], s0):
                vals = []
                for lab in alllab:
                    r = self.ev(lab['v'], s.copy())
                    vals.append((lab, r[0][1]))
                vm = {id(a): b for a, b in vals}
                for gi, (labels, _) in enumerate(groups):
                    for lab in labels:
                        s2 = s.copy()
                        if lab == 'default':
                            good = all(s2.assume(mk_cmp('==', v, b), False) for _, b in vals)
                        else:
                            good = s2.assume(mk_cmp('==', v, vm[id(lab)]), True)
                        if not good:
                            continue
                        o, rest = self.seq([x for _, x in groups[gi:] if x is not None], [s2])
                        outs.extend(o)
                        outs.extend(('norm', r, None) for r in rest)
                if not any('default' in ls for ls, _ in groups):
                    s2 = s.copy()
                    if all(s2.assume(mk_cmp('==', v, b), False) for _, b in vals):
                        outs.append(('norm', s2, None))
        return [('norm' if k == 'brk' else k, s, v) for k, s, v in outs]

    def x_try(self, n, st):
        saved, self.thr = self.thr, []
        entry = st.copy()
        outs = self.exec(n['body'], st)
        thrown, self.thr = self.thr, saved
        # a state standing for any exception out of an opaque callee
        imp = entry.copy()
        ks = set()
        for _, s, _v in outs:
            for k in s.store:
                if s.store.get(k) != entry.store.get(k, k) and not (isinstance(k, tuple) and k[0] == 'alias'):
                    ks.add(k)
            for kk, vv in s.tags.items():
                if isinstance(kk, tuple) and kk[0] == 'may':
                    imp.tags.setdefault(kk, vv)
        for k in ks:
            if not self.local_to_body(k, entry):
                imp.store[k] = self.fresh('exc', k)
        imp.tags[('may', 'caught', n['l'], self.frame.fn['file'])] = True
        pend_in = {}
        for _, s, _v in outs:
            pend_in.update(s.pend)
        if self.implicit_exc:
            thrown = thrown + [(imp, ('exc', None))]
        for s, e in thrown:
            handled = False
            for h in n['h']:
                if 't' in h:
                    ht = self.u.ty(h['t']).replace('const ', '').rstrip(' &')
                    if not self.exc_match(e, ht):
                        continue
                s2 = s.copy()
                if 'd' in h:
                    l = ('v', h['d'], h.get('n', ''), self.frame.id)
                    self.frame.env[h['d']] = l
                    s2.store[l] = e
                s2.tags[('may', 'caught', h['l'], self.frame.fn['file'])] = True
                s2.tags['cur_exc'] = e
                self.on_catch(s2, e, h, n)
                outs.extend(self.exec(h['body'], s2))
                handled = True
                if e[1] is not None or 't' not in h:
                    break
            if not handled or (self.any_exc and e[1] is None and all('t' in h for h in n['h'])):
                self.thr.append((s, e))
        return outs

    def on_catch(self, st, exc, handler, node):
        pass

    def exc_match(self, e, ht):
        if e[1] is None:
            return True
        et = e[1]
        if et == ht:
            return True
        if ht in ('std::exception',):
            return et.startswith('std::') or et.startswith('nlohmann::') or self.u.derives(et, ht)
        chain = {'std::runtime_error': ('std::range_error', 'std::overflow_error', 'std::system_error', 'std::ios_base::failure', 'std::filesystem::filesystem_error'),
                 'std::logic_error': ('std::invalid_argument', 'std::out_of_range', 'std::domain_error', 'std::length_error')}
        return et in chain.get(ht, ()) or self.u.derives(et, ht)

    # ----------------------------------------------------------- expressions
    def ev(self, n, st, dst=None):
        """rvalue evaluation: list of (state, value)"""
        if n is None:
            return [(st, VOID)]
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            return self.e_unk(n, st)
        if n['k'] in ('ctor', 'call', 'list'):
            return m(n, st, dst)
        return m(n, st)

    def evs(self, ns, st):
        """several operands in order: list of (state, [values])"""
        cur = [(st, [])]
        for x in ns:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(x, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def lv(self, n, st):
        """lvalue evaluation: list of (state, location)"""
        k = n['k']
        if k == 'ref':
            return [(st, self.refloc(n, st))]
        if k == 'this':
            return [(st, self.frame.this)]
        if k == 'mem' and 'fn' not in n:
            if n.get('dk') == 'global':
                return [(st, ('g', n.get('qn', n['n'])))]
            return [(s, ('f', self.derefp(s, b, n), n['n'])) for s, b in self.lv(n['b'], st)]
        if k == 'idx':
            out = []
            for s, b in self.lv(n['b'], st):
                for s2, i in self.ev(n['i'], s):
                    bv = self.rd(s2, b)
                    out.append((s2, ('idx', bv if bv[0] in ('addr', 'call', 'par', 'op') else b, i)))
            return out
        if k == 'un' and n['op'] == '*':
            return [(s, self.derefv(v)) for s, v in self.ev(n['e'], st)]
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            return [(s, self.lv(n['e'], s)[0][1]) for s, _ in self.ev(n, st)]
        if k == 'cast':
            return self.lv(n['e'], st)
        if k == 'cond':
            out = []
            T, F = self.branch(n['c'], st)
            for s in T:
                out.extend(self.lv(n['a'], s))
            for s in F:
                out.extend(self.lv(n['b'], s))
            return out
        if k == 'asg':
            return [(s, self.lv(n['a'], s)[0][1]) for s, _ in self.ev(n, st)]
        if k == 'call':
            return self.e_call(n, st, None, want_lv=True)
        if k == 'ctor' and n.get('cm') and len(n['a']) == 1:
            return self.lv(n['a'][0], st)
        return self.ev(n, st)

    def derefp(self, st, b, n):
        if n.get('arrow'):
            if n['b'] and n['b']['k'] == 'this' and b[0] in ('v', 'idx', 'f', 'par', 'obj'):
                return b
            v = self.rd(st, b)
            return self.derefv(v)
        return b

    def derefv(self, v):
        if v[0] == 'addr':
            return v[1]
        if v[0] == 'this' or v[0] == 'objp':
            return v
        return ('deref', v) if v != self.frame.this else v

    def refloc(self, n, st):
        dk = n.get('dk')
        if dk == 'func':
            return ('fnref', n.get('fn'), n.get('fid'))
        if dk == 'enum':
            return ('c', n['v'])
        if 'v' in n and n.get('dk') in ('global', 'static', 'local'):
            try:
                return ('c', int(n['v']))
            except ValueError:
                pass
        d = n.get('d')
        l = self.frame.env.get(d)
        if l is None:
            if dk in ('global', 'static', 'other'):
                l = ('g', n.get('qn', n['n']), d)
            else:
                l = ('v', d, n['n'], 'out')
            return l
        seen = 0
        while ('alias', l) in st.store and seen < 8:
            l = st.store[('alias', l)]
            seen += 1
        return l

    def e_ref(self, n, st):
        l = self.refloc(n, st)
        if l[0] in ('c', 'fnref'):
            return [(st, l)]
        v = self.rd(st, l)
        return [(st, v)]

    def e_this(self, n, st):
        return [(st, self.frame.this)]

    def e_mem(self, n, st):
        if 'fn' in n:
            return [(s, ('fnref', n['fn'], n.get('fid'))) for s, _ in self.lv(n['b'], st)]
        return [(s, self.rd(s, l)) for s, l in self.lv(n, st)]

    def e_idx(self, n, st):
        return [(s, self.rd(s, l)) for s, l in self.lv(n, st)]

    def e_int(self, n, st):
        return [(st, ('c', int(n['v'])))]

    def e_float(self, n, st):
        return [(st, ('c', n['v']))]

    def e_str(self, n, st):
        return [(st, ('c', n.get('v', '')))]

    def e_bool(self, n, st):
        return [(st, ('c', bool(n.get('v'))))] if 'v' in n else [(st, self.fresh('b'))]

    def e_null(self, n, st):
        return [(st, NULL)]

    def e_zero(self, n, st):
        return [(st, ('c', 0))]

    def e_sizeof(self, n, st):
        return [(st, ('c', int(n['v'])) if 'v' in n else self.fresh('sizeof'))]

    def e_typeid(self, n, st):
        return [(st, ('typeid', self.u.ty(n.get('at', -1))))]

    def e_list(self, n, st, dst=None):
        return [(s, ('listv', tuple(vs))) for s, vs in self.evs(n['a'], st)]

    def e_cast(self, n, st):
        out = []
        ck = n['ck']
        if 'v' in n and n['e']['k'] in ('int', 'bool', 'sizeof'):
            return [(st, ('c', int(n['v'])) if ck != 'IntegralToBoolean' else ('c', bool(int(n['v']))))]
        for s, v in self.ev(n['e'], st):
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                if is_c(v):
                    v = ('c', bool(v[1]))
                else:
                    v = mk_not(mk_cmp('==', v, NULL if ck == 'PointerToBoolean' else ('c', 0)))
            elif ck == 'ToVoid':
                v = VOID
            elif is_c(v) and ck == 'IntegralCast' and isinstance(v[1], int) and not isinstance(v[1], bool):
                if v[1] < 0 and 'unsigned' in self.ty(n):
                    v = ('c', v[1] & (2 ** 64 - 1))
            out.append((s, v))
        return out

    def e_cond(self, n, st):
        out = []
        T, F = self.branch(n['c'], st)
        for s in T:
            out.extend(self.ev(n['a'], s))
        for s in F:
            out.extend(self.ev(n['b'], s))
        return out

    def e_un(self, n, st):
        op = n['op']
        if op == '!':
            return [(s, mk_not(self.condval(v))) for s, v in self.ev(n['e'], st)]
        if op == '*':
            return [(s, self.rd(s, self.derefv(v))) for s, v in self.ev(n['e'], st)]
        if op == '&':
            if n['e']['k'] == 'ref' and n['e'].get('dk') == 'func':
                return self.ev(n['e'], st)
            return [(s, ('addr', l)) for s, l in self.lv(n['e'], st)]
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(n['e'], st):
                old = self.rd(s, l)
                new = self.arith('+' if op == '++' else '-', old, ('c', 1))
                self.wr(s, l, new, n)
                out.append((s, old if n.get('post') else new))
            return out
        out = []
        for s, v in self.ev(n['e'], st):
            if op == '-':
                v = ('c', -v[1]) if is_c(v) and isinstance(v[1], (int, float)) else ('op', '-', ('c', 0), v)
            elif op == '+':
                pass
            else:
                v = ('op', op, v)
            out.append((s, v))
        return out

    def arith(self, op, a, b):
        if is_c(a) and is_c(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            try:
                if op == '+':
                    return ('c', a[1] + b[1])
                if op == '-':
                    return ('c', a[1] - b[1])
                if op == '*':
                    return ('c', a[1] * b[1])
                if op == '/' and b[1] and isinstance(a[1], int) and isinstance(b[1], int):
                    return ('c', int(a[1] / b[1]))
                if op == '%' and b[1] and isinstance(a[1], int) and isinstance(b[1], int):
                    return ('c', a[1] % b[1])
                if op == '<<':
                    return ('c', a[1] << b[1])
                if op == '|':
                    return ('c', a[1] | b[1])
                if op == '&':
                    return ('c', a[1] & b[1])
            except Exception:
                pass
        if op in ('+', '-', '*'):
            if op == '+' and b == ('c', 0):
                return a
            if op == '-' and b == ('c', 0):
                return a
            if op == '*' and b == ('c', 1):
                return a
            if op == '*' and a == ('c', 1):
                return b
            if op in ('+', '*') and _key(b) < _key(a):
                if not (is_c(a) and isinstance(a[1], str)) and not (is_c(b) and isinstance(b[1], str)):
                    a, b = b, a
        return ('op', op, a, b)

    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            T, F = self.branch(n['a'], st)
            if op == '&&':
                out.extend((f, FALSE) for f in F)
                for t in T:
                    T2, F2 = self.branch(n['b'], t)
                    out.extend((x, TRUE) for x in T2)
                    out.extend((x, FALSE) for x in F2)
            else:
                out.extend((t, TRUE) for t in T)
                for f in F:
                    T2, F2 = self.branch(n['b'], f)
                    out.extend((x, TRUE) for x in T2)
                    out.extend((x, FALSE) for x in F2)
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(n['a'], st):
                out.extend(self.ev(n['b'], s))
            return out
        out = []
        for s, (a, b) in self.evs([n['a'], n['b']], st):
            if op in CMP:
                at = self.u.ty(n['a'].get('t', -1))
                v = mk_cmp(op, a, b)
                if at.startswith('unsigned') or at == 'bool':
                    v = self.unsigned_cmp(v)
                    for t in (a, b):
                        self.unsigned.add(t)
            else:
                v = self.arith(op, a, b)
                if self.ty(n).startswith('unsigned'):
                    self.unsigned.add(v)
            out.append((s, v))
        return out

    def unsigned_cmp(self, v):
        """0 < x  ==  !(x == 0); x < 1 == (x == 0)"""
        if v[0] == 'not':
            return mk_not(self.unsigned_cmp(v[1]))
        if v[0] == '<' and v[1] == ('c', 0):
            return mk_not(mk_cmp('==', v[2], ('c', 0)))
        if v[0] == '<' and v[2] == ('c', 1):
            return mk_cmp('==', v[1], ('c', 0))
        if v[0] == '<' and v[2] == ('c', 0):
            return FALSE
        return v

    def e_asg(self, n, st):
        out = []
        for s, v in self.ev(n['b'], st):
            for s2, l in self.lv(n['a'], s):
                if n['op'] != '=':
                    v2 = self.arith(n['op'][:-1], self.rd(s2, l), v)
                else:
                    v2 = v
                self.wr(s2, l, v2, n)
                out.append((s2, v2))
        return out

    def e_throw(self, n, st):
        if n.get('e') is None:
            e = st.tags.get('cur_exc', ('exc', None))
            self.on_throw(st, e, n)
            self.thr.append((st, e))
            return []
        for s, v in self.ev(n['e'], st):
            t = self.u.ty(n['e'].get('t', -1))
            e = ('exc', t)
            self.on_throw(s, e, n)
            self.thr.append((s, e))
        return []

    def e_new(self, n, st):
        out = []
        cur = [(st, VOID)]
        if n.get('n') is not None:
            cur = self.ev(n['n'], st)
        for s, sz in cur:
            l = ('obj', self.u.ty(n.get('nt', -1)), next(self.uid))
            if n.get('n') is not None:
                s.store[('size', l)] = sz
                self.on_alloc(s, l, sz, n)
            if n.get('init') is not None:
                for s2, v in self.ev(n['init'], s, dst=l):
                    if v != ('inplace', l):
                        s2.store[l] = v
                    out.append((s2, ('addr', l)))
            else:
                out.append((s, ('addr', l)))
        return out

    def on_alloc(self, st, l, size, node):
        pass

    def e_del(self, n, st):
        return [(s, VOID) for s, _ in self.ev(n['e'], st)]

    def e_lambda(self, n, st):
        l = ('lam', tuple(n['fids']), next(self.uid))
        env = dict(self.frame.env)
        for c in n['caps']:
            if 'd' in c and not c.get('ref') and c.get('init') is not None:
                for s, v in self.ev(c['init'], st)[:1]:
                    cl = ('v', c['d'], c['n'], ('cap', l[2]))
                    if v[0] in ('v', 'f', 'par', 'ver', 'obj') and v != cl:
                        self.copy_fields(s, v, cl)
                    s.store[cl] = v
                    env[c['d']] = cl
                    st = s
        self.lams[l] = (n, self.frame, env)
        return [(st, l)]

    def e_unk(self, n, st):
        cur = [(st, None)]
        for c in n.get('a', n.get('b', [])) if isinstance(n.get('a', n.get('b', [])), list) else []:
            cur = [(s2, None) for s, _ in cur for s2, _v in (self.ev(c, s) if isinstance(c, dict) else [(s, None)])]
        return [(s, self.fresh('unk', n.get('c', n['k']))) for s, _ in cur]

    # ----------------------------------------------------------- construction
    def e_ctor(self, n, st, dst=None):
        cls = n['cls']
        args = n['a']
        if n.get('cm') and len(args) == 1:
            # copy / move: the value itself
            return self.ev(args[0], st, dst)
        if cls.startswith('std::basic_string<') and args:
            r = []
            for s, vs in self.evs(args, st):
                real = [v for v, x in zip(vs, args) if not self.is_alloc(x)]
                if len(real) == 1 and not (real[0][0] == 'listv'):
                    r.append((s, real[0]))
                else:
                    r.append((s, ('call', 'string', None) + tuple(real)))
            return r
        fn = self.u.funcs.get(n.get('fid'))
        l = dst or ('obj', cls.split('<')[0], next(self.uid))
        out = []
        for s, vs in self.ctor_args(n, st):
            if self.report_ok():
                self.stats['calls'] += 1
            h = self.model(s, n['fn'], n, l, vs)
            if h is not None:
                out.extend(h)
                continue
            self.on_call(s, n['fn'], n, l, vs, fn)
            if fn is not None and fn.get('body') is not None and self.can_inline(fn):
                for s2, _ in self.inline(fn, s, l, vs, n, cls):
                    out.append((s2, ('inplace', dst) if dst else l))
                continue
            # opaque construction
            self.havoc_args(s, n, vs)
            self.call_lambdas(s, n, vs)
            if cls.startswith('std::vector<') or cls.startswith('std::set<') or cls.startswith('std::map<'):
                out.extend(self.ctor_container(s, cls, l, n, vs, dst))
                continue
            val = ('new', n['fn']) + tuple(v if isinstance(v, tuple) else VOID for v in vs) + (('#', next(self.uid)),)
            if dst:
                s.store[l] = val
                out.append((s, ('inplace', dst)))
            else:
                s.store[l] = val
                out.append((s, l))
        return out

    def is_alloc(self, x):
        return self.u.ty(x.get('t', -1)).startswith('std::allocator<') if isinstance(x, dict) else False

    def ctor_container(self, s, cls, l, n, vs, dst):
        real = [v for v, x in zip(vs, n['a']) if not self.is_alloc(x)]
        if len(real) == 1 and real[0][0] == 'listv':
            val = real[0]
            if dst:
                s.store[l] = val
                return [(s, ('inplace', dst))]
            return [(s, val)]
        s.store[l] = ('ver', l, next(self.uid))
        if cls.startswith('std::vector<'):
            if not real:
                s.store[('size', l)] = ('c', 0)
            elif len(real) == 1 or (len(real) == 2 and not self.u.ty(n['a'][0].get('t', -1)).startswith('__gnu') and 'iterator' not in self.u.ty(n['a'][0].get('t', -1)) and not self.u.ty(n['a'][0].get('t', -1)).endswith('*')):
                s.store[('size', l)] = real[0]
                self.on_alloc(s, l, real[0], n)
                if len(real) == 2:
                    s.store[('fill', l)] = real[1]
            elif len(real) == 2:
                # built from a range of another sequence
                first, last = [self.val(s, x) for x in real]
                if last[0] == 'op' and last[1] == '+' and first in last[2:]:
                    cnt = last[3] if last[2] == first else last[2]
                    s.store[l] = ('range', first, last)
                    s.store[('size', l)] = cnt
                    self.on_range(s, first, cnt, n)
                elif first[0] == 'call' and first[1] == 'begin' and last[0] == 'call' and last[1] == 'end' and first[2:] == last[2:]:
                    s.store[('size', l)] = self.size_of(s, first[2])
                    s.store[l] = ('range', first, last)
        elif not real:
            s.store[('size', l)] = ('c', 0)
        return [(s, ('inplace', dst) if dst else l)]

    def on_range(self, st, first, count, node):
        pass

    def ctor_args(self, n, st):
        fn = self.u.funcs.get(n.get('fid'))
        return self.call_args(n, st, fn)

    def ctor_inits(self, fn, states):
        cur = states
        for i in fn['inits']:
            nxt = []
            for s in cur:
                if 'n' in i:
                    l = ('f', self.frame.this, i['n'])
                    for s2, v in self.ev(i['e'], s, dst=l):
                        if v != ('inplace', l):
                            self.bind_value(s2, l, v, i['e'])
                        nxt.append(s2)
                else:
                    for s2, v in self.ev(i['e'], s, dst=self.frame.this):
                        if i['e'].get('cm') and v[0] in ('par', 'v', 'f', 'obj', 'idx', 'deref', 'this') and v != self.frame.this:
                            # base subobject copied from another object
                            for fld in self.all_fields(i['e']['cls']):
                                self.bind_value(s2, ('f', self.frame.this, fld), self.rd(s2, ('f', v, fld)), i['e'])
                        nxt.append(s2)
            cur = self.merge(nxt)
        return cur

    def all_fields(self, cls):
        out, st = [], [cls]
        while st:
            c = st.pop()
            r = self.u.rec.get(c)
            if r:
                out += [x['n'] for x in r['fields']]
                st += self.u.bases.get(c, [])
        return out

    # ----------------------------------------------------------- calls
    def call_args(self, n, st, fn):
        """reference parameters get locations, the others values"""
        pm = n.get('pm', '')
        cur = [(st, [])]
        for i, a in enumerate(n['a']):
            if a is None:
                cur = [(s, vs + [VOID]) for s, vs in cur]
                continue
            byref = False
            if fn is not None and i < len(fn['params']):
                byref = self.u.ty(fn['params'][i]['t']).endswith('&')
            elif i < len(pm):
                byref = pm[i] in 'rm'
            nxt = []
            for s, vs in cur:
                for s2, v in (self.lv(a, s) if byref else self.ev(a, s)):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def val(self, st, v):
        """the value behind a location"""
        if isinstance(v, tuple) and v[0] in ('v', 'f', 'idx', 'g', 'par', 'obj', 'deref'):
            return self.rd(st, v)
        return v

    def can_inline(self, fn):
        return len(self.stack) < self.MAXDEPTH and self.stack.count(fn['fid']) < 1 and self.inline_ok(fn)

    def dispatch(self, n, st, obj):
        """the function definition a call resolves to, or None"""
        fid = n.get('fid')
        if n.get('virt') and not n.get('nonvirt') and fid is not None:
            cands = self.u.over.get(fid, set())
            if cands:
                # exact class known?
                cls = None
                if obj == self.frame.this:
                    cls = self.frame.cls
                elif isinstance(obj, tuple) and obj[0] == 'obj':
                    cls = obj[1]
                if cls:
                    sel = self.final_overrider(cls, set(cands) | {fid})
                    if sel is not None and sel in self.u.funcs:
                        return self.u.funcs[sel]
                # what the static type of the object leaves open
                ot = self.u.ty(n.get('ost', n.get('ot', -1))).replace('const ', '').rstrip(' &*')
                if ot in self.u.rec:
                    cands = {c for c in cands if self.u.derives(self.u.mclass.get(c, ''), ot)} or \
                            {c for c in cands if self.u.derives(ot, self.u.mclass.get(c, ''))} or cands
                defs = [c for c in cands if c in self.u.funcs]
                if fid in self.u.funcs and self.u.funcs[fid].get('body') is not None and not self.u.funcs[fid].get('pure'):
                    defs.append(fid)
                if len(defs) == 1 and len(cands) == 1:
                    return self.u.funcs.get(defs[0])
                return None
        return self.u.funcs.get(fid)

    def final_overrider(self, cls, cands):
        """the member of cands that an object of exactly this class runs"""
        st, seen = [cls], set()
        while st:
            c = st.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for m in cands:
                if self.u.mclass.get(m) == c:
                    return m
            st.extend(self.u.bases.get(c, ()))
        return None

    def e_call(self, n, st, dst=None, want_lv=False):
        name = n.get('fn')
        out = []
        if name is None:
            # call through a value: function object or pointer
            for s, c in self.ev(n['c'], st) if n.get('c') else [(st, VOID)]:
                for s2, vs in self.evs(n['a'], s):
                    out.extend(self.call_value(s2, c, n, vs))
            return out
        # object argument
        if 'o' in n:
            cur = self.lv(n['o'], st)
            if n.get('arrow'):
                cur = [(s, self.derefv(self.rd(s, l))) for s, l in cur]
        else:
            cur = [(st, None)]
        for s, obj in cur:
            if obj is not None:
                ov = self.rd(s, obj) if obj[0] not in ('lam', 'this') else obj
                if n.get('op') == '()' and ov[0] in ('lam', 'fnref'):
                    fn = self.u.funcs.get(n.get('fid'))
                    for s2, vs in self.call_args(n, s, fn):
                        out.extend(self.call_value(s2, ov, n, vs))
                    continue
                if ov[0] == 'objp':
                    obj = ov
            fn = self.dispatch(n, s, obj)
            for s2, vs in self.call_args(n, s, fn):
                out.extend(self.do_call(s2, name, n, obj, vs, fn, dst, want_lv))
        return out

    def do_call(self, s, name, n, obj, vs, fn, dst=None, want_lv=False):
        if self.report_ok():
            self.stats['calls'] += 1
            self.visited_calls.add((self.frame.fn['file'], n.get('l'), name))
        h = self.model(s, name, n, obj, vs)
        if h is not None:
            return h
        h = self.std_model(s, name, n, obj, vs, want_lv)
        if h is not None:
            return h
        self.on_call(s, name, n, obj, vs, fn)
        if fn is not None and fn.get('body') is not None and self.can_inline(fn):
            return self.inline(fn, s, obj, vs, n, None)
        return self.opaque(s, name, n, obj, vs)

    def opaque(self, s, name, n, obj, vs):
        self.call_lambdas(s, n, vs)
        impure = self.havoc_args(s, n, vs)
        if obj is not None and not n.get('const') and not n.get('static') and obj[0] != 'lam':
            ov = obj
            res = self.fresh('res', name, obj) if True else None
            self.havoc(s, ov, n)
            return self.ret_opaque(s, n, res)
        vals = tuple(self.val(s, v) if isinstance(v, tuple) else VOID for v in vs)
        if impure:
            return self.ret_opaque(s, n, ('u', 'res', next(self.uid), name) + vals)
        o = self.rd(s, obj) if obj is not None and obj[0] not in ('lam', 'this') else obj
        t = ('call', name) + ((o,) if obj is not None else ()) + vals
        if self.ty(n).startswith('unsigned'):
            self.unsigned.add(t)
        return self.ret_opaque(s, n, t)

    def ret_opaque(self, s, n, t):
        if n.get('noret'):
            self.thr.append((s, ('exc', None)))
            return []
        return [(s, t)]

    def havoc_args(self, s, n, vs):
        pm = n.get('pm', '')
        imp = False
        for i, v in enumerate(vs):
            if not isinstance(v, tuple):
                continue
            mode = pm[i] if i < len(pm) else 'v'
            if mode == 'r':
                self.havoc(s, v, n)
                imp = True
            elif mode == 'p':
                if v[0] == 'addr':
                    self.havoc(s, v[1], n)
                imp = True
        return imp

    def call_lambdas(self, s, n, vs):
        """function objects handed to an opaque callee run zero or more times during the call"""
        for v in vs:
            if not isinstance(v, tuple):
                continue
            lv = self.val(s, v)
            if lv[0] == 'lam':
                self.run_lambda_many(s, lv, n)

    def run_lambda_many(self, s, lam, n):
        if self.stack.count(('L', lam)) >= 1 or len(self.stack) > self.MAXDEPTH + 3:
            return
        for fid in lam[1]:
            fn = self.u.funcs.get(fid)
            if fn is None:
                continue
            self.quiet += 1
            saved, self.thr = self.thr, []
            probe = s.copy()
            r = self.lambda_body(probe, lam, fn, [self.fresh('larg', p['n']) for p in fn['params']], n)
            changed = set()
            for s2, _ in r:
                for k in s2.store:
                    if s2.store[k] != s.store.get(k, k) and not (isinstance(k, tuple) and k[0] == 'alias'):
                        rt = root_of(k if k[0] not in ('size', 'fill', 'cap') else k[1])
                        if not (rt[0] == 'v' and rt not in s.store and rt[3] not in [f.id for f in self.frames]):
                            changed.add(k)
            self.thr = saved
            self.quiet -= 1
            for k in changed:
                s.store[k] = self.fresh('loop', k)
            outs = self.lambda_body(s.copy(), lam, fn, [self.fresh('larg', p['n']) for p in fn['params']], n)
            for s2, _ in outs:
                s.pend.update(s2.pend)
                for k, v in s2.tags.items():
                    if isinstance(k, tuple) and k[0] == 'may':
                        s.tags.setdefault(k, v)

    def lambda_body(self, s, lam, fn, args, n):
        node, fr, env = self.lams[lam]
        return self.inline(fn, s, fr.this, args, n, fr.cls, env=env, lamkey=lam)

    def call_value(self, s, c, n, vs):
        if c[0] == 'lam':
            fid = n.get('fid')
            fids = [fid] if fid in self.u.funcs else list(c[1])
            if len(fids) >= 1:
                fn = self.u.funcs.get(fids[0])
                if fn is not None and self.stack.count(fn['fid']) < 1 and len(self.stack) < self.MAXDEPTH + 3:
                    return self.lambda_body(s, c, fn, vs, n)
        if c[0] == 'fnref' and c[2] in self.u.funcs:
            fn = self.u.funcs[c[2]]
            return self.do_call(s, c[1], n, None, vs, fn)
        name = c[1] if c[0] == 'fnref' else 'call-through-value'
        self.on_call(s, name, n, c, vs, None)
        return self.opaque(s, name, dict(n, pm=n.get('pm') or 'p' * len(vs)), None, vs)

    def inline(self, fn, s, obj, vs, n, cls, env=None, lamkey=None):
        if self.report_ok():
            self.stats['inlined'] += 1
            self.stats['functions'].add(fn['fid'])
        this = obj
        if cls is None:
            cls = fn.get('cls')
            if obj is not None and obj == self.frame.this and self.frame.cls and self.u.derives(self.frame.cls, (fn.get('cls') or '')):
                cls = self.frame.cls
        fr = Frame(fn, this if this is not None else ('nothis',), cls, None, next(self.uid))
        if env:
            fr.env = dict(env)
        for i, p in enumerate(fn['params']):
            l = ('v', p['d'], p['n'], fr.id)
            fr.env[p['d']] = l
            v = vs[i] if i < len(vs) else VOID
            if v is None:
                v = VOID
            if self.u.ty(p['t']).endswith('&') and v[0] in ('v', 'f', 'idx', 'g', 'par', 'obj', 'deref', 'this', 'nothis', 'objp'):
                s.store[('alias', l)] = v
            else:
                self.bind_value(s, l, v, n)
        fr.caller_line = n.get('l')
        self.frames.append(fr)
        self.stack.append(fn['fid'])
        if lamkey:
            self.stack.append(('L', lamkey))
        cur = [s]
        if fn.get('inits'):
            cur = self.ctor_inits(fn, cur)
        outs = []
        for c in cur:
            outs.extend(self.exec(fn.get('body'), c))
        if lamkey:
            self.stack.pop()
        self.stack.pop()
        self.frames.pop()
        res = []
        groups = {}
        for kind, s2, v in outs:
            val = v if kind == 'ret' and v is not None else VOID
            self.scrub(s2, fr.id, val)
            groups.setdefault(val, []).append(s2)
        for val, sts in groups.items():
            for s2 in self.merge(sts):
                res.append((s2, val))
        return res

    def scrub(self, st, frid, val):
        """forget the locals of a finished frame unless the result refers to them"""
        keep = set()
        for t in subterms(val):
            if isinstance(t, tuple) and t and t[0] == 'v':
                keep.add(t)
        for k in list(st.store):
            kk = k[1] if isinstance(k, tuple) and k[0] in ('alias', 'size', 'fill', 'cap') else k
            r = root_of(kk)
            if isinstance(r, tuple) and r[0] == 'v' and r[3] == frid and r not in keep:
                del st.store[k]

    # ----------------------------------------------------------- standard library
    def std_model(self, s, name, n, obj, vs, want_lv):
        if name in MOVE_FNS and len(vs) == 1:
            v = vs[0]
            if name == 'std::addressof':
                return [(s, ('addr', v))]
            if want_lv:
                return [(s, v)]
            return [(s, self.val(s, v))]
        op = n.get('op')
        base = name.rsplit('::', 1)[-1]
        infid = n.get('fid') in self.u.funcs
        if infid:
            return None
        if op in CMP:
            a = [obj] + vs if obj is not None else vs
            if len(a) == 2:
                a = [self.val(s, x) for x in a]
                return [(s, mk_cmp(op, a[0], a[1]))]
        if op == '!' and obj is not None:
            return [(s, mk_not(self.stream_ok(s, obj)))]
        if base == 'operator bool' and obj is not None:
            ot = self.u.ty(n.get('ot', -1))
            if 'basic_i' in ot or 'basic_o' in ot or 'stream' in ot:
                return [(s, self.stream_ok(s, obj))]
            return [(s, mk_not(mk_cmp('==', self.val(s, obj), NULL)))]
        if name.startswith('std::basic_ios') and base in ('good', 'fail', 'bad', 'eof'):
            v = self.stream_ok(s, obj)
            if base == 'good':
                return [(s, ('goodstream', v[1]))] if False else [(s, v)]
            if base == 'fail':
                return [(s, mk_not(v))]
            return [(s, (base + 'stream', self.rd(s, obj)))]
        if op in ('*', '->') and obj is not None and not vs:
            v = self.rd(s, obj)
            l = ('deref', v) if v[0] != 'addr' else v[1]
            if v[0] == 'call' and v[1] in ('begin', 'std::begin'):
                l = ('idx', v[2], ('c', 0))
            if op == '->':
                return [(s, ('addr', l))] if not want_lv else [(s, l)]
            return [(s, l if want_lv else self.rd(s, l))]
        if op == '[]' and obj is not None and len(vs) == 1 or (base == 'at' and obj is not None and len(vs) == 1 and name.startswith('std::')):
            i = self.val(s, vs[0])
            ot = name.split('<')[0]
            l = ('idx', obj, i)
            self.on_index(s, obj, i, n, checked=(base == 'at'))
            return [(s, l if want_lv else self.rd(s, l))]
        if (op == '=' or base == 'operator=') and obj is not None and len(vs) == 1:
            v = self.val(s, vs[0])
            self.wr(s, obj, v, n)
            if isinstance(vs[0], tuple) and vs[0][0] in ('v', 'f', 'par', 'obj', 'idx'):
                self.copy_fields(s, vs[0], obj)
            elif v[0] in ('v', 'f', 'par', 'obj', 'idx'):
                self.copy_fields(s, v, obj)
            return [(s, obj if want_lv else v)]
        if op in ('+', '-', '*', '/', '%') and (len(vs) == 2 or (obj is not None and len(vs) == 1)):
            a = [self.val(s, x) for x in ([obj] + vs if obj is not None else vs)]
            return [(s, self.arith(op, a[0], a[1]))]
        if op in ('++', '--') and obj is not None:
            old = self.rd(s, obj)
            new = self.arith(op[0], old, ('c', 1))
            self.wr(s, obj, new, n)
            return [(s, obj if want_lv else (old if vs else new))]
        if op == '+=' and obj is not None and len(vs) == 1:
            new = self.arith('+', self.rd(s, obj), self.val(s, vs[0]))
            self.wr(s, obj, new, n)
            return [(s, obj if want_lv else new)]
        if name in ('std::vector::size', 'std::basic_string::size', 'std::basic_string::length', 'std::size', 'std::ssize') or \
                (base == 'size' and obj is not None and name.startswith(('std::', 'nlohmann::')) and not vs):
            l = obj if obj is not None else vs[0]
            return [(s, self.size_of(s, l))]
        if base == 'empty' and obj is not None and name.startswith(('std::', 'nlohmann::')):
            return [(s, mk_cmp('==', self.size_of(s, obj), ('c', 0)))]
        if name == 'std::vector::resize' or name == 'std::vector::assign' or name == 'std::basic_string::resize':
            vals = [self.val(s, v) for v in vs]
            self.on_call(s, name, n, obj, vs, None)
            t0 = self.u.ty(n['a'][0].get('t', -1))
            isit = 'iterator' in t0 or t0.endswith('*')
            self.wr(s, obj, ('ver', obj, next(self.uid)), n)
            if not (name.endswith('assign') and isit) and not (vals and vals[0][0] == 'listv'):
                s.store[('size', obj)] = vals[0]
                self.on_alloc(s, obj, vals[0], n)
                if name.endswith('assign') and len(vals) > 1:
                    s.store[('fill', obj)] = vals[1]
            return [(s, VOID)]
        if base == 'clear' and obj is not None and name.startswith('std::') and not vs and 'ios' not in name:
            self.on_call(s, name, n, obj, vs, None)
            self.wr(s, obj, ('ver', obj, next(self.uid)), n)
            s.store[('size', obj)] = ('c', 0)
            return [(s, VOID)]
        if base == 'data' and obj is not None and name.startswith('std::'):
            return [(s, ('addr', ('idx', obj, ('c', 0))))]
        if base in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend') and (obj is not None or len(vs) == 1) and name.startswith(('std::', 'nlohmann::')):
            l = obj if obj is not None else vs[0]
            return [(s, ('call', base.lstrip('c') if base[0] == 'c' else base, l, self.rd(s, l)))]
        if base in ('front', 'back') and obj is not None and name.startswith('std::') and not vs:
            l = ('idx', obj, ('c', 0) if base == 'front' else self.arith('-', self.size_of(s, obj), ('c', 1)))
            return [(s, l if want_lv else self.rd(s, l))]
        if name in ('std::min', 'std::max') and len(vs) == 2:
            a, b = [self.val(s, v) for v in vs]
            if is_c(a) and is_c(b):
                return [(s, ('c', (min if name.endswith('min') else max)(a[1], b[1])))]
            if _key(b) < _key(a):
                a, b = b, a
            return [(s, ('call', name, a, b))]
        if name in ('std::all_of', 'std::any_of', 'std::none_of', 'std::ranges::all_of', 'std::ranges::any_of') and len(vs) in (2, 3):
            return self.quant_alg(s, name.rsplit('::', 1)[-1], n, vs)
        if name in ('std::get',) and vs:
            return [(s, ('f', vs[0], 'get<%s>' % (n.get('ta') or ['?'])[0]) if want_lv else self.rd(s, ('f', vs[0], 'get<%s>' % (n.get('ta') or ['?'])[0])))]
        if name == 'std::unique_ptr::get' or name == 'std::shared_ptr::get':
            return [(s, self.rd(s, obj))]
        if name == 'std::make_pair' or name == 'std::make_tuple':
            return [(s, ('listv', tuple(self.val(s, v) for v in vs)))]
        if name == 'std::rethrow_exception':
            self.on_call(s, name, n, obj, vs, None)
            self.thr.append((s, ('exc', None)))
            return []
        return None

    def on_index(self, st, obj, i, node, checked):
        pass

    def stream_ok(self, s, obj):
        return ('okstream', self.rd(s, obj))

    def quant_alg(self, s, which, n, vs):
        lam = self.val(s, vs[-1])
        if lam[0] != 'lam' or not lam[1]:
            return None
        fn = self.u.funcs.get(lam[1][0])
        b = self.val(s, vs[0])
        if b[0] == 'call' and b[1] == 'begin':
            cont = b[2]
        elif len(vs) == 2:
            cont = vs[0]
        else:
            return None
        i = self.fresh('it')
        outs = self.lambda_body(s.copy(), lam, fn, [('idx', cont, i)], n)
        common = {True: None, False: None}
        for s2, v in outs:
            v = self.condval(v)
            for pol in (True, False):
                s3 = s2.copy()
                if not s3.assume(v, pol):
                    continue
                fs = {(f, p) for f, p in s3.facts.items() if s.facts.get(f) != p and mentions(f, i)}
                common[pol] = fs if common[pol] is None else common[pol] & fs
        want = {'all_of': True, 'any_of': False, 'none_of': False}[which]
        res_true_means_forall = which in ('all_of', 'none_of')
        b = self.fresh('q', which)
        hi = self.size_of(s, cont)
        t, f = s.copy(), s
        fa = frozenset(('forall', hi, subst(x, i, ('bv',)), p) for x, p in (common[want] or ()))
        if res_true_means_forall:
            t.foralls = t.foralls | fa
        else:
            f.foralls = f.foralls | fa
        return [(t, TRUE), (f, FALSE)]
