"""The arithmetic of the chunk grid, decided per axis by linear reasoning over the paths of the loop body."""
from absint import *
from pyabs import Lin, feasible
from common import rel


def atom(t):
    return repr(t)


def poly(t):
    """term -> {monomial: coefficient} or None; a monomial is a sorted tuple of atoms"""
    if is_c(t) and isinstance(t[1], int):
        return {(): int(t[1])}
    if t[0] == 'op' and t[1] in '+-*':
        a, b = poly(t[2]), poly(t[3])
        r = {}
        if t[1] == '*':
            for m, x in a.items():
                for n, y in b.items():
                    k = tuple(sorted(m + n))
                    r[k] = r.get(k, 0) + x * y
        else:
            for s, p in ((1, a), (1 if t[1] == '+' else -1, b)):
                for m, x in p.items():
                    r[m] = r.get(m, 0) + s * x
        return {k: v for k, v in r.items() if v}
    return {(atom(t),): 1}


def lin(t):
    p = poly(t)
    return Lin({'*'.join(m): v for m, v in p.items() if m}, p.get((), 0))


def split(ts, cons=()):
    """resolve min/max in the terms: [(terms, constraints)]"""
    for x in ts:
        for s in subterms(x):
            if isinstance(s, tuple) and s and s[0] == 'call' and s[1] in ('std::min', 'std::max') and len(s) == 4 and \
                    not any(isinstance(q, tuple) and q and q[0] == 'call' and q[1] in ('std::min', 'std::max') for y in s[2:] for q in subterms(y)):
                a, b = s[2], s[3]
                out = []
                for small, big in ((a, b), (b, a)):
                    pick = small if s[1] == 'std::min' else big
                    out += split([subst(y, s, pick) for y in ts], tuple(cons) + (lin(small) - lin(big),))
                return out
    return [(list(ts), list(cons))]


def lins(facts):
    """linear constraints (<= 0) out of the facts of a path"""
    cs = []
    for f, p in facts.items():
        if f[0] == 'not':
            f, p = f[1], not p
        try:
            if f[0] == '<':
                a, b = lin(f[1]), lin(f[2])
                cs.append(a - b + Lin({}, 1) if p else b - a)
            elif f[0] == '==' and p:
                a, b = lin(f[1]), lin(f[2])
                cs += [a - b, b - a]
        except (TypeError, IndexError):
            pass
    return cs


def equal(cs, a, b):
    d = lin(a) - lin(b)
    return not feasible(cs + [d + Lin({}, 1)]) and not feasible(cs + [Lin({}, 1) - d])


class Axis(Interp):
    """collects the states at the end of the body of loops over the axes"""
    CAP = 64

    def __init__(self, u, outs):
        super().__init__(u)
        self.outs, self.ends = outs, []

    def inline_ok(self, fn):
        return len(self.frames) < 6

    def model(self, st, name, n, obj, vs):
        if name.rsplit('::', 1)[-1] in ('getBlockBeginAndShape', 'getBlockBeginAndEnd') and len(vs) == 3 and len(self.frames) > 0:
            st = st.copy()
            c = self.val(st, vs[0])
            for v, w in zip(vs[1:], ('block begin', 'block extent' if name.endswith('Shape') else 'block end')):
                self.wr(st, v[1] if v[0] == 'addr' else v, ('call', w, c), n)
            return [(st, VOID)]
        if name.rsplit('::', 1)[-1] == 'resize':
            return [(st, VOID)]
        return None

    def one_iter(self, *a):
        r = super().one_iter(*a)
        if self.report_ok() and len(self.frames) == 1:
            self.ends += r[0]
        return r


def elems(st, loc):
    return [(k, v) for k, v in st.store.items() if isinstance(k, tuple) and k[0] == 'idx' and k[1] == loc and v[0] != 'ver' and not (v[:2] == ('u', 'loop') and k in v)]


def blocking(u):
    for f in u.funcs.values():
        if (f.get('pcls') or f.get('cls') or '').endswith('::Blocking') and f.get('body'):
            yield f


def run(u, f):
    it = Axis(u, None)
    res = it.run(f)
    return it, res


def check(C, u, which=('roi', 'block', 'list')):
    for f in blocking(u):
        where = '%s:%d' % (f['file'], f['l'])
        pn = [p['n'] for p in f['params']]
        if f['n'] == 'getCoordinatesInRoi' and len(pn) == 6 and 'roi' in which:
            roi(C, u, f, where)
        elif f['n'] in ('getBlockBeginAndShape', 'getBlockBeginAndEnd') and len(pn) == 3 and 'vector' in u.ty(f['params'][0]['t']) and 'block' in which:
            block(C, u, f, where)
        elif f['n'] == 'getBlocksOverlappingRoi' and 'list' in which:
            blist(C, u, f, where)


def par(it, f, i):
    return ('par', f['params'][i]['n'], i)


def roi(C, u, f, where):
    it, res = run(u, f)
    P = [par(it, f, i) for i in range(6)]
    n = 0
    for st in it.ends:
        e = [elems(st, p) for p in P[3:]]
        if not all(len(x) == 1 for x in e) or len({x[0][0][2] for x in e}) != 1:
            C.notes.append('%s: an axis of the overlap was not understood' % where)
            continue
        d = e[0][0][0][2]
        bb, bs = ('idx', ('call', 'block begin', P[0]), d), ('idx', ('call', 'block extent', P[0]), d)
        rb, rs = ('idx', P[1], d), ('idx', P[2], d)
        vals = [x[0][1] for x in e]
        if not any(bb in subterms(t) or rb in subterms(t) for t in vals):
            C.notes.append('%s: the quantities of the overlap were not recognised' % where)
            continue
        n += 1
        for vs, cs in split(vals):
            cs = cs + lins(st.facts) + [lin(('c', 1)) - lin(rs), lin(('c', 1)) - lin(bs), Lin({}, 0) - lin(bb), Lin({}, 0) - lin(rb)]
            be, re = ('op', '+', bb, bs), ('op', '+', rb, rs)
            cs += [lin(bb) - lin(re) + Lin({}, 1), lin(rb) - lin(be) + Lin({}, 1)]      # they overlap
            for lo, c1 in ((rb, lin(bb) - lin(rb) + Lin({}, 1)), (bb, lin(rb) - lin(bb))):
                for hi, c2 in ((re, lin(re) - lin(be) + Lin({}, 1)), (be, lin(be) - lin(re))):
                    c = cs + [c1, c2]
                    if not feasible(c):
                        continue
                    for v, spec, what in ((vs[0], ('op', '-', lo, rb), 'begin of the overlap in the request'),
                                          (vs[1], ('op', '-', hi, lo), 'shape of the overlap'),
                                          (vs[2], ('op', '-', lo, bb), 'begin of the overlap in the chunk')):
                        C.oblige(equal(c, v, spec), where, 'per axis, the %s is that of the intersection of chunk and request' % what,
                                 'chunk %s the request begin, chunk end %s the request end' % ('before' if lo is rb else 'at or after', 'after' if hi is re else 'at or before'))
                    C.count('overlap cases')
    # completeness: returning true requires that no axis is cut
    outs = completeness(u, f)
    for ok, detail in outs:
        C.oblige(ok, where, 'complete overlap is reported only when no axis of the chunk is cut by the request', detail)
    if not n:
        C.notes.append('%s: no axis understood' % where)


def completeness(u, f):
    """[(ok, detail)] for every path of the body of the axis loop after which the function can still report complete overlap"""
    it = Axis(u, None)
    res = it.run(f)
    P = [('par', f['params'][i]['n'], i) for i in range(6)]
    out = []
    flags = {v[3] for _, v in res['ret'] if isinstance(v, tuple) and v[:2] == ('u', 'loop') and len(v) > 3}
    if len(flags) != 1:
        return out
    flag = flags.pop()
    for st in it.ends:
        e = [elems(st, p) for p in P[3:]]
        if not all(len(x) == 1 for x in e):
            continue
        d = e[0][0][0][2]
        s2 = st.copy()
        if not s2.assume(it.condval(s2.store.get(flag, flag)), True):
            continue
        bb, bs = ('idx', ('call', 'block begin', P[0]), d), ('idx', ('call', 'block extent', P[0]), d)
        rb, rs = ('idx', P[1], d), ('idx', P[2], d)
        be, re = ('op', '+', bb, bs), ('op', '+', rb, rs)
        base = [lin(('c', 1)) - lin(rs), lin(('c', 1)) - lin(bs), lin(bb) - lin(re) + Lin({}, 1), lin(rb) - lin(be) + Lin({}, 1)]
        fs = list(s2.facts.items())
        bad = []
        for ts, cs in split([g for g, _ in fs]):
            cs = cs + lins({g: p for g, (_, p) in zip(ts, fs)}) + base
            bad += [n for n, c in (('begin', lin(bb) - lin(rb) + Lin({}, 1)), ('end', lin(re) - lin(be) + Lin({}, 1))) if n not in bad and feasible(cs + [c])]
        out.append((not bad, 'a path can report it although the %s of the chunk lies outside the request' % ' and the '.join(bad)))
    return out


def block(C, u, f, where):
    it, res = run(u, f)
    P = [par(it, f, i) for i in range(3)]
    end = f['n'].endswith('End')
    for st in it.ends:
        e = [elems(st, p) for p in P[1:]]
        if not all(len(x) == 1 for x in e) or len({x[0][0][2] for x in e}) != 1:
            C.notes.append('%s: an axis of the block was not understood' % where)
            continue
        d = e[0][0][0][2]
        vals = [x[0][1] for x in e]
        fields = {}
        for t in vals:
            for s in subterms(t):
                if isinstance(s, tuple) and s and s[0] == 'idx' and isinstance(s[1], tuple) and s[1][0] == 'f' and s[1][1] == ('this',):
                    fields[s[1][2]] = s
        c = ('idx', P[0], d)
        Bs = [s for s in fields.values() if any(isinstance(x, tuple) and x[:2] == ('op', '*') and s in x for t in vals for x in subterms(t))]
        Ss = [s for s in fields.values() if s not in Bs]
        if len(Bs) != 1 or len(Ss) != 1:
            C.notes.append('%s: block shape and array shape not recognised' % where)
            continue
        B, Sh = Bs[0], Ss[0]
        for vs, cs in split(vals):
            cs = cs + lins(st.facts)
            beg = ('op', '*', c, B)
            full = ('op', '+', beg, B)
            for hi, c1 in ((full, lin(full) - lin(Sh)), (Sh, lin(Sh) - lin(full) + Lin({}, 1))):
                k = cs + [c1]
                if not feasible(k):
                    continue
                C.count('block cases')
                C.oblige(equal(k, vs[0], beg), where, 'per axis, block %s begins at its position times the block shape' % 'c')
                C.oblige(equal(k, vs[1], hi if end else ('op', '-', hi, beg)), where, 'per axis, a block ends at its nominal end or at the end of the array')


def blist(C, u, f, where):
    """the block ranges: first = begin / B, last = (end - 1) / B"""
    it, res = run(u, f)
    P = [par(it, f, i) for i in range(2)]
    rbs = lambda d: (('idx', P[0], d), ('idx', P[1], d))
    for st in it.ends:
        vals = [(k, v) for k, v in st.store.items() if isinstance(k, tuple) and k[0] == 'idx' and k[1][0] == 'v' and k[2][0] != 'c']
        for k, v in vals:
            d = k[2]
            rb, rs = rbs(d)
            e1, e2 = ('op', '+', rb, rs), ('op', '+', rs, rb)
            st2 = set(subterms(v))
            if rs not in st2:
                if rb in st2 and v[0] == 'op' and v[1] == '/':
                    C.count('block range cases')
                    C.oblige(v[2] == rb, where, 'per axis, the first block of a request is the one that holds its first element')
                elif rb in st2:
                    C.oblige(False, where, 'per axis, the first block of a request is the one that holds its first element', 'it is something else')
                continue
            e = e1 if e1 in st2 else e2
            if e not in st2:
                C.notes.append('%s: the last block was not recognised' % where)
                continue
            divs = [x for x in st2 if isinstance(x, tuple) and x[:2] == ('op', '/')]
            if len(divs) != 1:
                C.notes.append('%s: the last block was not recognised' % where)
                continue
            q = divs[0]
            off = lin(v) - lin(q)
            num = lin(q[2]) - lin(e)
            rem = None
            for fct, p in st.facts.items():
                g, pp = (fct[1], not p) if fct[0] == 'not' else (fct, p)
                if g[0] == '==' and ('c', 0) in g[1:] and any(isinstance(x, tuple) and x[:2] == ('op', '%') and x[2] == e for x in g[1:]):
                    rem = pp
                if g[0] == '<' and g[1] == ('c', 0) and isinstance(g[2], tuple) and g[2][:2] == ('op', '%') and g[2][2] == e:
                    rem = not pp
            C.count('block range cases')
            if not off.const() or not num.const():
                C.notes.append('%s: the last block was not recognised' % where)
                continue
            ok = (num.c == -1 and off.c == 0) or (num.c == 0 and off.c == -1 and rem is True) or (num.c == 0 and off.c == 0 and rem is False)
            C.oblige(ok, where, 'per axis, the last block of a request is the one that holds its last element',
                     'it is (end%+d) / block shape %+d where end is%s a multiple of the block shape' % (num.c, off.c, '' if rem else ' not' if rem is False else ' or is not'))
