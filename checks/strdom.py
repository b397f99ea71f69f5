"""Abstract interpretation with strings as concatenations: literals, unknown strings, decimal numbers, and one segment
per loop that appends something for each element of a sequence (what the first iteration appends, what later ones do)."""
from absint import *

STRT = ('std::basic_string<', 'std::filesystem::path', 'std::basic_string_view<', 'Aws::String')


def segs(v):
    if v[0] == 'cat':
        return v[1]
    if v == ('c', ''):
        return ()
    return (v,)


def cat(*vs):
    out = []
    for v in vs:
        for x in segs(v):
            if out and is_c(x) and is_c(out[-1]):
                out[-1] = ('c', str(out[-1][1]) + str(x[1]))
            else:
                out.append(x)
    if not out:
        return ('c', '')
    return out[0] if len(out) == 1 else ('cat', tuple(out))


def nonempty(v):
    for x in segs(v):
        if x[0] in ('num', 'open+') or (is_c(x) and x[1]):
            return True
    return v == ('c', '') and None


class StrInterp(Interp):
    CAP = 600
    MAXDEPTH = 14

    def __init__(self, u):
        super().__init__(u)
        self.undecided = []
        self.mode = None

    def isstr(self, t):
        return t.replace('const ', '').strip(' &').startswith(STRT)

    def model(self, s, name, n, obj, vs):
        base = name.rsplit('::', 1)[-1]
        op = n.get('op')
        if name == 'std::to_string' and vs:
            return [(s, ('num', self.val(s, vs[0])))]
        ot = self.u.ty(n.get('ot', -1)) if n.get('ot') is not None else ''
        strobj = obj is not None and self.isstr(ot)
        if op == '+' and (self.isstr(self.ty(n)) or self.ty(n).startswith(STRT)):
            a = [self.val(s, x) for x in (([obj] if obj is not None else []) + list(vs))]
            return [(s, cat(*a))]
        if op == '/' and 'path' in self.ty(n):
            a = [self.val(s, x) for x in (([obj] if obj is not None else []) + list(vs))]
            return [(s, cat(a[0], ('c', '/'), a[1]))]
        if strobj or (obj is not None and 'std::basic_string' in name):
            if (op in ('+=', '/=') or base in ('append', 'push_back', 'concat')) and len(vs) == 1:
                x = self.val(s, vs[0])
                if base == 'push_back' and is_c(x) and isinstance(x[1], int):
                    x = ('c', chr(x[1]))
                if op == '/=':
                    x = cat(('c', '/'), x)
                self.wr(s, obj, cat(self.rd(s, obj), x), n)
                return [(s, obj)]
            if base in ('string', 'c_str', 'data', 'native', 'u8string', 'str', 'generic_string') and not vs:
                return [(s, self.rd(s, obj))]
            if base == 'empty' and not vs:
                v = self.rd(s, obj)
                if v == ('c', ''):
                    return [(s, TRUE)]
                if nonempty(v):
                    return [(s, FALSE)]
                return [(s, ('empty', v))]
            if base in ('size', 'length') and not vs:
                v = self.rd(s, obj)
                return [(s, ('c', 0) if v == ('c', '') else ('len', v))]
            if base == 'reserve':
                return [(s, VOID)]
        if obj is not None and 'ostringstream' in ot + name or (obj is not None and 'stringstream' in ot):
            if base == 'str' and not vs:
                return [(s, self.rd(s, obj))]
        if op == '<<' and len(vs) in (1, 2):
            o = obj if obj is not None else vs[0]
            v = self.rd(s, o) if isinstance(o, tuple) and o[0] in ('v', 'f') else o
            if isinstance(v, tuple) and (v == ('c', '') or v[0] == 'cat' or v[0] in ('num', 'open+')) and o[0] in ('v', 'f'):
                x = self.val(s, vs[-1])
                a = (n.get('a') or [{}])[-1]
                t = self.u.ty(a.get('t', -1))
                if not self.isstr(t) and 'char' not in t:
                    x = ('num', x)
                self.wr(s, o, cat(v, x), n)
                return [(s, o)]
        if n['k'] == 'ctor' and name == 'std::vector::vector' and len(vs) >= 2 or name in ('std::vector::assign',) and len(vs) == 2:
            a, b = self.val(s, vs[0]), self.val(s, vs[1])
            if a[0] == 'call' and b[0] == 'call' and a[2:] == b[2:] and len(a) > 3 and a[1] in ('begin', 'rbegin') and b[1] == a[1].replace('begin', 'end'):
                v = ('rev', a[3]) if a[1] == 'rbegin' else a[3]
                if v[0] == 'rev' and v[1][0] == 'rev':
                    v = v[1][1]
                if n['k'] != 'ctor':
                    self.wr(s, obj, v, n)
                return [(s, v)]
        if name in ('std::reverse', 'std::ranges::reverse'):
            a = self.val(s, vs[0])
            l = a[2] if a[0] == 'call' and a[1] == 'begin' else vs[0] if len(vs) == 1 else None
            if l is not None:
                v = self.rd(s, l)
                self.wr(s, l, v[1] if v[0] == 'rev' else ('rev', v), n)
                return [(s, VOID)]
        return self.model2(s, name, n, obj, vs)

    def model2(self, s, name, n, obj, vs):
        return None

    def e_ctor(self, n, st, dst=None):
        cls = n['cls']
        if 'stringstream' in cls and not (n.get('cm') and n['a']):
            return [(st, ('c', ''))]
        if cls.startswith(STRT) and not n.get('cm'):
            r = []
            for s, vs in self.evs(n['a'], st):
                real = [self.val(s, v) for v, x in zip(vs, n['a']) if not self.is_alloc(x) and self.u.ty(x.get('t', -1)) != 'std::filesystem::path::format']
                if not real:
                    r.append((s, ('c', '')))
                elif len(real) == 2 and real[1][0] == 'len' and real[1][1] == real[0]:
                    r.append((s, real[0]))
                elif len(real) == 1 or (len(real) == 2 and cls.startswith('std::filesystem')):
                    r.append((s, real[0]))
                else:
                    r.append((s, ('call', 'string', None) + tuple(real)))
            return r
        return super().e_ctor(n, st, dst)

    # ------------------------------------------------------------- loops
    def pick(self, outs):
        g = [s for k, s, _ in outs if k in ('norm', 'cont')]
        g = self.merge(g)
        return g[0] if len(g) == 1 and len(outs) >= 1 and all(k in ('norm', 'cont') for k, _, _ in outs) else None

    def iteration(self, st, cond, body, inc, pre):
        cur = [st]
        if pre:
            cur = pre(st)
        if cond is not None:
            nxt = []
            for s in cur:
                T, F = self.branch(cond, s)
                nxt += T
            cur = nxt
        outs = []
        for s in cur:
            outs += self.exec(body, s)
        e = self.pick(outs)
        if e is None:
            return None
        if inc is not None:
            r = self.merge([s for s, _ in self.ev(inc, e)])
            if len(r) != 1:
                return None
            e = r[0]
        return e

    def loop(self, st, cond, body, inc, node, pre=None, post_cond=False, quant=None):
        probe = super().loop(st.copy(), cond, body, inc, node, pre, post_cond, quant)
        strs = set()
        for k, v in st.store.items():
            if isinstance(v, tuple) and v and (v[0] in ('cat', 'num') or is_c(v) and isinstance(v[1], str)) and isinstance(k, tuple) and k[0] in ('v', 'f', 'par', 'obj'):
                if any(s2.store.get(k) != v for _, s2, _ in probe):
                    strs.add(k)
        if not strs or post_cond:
            return probe
        thr = self.thr
        self.thr = []
        e1 = self.iteration(st.copy(), cond, body, inc, pre)
        if e1 is None and self.depends(st, cond, body, pre, strs):
            self.thr = thr
            out = st.copy()
            for k in strs:
                out.store[k] = cat(st.store[k], ('each', (('c', '<different things, depending on the value of the element>'),), (), True))
            return [('norm', out, None)]
        if e1 is None:
            self.thr = thr
            self.undecided.append(node)
            return probe
        s2 = e1.copy()
        ind = {}
        for k, v in e1.store.items():
            if k in strs or not isinstance(k, tuple) or k[0] != 'v':
                continue
            o = st.store.get(k)
            if o is not None and o != v and not (is_c(v) and isinstance(v[1], bool)):
                ind[k] = (o, v)
                s2.store[k] = ('later', k)
        for k in strs:
            s2.store[k] = ('open+', k)
        e2 = self.iteration(s2.copy(), cond, body, inc, pre)
        self.cur = st
        if e2 is None and self.depends(s2, cond, body, pre, strs):
            e2 = s2.copy()
            for k in strs:
                e2.store[k] = ('cat', (('open+', k), ('c', '<different things, depending on the value of the element>')))
        self.thr = thr
        if e2 is None:
            self.undecided.append(node)
            return probe
        out = st.copy()
        for k in set(e1.store) | set(e2.store):
            if k in strs or k not in st.store:
                continue
            if e1.store.get(k) != st.store.get(k) or e2.store.get(k) != st.store.get(k):
                out.store[k] = ('u', 'loop', next(self.uid))
        for k in strs:
            v0, v1, v2 = segs(st.store[k]), segs(self.rd(e1, k)), segs(self.rd(e2, k))
            a = self.suffix(v0, v1)
            b = v2[1:] if v2 and v2[0] == ('open+', k) else None
            if a is None or b is None:
                self.undecided.append(node)
                return probe
            out.store[k] = cat(st.store[k], ('each', tuple(self.elem(x, ind, 0) for x in a), tuple(self.elem(x, ind, 1) for x in b), self.covers(cond, st, s2, ind) if pre is None else True))
        return [('norm', out, None)]

    def depends(self, st, cond, body, pre, strs):
        """what is appended in the first round depends on the value of the element"""
        cur = pre(st.copy()) if pre else [st.copy()]
        if cond is not None:
            cur = [t for s in cur for t in self.branch(cond, s)[0]]
        ends = [s2 for s in cur for k, s2, _ in self.exec(body, s) if k in ('norm', 'cont')]
        if len({tuple(self.rd(s, k) for k in strs) for s in ends}) < 2:
            return False
        return any(f not in st.facts and any(isinstance(x, tuple) and x and x[0] in ('deref', 'idx') for x in subterms(f)) for s in ends for f in s.facts)

    def suffix(self, v0, v1):
        if v1[:len(v0)] == v0:
            return v1[len(v0):]
        if v0 and v1 and is_c(v0[-1]) and is_c(v1[len(v0) - 1]) and v1[:len(v0) - 1] == v0[:-1] and v1[len(v0) - 1][1].startswith(v0[-1][1]):
            return (('c', v1[len(v0) - 1][1][len(v0[-1][1]):]),) + tuple(v1[len(v0):])
        return None

    def covers(self, cond, st, s2, ind):
        """the loop goes on until the end of the sequence"""
        if len([k for k in ind]) < 1 or cond is None:
            return False
        r = self.ev(cond, s2.copy())
        if len(r) != 1:
            return False
        v = r[0][1]
        pol = True
        if v[0] == 'not':
            v, pol = v[1], False
        for k, (o, nxt) in ind.items():
            lt = ('later', k)
            if v[0] in ('==', '<', '<=') and lt in v[1:3]:
                other = v[2] if v[1] == lt else v[1]
                if v[0] == '==' and not pol and other[0] == 'call' and other[1] in ('end', 'rend', 'cend', 'crend'):
                    return o[0] == 'call' and o[1].lstrip('c').replace('begin', 'end') == other[1].lstrip('c') and o[2:] == other[2:]
                if (v[0] == '<' and pol and v[1] == lt or v[0] == '==' and not pol) and other[0] == 'call' and other[1] == 'size':
                    return o == ('c', 0)
                if other == ('c', 0):
                    return 'size' in repr(o)
        return None

    def elem(self, x, ind, phase):
        x = self.elem_(x, ind, phase)
        if x[0] == 'el':
            v = self.rd(self.cur, x[1])
            if v[0] == 'rev':
                x = ('el', v, x[2])
        while x[0] == 'el' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'rev':
            x = ('el', x[1][1], -x[2])
        return x

    def elem_(self, x, ind, phase):
        """an element of a sequence, by position in the walk over it: ('el', sequence, direction)"""
        if x[0] == 'num':
            return ('num', self.elem(x[1], ind, phase))
        if x[0] == 'idx':
            seq, i = x[1], x[2]
            if i[0] == 'u' or 'it' in i[:2]:
                return ('el', self.canon(seq), 1)
            for k, (o, v) in ind.items():
                at = o if phase == 0 else ('later', k)
                step = self.step(o, v)
                if step is None:
                    continue
                if phase == 0:
                    if i == ('c', 0):
                        return ('el', self.canon(seq), 1)
                    if self.islast(i):
                        return ('el', self.canon(seq), -1)
                else:
                    if i == at:
                        return ('el', self.canon(seq), step)
                    if mentions(i, at):
                        sgn = self.coef(i, at)
                        if sgn:
                            return ('el', self.canon(seq), step * sgn)
        if x[0] in ('deref', 'idx'):
            it = x[1]
            for k, (o, v) in ind.items():
                if it == o or it == ('later', k):
                    if o[0] == 'call' and o[1] in ('begin', 'rbegin') and self.step(o, v) == 1:
                        return ('el', self.canon(o[3]), 1 if o[1] == 'begin' else -1)
                    if o[0] == 'call' and o[1] in ('end', 'rend') and self.step(o, v) == -1:
                        return ('el', self.canon(o[3]), -1 if o[1] == 'end' else 1)
        return x

    def coef(self, i, at):
        if i == at:
            return 1
        if i[0] == 'op' and i[1] in '+-' and len(i) == 4:
            a, b = self.coef(i[2], at), self.coef(i[3], at)
            return a + b if i[1] == '+' else a - b
        return 0

    def islast(self, i):
        l = repr(i)
        return 'size' in l and lin(i) is not None

    def canon(self, v):
        while isinstance(v, tuple) and v and v[0] == 'call' and len(v) > 2 and v[1] in ('begin', 'rbegin'):
            v = v[2]
        return v

    def step(self, o, v):
        if is_c(o) and is_c(v) and isinstance(o[1], int) and isinstance(v[1], int):
            return v[1] - o[1] if abs(v[1] - o[1]) == 1 else None
        if v == self.arith('+', o, ('c', 1)):
            return 1
        if v == self.arith('-', o, ('c', 1)) or o == self.arith('+', v, ('c', 1)):
            return -1
        return None
