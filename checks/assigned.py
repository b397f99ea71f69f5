"""P22: every value that is read was assigned on every path that leads there.

Definite assignment over the resolved trees, between functions. Tracked are scalar locals and local
scalar arrays declared without a value, scalar fields that a constructor leaves without one, and, in
the summary of each function, the scalars its reference and pointer parameters (and `this`) refer to.
A summary says which of those may be read before they are assigned, and which may still be without a
value when the function returns (told apart by a constant boolean result). Conditions met twice on a
path are assumed to have the same outcome unless what they mention was assigned in between."""
import re
import common, facts

SCALAR = re.compile(r'^(const )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|long double|unsigned|'
                    r'signed|wchar_t|char8_t|char16_t|char32_t)( int)?( const)?$')
CAP = 24


class S:
    __slots__ = ('U', 'F', 'dead')

    def __init__(self, U=(), F=None):
        self.U, self.F, self.dead = set(U), dict(F or {}), False

    def copy(self):
        return S(self.U, self.F)

    def key(self):
        return (frozenset(self.U), frozenset(self.F.items()))


class Summary:
    def __init__(self):
        self.reads = {}            # location -> line
        self.left = {}             # True/False/None -> set of locations


class Analysis:
    def __init__(self, unit, chk=None):
        self.u, self.chk = unit, chk
        self.memo, self.active = {}, []
        self.enums = {e.get('n') for e in unit.enums} | {e.get('qn') for e in unit.enums}
        self.fcache, self.ccache = {}, {}
        self.n_decl = self.n_out = self.n_ctor = self.n_call = 0
        self.caps = {}                # body of a lambda -> what it captures by reference
        for f in unit.funcs.values():
            st = [f.get('body')]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if x.get('k') == 'lambda':
                        for fid in x.get('fids', ()):
                            self.caps[fid] = [c for c in x.get('caps', ()) if c.get('ref') and c.get('d') is not None]
                    st.extend(v for v in x.values() if isinstance(v, (dict, list)))
                elif isinstance(x, list):
                    st.extend(v for v in x if isinstance(v, (dict, list)))

    # ---- types
    def scalar(self, t):
        t = re.sub(r'\b(const|volatile) ', '', t).strip()
        t = re.sub(r' (const|volatile)$', '', t)
        if t.endswith('*') or t.endswith('*const') or t.endswith('* const'):
            return True
        return bool(SCALAR.match(t)) or t in self.enums

    def base(self, t):
        """record name behind references, pointers and qualifiers"""
        t = t.strip()
        while t and t[-1] in '&* ':
            t = t[:-1]
        t = re.sub(r'^const ', '', t)
        t = re.sub(r' const$', '', t)
        return t

    def fields(self, cls):
        """scalar fields of a record of the tree, its bases included: {name: has an initialiser}"""
        if cls in self.fcache:
            return self.fcache[cls]
        self.fcache[cls] = {}
        r = self.u.rec.get(cls)
        out = {}
        if r is not None:
            for b in self.u.bases.get(cls, ()):
                out.update(self.fields(b))
            for f in r['fields']:
                if self.scalar(self.u.ty(f['t'])):
                    out[f['n']] = f.get('init') is not None
        self.fcache[cls] = out
        return out

    def ctor_left(self, e):
        """scalar fields without a value after constructor expression e"""
        cls = e.get('cls') or self.u.ty(e.get('t'))
        flds = self.fields(cls)
        if not flds or e.get('zi'):
            return frozenset()
        if e.get('cm'):
            return frozenset()
        fn = self.u.funcs.get(e.get('fid'))
        if fn is None or fn.get('implicit') or fn.get('defaulted') or not fn.get('ctor'):
            if fn is not None and fn.get('ctor'):
                return self.ctor_body_left(fn, cls)
            if fn is None and e.get('fid') is not None and not self.is_default_ctor(e):
                return frozenset()
            return frozenset(f for f, i in flds.items() if not i) if not e.get('a') else frozenset()
        return self.ctor_body_left(fn, cls)

    def is_default_ctor(self, e):
        return not e.get('a')

    def ctor_body_left(self, fn, cls):
        sm = self.summary(fn['fid'])
        left = set()
        for v in sm.left.values():
            left |= {l[1] for l in v if l[0] == 't'}
        return frozenset(left)

    # ---- summaries
    def summary(self, fid):
        if fid in self.memo:
            return self.memo[fid]
        fn = self.u.funcs.get(fid)
        sm = Summary()
        self.memo[fid] = sm           # recursion: nothing read, everything assigned
        if fn is None or (fn.get('body') is None and not fn.get('ctor')):
            return sm
        out = Run(self, fn).go()
        self.memo[fid] = out
        return out

    def targets(self, e):
        """summaries a call may run"""
        fid = e.get('fid')
        if fid is None:
            return None
        ids = [fid]
        if e.get('virt') and not e.get('nonvirt'):
            ids = [fid] + sorted(self.u.over.get(fid, ()))
        out = []
        for i in ids:
            f = self.u.funcs.get(i)
            if f is not None and f.get('body') is not None:
                out.append((f, self.summary(i)))
        return out or None


def strip(e):
    while isinstance(e, dict) and e.get('k') == 'cast':
        e = e.get('e')
    return e


class Run:
    """one function"""
    def __init__(self, an, fn):
        self.an, self.u, self.fn = an, an.u, fn
        self.sm = Summary()
        self.own = set()              # locations that are locals of this function
        self.names = {}
        self.params = {}
        self.brk, self.cnt = [], []
        self.ctor = bool(fn.get('ctor'))
        self.watch = []               # enclosing try blocks: states seen
        self.refs = set()

    def go(self):
        fn, u, an = self.fn, self.u, self.an
        s = S()
        for p in fn.get('params', ()):
            t = u.ty(p['t'])
            self.params[p['d']] = p
            self.names[p['d']] = p['n']
            b = an.base(t)
            if t.endswith('&') or t.endswith('&&'):
                inner = t.rstrip('& ')
                if an.scalar(inner):
                    if not inner.startswith('const ') and not inner.endswith('const'):
                        an.n_out += 1
                    s.U.add(('v', p['d']))
            elif t.endswith('*'):
                s.U.add(('*', p['d']))
            for f in an.fields(b):
                s.U.add(('f', p['d'], f))
        for c in an.caps.get(fn['fid'], ()):
            t = u.ty(c['t'])
            self.names[c['d']] = c['n']
            if an.scalar(t.rstrip('& ')) or t.endswith(']'):
                s.U.add(('v', c['d']))
            else:
                for f in an.fields(an.base(t)):
                    s.U.add(('f', c['d'], f))
        cls = fn.get('cls')
        if cls and not fn.get('static') and not fn.get('lambda'):
            for f in an.fields(cls):
                s.U.add(('t', f))
        if fn.get('ctor'):
            an.n_ctor += 1
            done = set()
            r = u.rec.get(cls)
            inits = fn.get('inits', ())
            for i in inits:
                if i.get('deleg'):
                    self.ev(i.get('e'), s)
                    left = an.ctor_left(i['e']) if i.get('e') and i['e'].get('k') == 'ctor' else ()
                    for f in list(an.fields(cls)):
                        if f not in left:
                            s.U.discard(('t', f))
                elif i.get('base') is not None:
                    self.ev(i.get('e'), s)
                    left = an.ctor_left(i['e']) if i.get('e') and i['e'].get('k') == 'ctor' else ()
                    for f in an.fields(u.ty(i['base'])):
                        if f not in left:
                            s.U.discard(('t', f))
                else:
                    e = i.get('e')
                    self.ev(e, s)
                    if e is None:
                        continue
                    if e.get('k') != 'unk':
                        s.U.discard(('t', i['n']))
            if r is not None:
                for f in r['fields']:
                    if f.get('init') is not None:
                        s.U.discard(('t', f['n']))
        body = fn.get('body')
        states = self.st(body, [s]) if body is not None else [s]
        for x in states:
            self.leave(x, None)
        return self.sm

    def leave(self, s, val):
        mine = set(l for l in s.U if l not in self.own)
        if val is None and not self.ctor and self.u.ty(self.fn.get('rt')) not in ('void', 'bool') and None in self.sm.left:
            # the result may tell the caller what was assigned: only what is assigned on no return counts
            self.sm.left[None] &= mine
        else:
            self.sm.left.setdefault(val, set()).update(mine)

    # ---- locations
    def root(self, e):
        """('r', d) for a record variable, ('this',) for this object, None if unknown"""
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if e['k'] == 'ref' and e.get('d') is not None:
            return ('r', e['d'])
        if e['k'] == 'this':
            return ('this',)
        if e['k'] == 'un' and e.get('op') in ('*', '&'):
            i = strip(e.get('e'))
            if e['op'] == '*' and isinstance(i, dict) and i.get('k') == 'this':
                return ('this',)
            if e['op'] == '&':
                return self.root(i)
        return None

    def loc(self, e):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        k = e['k']
        if k == 'ref' and e.get('d') is not None and e.get('dk') in ('local', 'param'):
            return ('v', e['d'])
        if k == 'mem' and not e.get('fn'):
            r = self.root(e.get('b'))
            if r is None:
                return None
            return ('t', e['n']) if r[0] == 'this' else ('f', r[1], e['n'])
        if k == 'un' and e.get('op') == '*':
            i = strip(e.get('e'))
            if isinstance(i, dict) and i.get('k') == 'ref' and i.get('dk') == 'param':
                return ('*', i['d'])
        if k == 'idx':
            i = strip(e.get('b'))
            if isinstance(i, dict) and i.get('k') == 'ref':
                if i.get('dk') == 'param' and ('*', i['d']) is not None and self.is_ptr_param(i['d']):
                    return ('*', i['d'])
                return ('v', i['d']) if i.get('dk') == 'local' else None
        return None

    def is_ptr_param(self, d):
        p = self.params.get(d)
        return p is not None and self.u.ty(p['t']).endswith('*')

    # ---- events
    def read(self, l, s, line):
        if l in s.U:
            if l in self.own:
                self.report(l, line)
                s.U.discard(l)
            else:
                self.sm.reads.setdefault(l, line)

    def report(self, l, line, via=''):
        chk = self.an.chk
        if chk is None:
            return
        what = self.names.get(l[1], '?')
        if l[0] == 'f':
            what += '.' + l[2]
        chk.violate('%s:%d' % (self.fn['file'], line), '%s: %s has a value when it is read' % (self.fn['qn'], what),
                    'it may be read without having been assigned' + via)

    def assign(self, l, s):
        s.U.discard(l)
        if l and l[0] in ('v', 'f', 't'):
            d = l[1]
            for k in [k for k in s.F if ('#%s#' % (d,)) in k]:
                del s.F[k]

    # ---- expressions; the state is changed in place
    def captured(self, e, d, s):
        """a lambda that is handed on directly runs now: what it reads of variable d must have a value"""
        for fid in e.get('fids', ()):
            sm = self.an.summary(fid)
            for l, rl in sm.reads.items():
                if l[1] == d and l in s.U:
                    if l in self.own:
                        self.report(l, rl, ' (by the function object made on line %d)' % e.get('l', 0))
                        s.U.discard(l)
                    else:
                        self.sm.reads.setdefault(l, rl)

    def ev(self, e, s, held=False):
        if not isinstance(e, dict) or s.dead:
            return
        k = e.get('k')
        if k == 'ref':
            if e.get('dk') in ('local', 'param') and e.get('d') is not None:
                self.read(('v', e['d']), s, e.get('l', 0))
            return
        if k == 'mem':
            l = self.loc(e)
            if l is not None:
                self.read(l, s, e.get('l', 0))
            b = strip(e.get('b'))
            if not (isinstance(b, dict) and b.get('k') in ('ref', 'this')):
                self.ev(e.get('b'), s)
            elif b.get('k') == 'ref' and e.get('arrow'):
                self.ev(b, s)
            return
        if k == 'asg':
            self.ev(e.get('b'), s)
            l = self.loc(e.get('a'))
            if e.get('op') != '=':
                self.ev(e.get('a'), s)
            else:
                self.lhs(e.get('a'), s)
            if l is not None:
                self.assign(l, s)
            return
        if k == 'un':
            op = e.get('op')
            if op == '&':
                l = self.loc(e.get('e'))
                if l is not None:
                    self.assign(l, s)
                    r = strip(e.get('e'))
                    if r.get('k') == 'ref':
                        self.drop(r['d'], s)
                    return
                self.lhs(e.get('e'), s)
                return
            self.ev(e.get('e'), s)
            if op == '*':
                l = self.loc(e)
                if l is not None:
                    self.read(l, s, e.get('l', 0))
            if op in ('++', '--'):
                l = self.loc(e.get('e'))
                if l is not None:
                    self.assign(l, s)
            return
        if k == 'idx':
            l = self.loc(e)
            self.ev(e.get('i'), s)
            if l is not None:
                self.read(l, s, e.get('l', 0))
                if l[0] == '*':
                    return
                return
            self.ev(e.get('b'), s)
            return
        if k == 'bin' and e.get('op') in ('&&', '||'):
            t, f = self.cond(e, s.copy())
            self.into(s, t + f)
            return
        if k == 'cond':
            t, f = self.cond(e.get('c'), s.copy())
            out = []
            for x, y in ((t, e.get('a')), (f, e.get('b'))):
                for z in x:
                    self.ev(y, z)
                    out.append(z)
            self.into(s, out)
            return
        if k == 'call':
            parts = self.call(e, s)
            self.into(s, [x for v in parts.values() for x in v])
            return
        if k == 'ctor':
            self.build(e, s)
            left = self.an.ctor_left(e)
            if left:
                self.obj(e, left)
            return
        if k == 'new':
            self.ev(e.get('n'), s)
            self.ev(e.get('init'), s)
            return
        if k == 'lambda':
            for c in e.get('caps', ()):
                if c.get('d') is not None:
                    if c.get('ref'):
                        if not held:
                            self.captured(e, c['d'], s)
                        self.assign(('v', c['d']), s)
                        self.drop(c['d'], s)
                    elif not c.get('ic'):
                        self.read(('v', c['d']), s, e.get('l', 0))
                    else:
                        self.ev(c.get('init'), s)
            return
        if k == 'throw':
            self.ev(e.get('e'), s)
            self.note(s)
            s.dead = True
            return
        if k in ('sizeof', 'typeid'):
            return
        if k == 'unk' and e.get('c') in ('CXXNoexceptExpr', 'SizeOfPackExpr'):
            return
        for key, v in e.items():
            if isinstance(v, dict):
                self.ev(v, s)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        self.ev(x, s)

    def build(self, e, s):
        """the arguments of a constructor and what it reads of them"""
        parts = self.call(e, s)
        self.into(s, [x for v in parts.values() for x in v])

    def obj(self, e, left):
        """an object other than a named local was constructed with fields that have no value"""
        an = self.an
        cls = e.get('cls')
        if an.chk is None:
            return
        # only matters if some function of the tree reads the field before it assigns it
        bad = []
        for f in sorted(left):
            if (cls, f) in an.read_fields():
                bad.append(f)
        for f in bad:
            an.chk.violate('%s:%d' % (self.fn['file'], e.get('l', 0)), '%s: field %s of the new %s has a value' % (self.fn['qn'], f, facts.skel(cls)),
                           'the constructor used leaves it unassigned')

    def drop(self, d, s):
        for l in [l for l in s.U if l[0] in ('f', '*') and l[1] == d]:
            s.U.discard(l)

    def lhs(self, e, s):
        """operands of the place an assignment goes to"""
        e = strip(e)
        if not isinstance(e, dict):
            return
        k = e['k']
        if k == 'ref':
            return
        if k == 'mem':
            b = strip(e.get('b'))
            if isinstance(b, dict) and b.get('k') not in ('ref', 'this'):
                self.lhs(b, s) if not e.get('arrow') else self.ev(b, s)
            return
        if k == 'idx':
            self.ev(e.get('i'), s)
            b = strip(e.get('b'))
            if isinstance(b, dict) and b.get('k') == 'ref':
                if self.is_ptr_param(b.get('d')):
                    return
                return
            self.lhs(b, s)
            return
        if k == 'un' and e.get('op') == '*':
            i = strip(e.get('e'))
            if isinstance(i, dict) and i.get('k') == 'ref' and self.is_ptr_param(i.get('d')):
                return
            self.ev(e.get('e'), s)
            return
        if k == 'cond':
            for z in (e.get('a'), e.get('b')):
                l = self.loc(z)
                if l is not None:
                    self.assign(l, s)
            self.ev(e.get('c'), s)
            return
        self.ev(e, s)

    def args(self, e, s, skip=()):
        pm = e.get('pm', '')
        for i, a in enumerate(e.get('a', ())):
            if i in skip or a is None:
                continue
            m = pm[i] if i < len(pm) else 'v'
            self.arg(a, m, s)

    def arg(self, a, m, s):
        """an argument of a function we do not know"""
        b = strip(a)
        l = self.loc(b)
        if isinstance(b, dict) and b.get('k') == 'ref' and b.get('dk') in ('local', 'param'):
            t = self.u.ty(b.get('t'))
            if m in 'rm' or (m == 'p' and t.endswith(']')):
                self.assign(('v', b['d']), s)
                self.drop(b['d'], s)
                return
            if m == 'p':
                self.read(('v', b['d']), s, b.get('l', 0))
                self.drop(b['d'], s)
                return
            self.drop_if_record(b, s)
            self.read(('v', b['d']), s, b.get('l', 0))
            return
        if l is not None and m in 'rm':
            self.assign(l, s)
            self.lhs(b, s)
            return
        self.ev(a, s)

    def drop_if_record(self, b, s):
        return

    def note(self, s):
        for w in self.watch:
            w.append(s.copy())

    def into(self, s, states):
        """replace s by the join of states"""
        live = [x for x in states if not x.dead]
        if not live:
            s.dead = True
            return
        s.U = set().union(*[x.U for x in live])
        F = dict(live[0].F)
        for x in live[1:]:
            F = {k: v for k, v in F.items() if x.F.get(k) == v}
        s.F = F

    # ---- calls
    def call(self, e, s):
        """evaluates a call; {constant result or None: [states]}"""
        self.an.n_call += 1
        o = e.get('o')
        tg = self.an.targets(e)
        if e.get('c') is not None:
            self.ev(e['c'], s)
        if tg is None or any(len(f.get('params', ())) != len(e.get('a', ())) for f, _ in tg):
            if o is not None:
                b = strip(o)
                if isinstance(b, dict) and b.get('k') == 'ref':
                    if not e.get('const'):
                        self.assign(('v', b['d']), s)
                        self.drop(b['d'], s)
                elif not e.get('const') and self.loc(b) is not None:
                    self.lhs(b, s)
                    self.assign(self.loc(b), s)
                else:
                    self.ev(o, s)
            self.args(e, s)
            if s.dead:
                return {None: [s]}
            self.note(s)
            if e.get('noret'):
                s.dead = True
            return {None: [s]}
        if o is not None:
            r = self.root(o)
            if r is None:
                self.ev(o, s)
            elif r[0] == 'r' and e.get('arrow'):
                self.ev(strip(o), s)
        # operands, then the effect of each callee
        maps = []
        for i, a in enumerate(e.get('a', ())):
            b = strip(a)
            l = self.loc(b)
            isaddr = isinstance(b, dict) and b.get('k') == 'un' and b.get('op') == '&'
            if isaddr:
                l = self.loc(b.get('e'))
                if l is None:
                    self.ev(a, s)
                maps.append(('addr', l, self.root(b.get('e'))))
            elif isinstance(b, dict) and b.get('k') == 'ref':
                t = self.u.ty(b.get('t'))
                if t.endswith(']'):
                    maps.append(('addr', l, None))
                else:
                    maps.append(('obj', l, self.root(b)))
            elif l is not None:
                self.lhs(b, s)
                maps.append(('obj', l, None))
            elif isinstance(b, dict) and self.root(b) is not None:
                maps.append(('obj', None, self.root(b)))
            else:
                self.ev(a, s)
                maps.append(('val', None, None))
        if s.dead:
            return {None: [s]}
        self.note(s)
        out = {}
        vals = set()
        for f, sm in tg:
            vals |= set(sm.left) or {None}
        orig = s
        line = e.get('l', 0)
        # reads
        for f, sm in tg:
            tr = self.translate(f, maps, o, e)
            byval = set()
            for i, p in enumerate(f.get('params', ())):
                t = self.u.ty(p['t'])
                kind, l, r = maps[i]
                if kind == 'obj' and l is not None and not t.endswith('&'):
                    self.read(l, orig, line)
            for l, rl in sm.reads.items():
                m = tr(l)
                if m is not None and m in orig.U:
                    if m in self.own:
                        self.report(m, line, ' (in %s, line %d)' % (f['qn'], rl))
                        orig.U.discard(m)
                    else:
                        self.sm.reads.setdefault(m, line)
        if any(f.get('n') is None for f, _ in tg):
            return {None: [s]}
        for v in vals:
            x = orig.copy()
            U = set()
            for f, sm in tg:
                tr = self.translate(f, maps, o, e)
                if sm.left and v not in sm.left:
                    continue
                left = sm.left.get(v, set())
                y = set(orig.U)
                for loc, inner in self.covered(f, maps, o, orig, tr):
                    if inner not in left:
                        y.discard(loc)
                U |= y
            x.U = U
            for kind, l, r in maps:
                pass
            out.setdefault(v, []).append(x)
        # facts about what was passed for modification no longer hold
        for i, a in enumerate(e.get('a', ())):
            if i < len(e.get('pm', '')) and e['pm'][i] in 'rp':
                r = self.root(a)
                l = maps[i][1]
                for xs in out.values():
                    for x in xs:
                        for d in [z for z in ((r[1] if r and r[0] == 'r' else None), (l[1] if l else None)) if z is not None]:
                            for kk in [kk for kk in x.F if ('#%s#' % (d,)) in kk]:
                                del x.F[kk]
        return out or {None: [s]}

    def translate(self, f, maps, o, e):
        pidx = {p['d']: i for i, p in enumerate(f.get('params', ()))}

        def tr(l):
            if l[0] == 't':
                r = self.root(o) if o is not None else None
                if r is None:
                    return None
                return ('t', l[1]) if r[0] == 'this' else ('f', r[1], l[1])
            i = pidx.get(l[1])
            if i is None or i >= len(maps):
                return None
            kind, al, r = maps[i]
            if l[0] == 'v':
                return al if kind == 'obj' else None
            if l[0] == '*':
                if kind == 'addr':
                    return al
                if kind == 'obj' and al is not None and al[0] == 'v':
                    return ('*', al[1])
                return None
            if l[0] == 'f':
                if r is None:
                    return None
                return ('t', l[2]) if r[0] == 'this' else ('f', r[1], l[2])
        return tr

    def covered(self, f, maps, o, s, tr):
        """(our location, the callee's name of it) for everything the callee can assign"""
        cand = []
        for i, p in enumerate(f.get('params', ())):
            t = self.u.ty(p['t'])
            if t.endswith('&') and self.an.scalar(t.rstrip('& ')):
                cand.append(('v', p['d']))
            if t.endswith('*'):
                cand.append(('*', p['d']))
            for x in self.an.fields(self.an.base(t)):
                if t.endswith('&') or t.endswith('*'):
                    cand.append(('f', p['d'], x))
        if f.get('cls') and not f.get('static') and not f.get('lambda'):
            for x in self.an.fields(f['cls']):
                cand.append(('t', x))
        out = []
        for c in cand:
            m = tr(c)
            if m is not None and m in s.U:
                out.append((m, c))
        return out

    # ---- conditions
    def ckey(self, e):
        """a name for a condition without effects, None if it has any"""
        e = e if isinstance(e, dict) else None
        if e is None:
            return None
        k = e['k']
        if k == 'ref':
            return '#%s#' % (e['d'],) if e.get('d') is not None else e.get('qn') or e.get('fn') or e.get('n')
        if k in ('int', 'bool', 'float', 'str'):
            return '%s' % (e.get('v'),)
        if k == 'null':
            return 'null'
        if k == 'this':
            return 'this'
        if k == 'cast':
            return self.ckey(e.get('e'))
        if k == 'un' and e.get('op') in ('!', '-', '~', '*'):
            x = self.ckey(e.get('e'))
            return None if x is None else '(%s%s)' % (e['op'], x)
        if k == 'bin':
            a, b = self.ckey(e.get('a')), self.ckey(e.get('b'))
            return None if a is None or b is None else '(%s%s%s)' % (a, e['op'], b)
        if k == 'mem' and not e.get('fn'):
            x = self.ckey(e.get('b'))
            if x is None:
                return None
            r = self.root(e.get('b'))
            return '%s.%s' % (x, ('#%s#' % e['n']) if r and r[0] == 'this' else e['n'])
        if k == 'call' and (e.get('const') or e.get('o') is None):
            parts = [self.ckey(x) for x in ([e['o']] if e.get('o') is not None else []) + [a for a in e.get('a', ()) if a is not None]]
            if any(p is None for p in parts) or any(m in 'rp' for m in e.get('pm', '')):
                return None
            return '%s(%s)' % (e.get('fn') or e.get('op'), ','.join(parts))
        return None

    def cond(self, e, s):
        """(states where e holds, states where it does not)"""
        if not isinstance(e, dict):
            return [s], [s.copy()]
        k = e['k']
        if k == 'un' and e.get('op') == '!':
            t, f = self.cond(e.get('e'), s)
            return f, t
        if k == 'cast':
            return self.cond(e.get('e'), s)
        if k == 'bool':
            return ([s], []) if e.get('v') else ([], [s])
        if k == 'bin' and e.get('op') in ('&&', '||'):
            t, f = self.cond(e.get('a'), s)
            out_t, out_f = ([], f) if e['op'] == '&&' else (t, [])
            out_t, out_f = list(out_t), list(out_f)
            for x in (t if e['op'] == '&&' else f):
                a, b = self.cond(e.get('b'), x)
                out_t += a
                out_f += b
            return cap(out_t), cap(out_f)
        key = self.ckey(e)
        neg = False
        if k == 'call' and e.get('fid') is not None:
            parts = self.call(e, s)
            t, f = [], []
            for v, xs in parts.items():
                for x in xs:
                    if x.dead:
                        continue
                    if v is None or v is True:
                        t.append(x)
                    if v is None or v is False:
                        f.append(x.copy())
        else:
            self.ev(e, s)
            if s.dead:
                return [], []
            t, f = [s], [s.copy()]
        if key is not None:
            if k == 'bin' and e.get('op') == '!=':
                a, b = self.ckey(e.get('a')), self.ckey(e.get('b'))
                key, neg = '(%s==%s)' % (a, b), True
            t = [x for x in t if x.F.get(key, not neg) == (not neg)]
            f = [x for x in f if x.F.get(key, neg) == neg]
            for x in t:
                x.F[key] = not neg
            for x in f:
                x.F[key] = neg
        return t, f

    # ---- statements: list of states -> list of states that go on
    def st(self, n, states):
        if n is None or not states:
            return states
        k = n.get('k')
        if k == 'seq':
            for x in n.get('b', ()):
                states = self.st(x, states)
                if not states:
                    break
            return states
        if k == 'decl':
            for v in n.get('v', ()):
                states = self.var(v, states)
            return states
        if k == 'if':
            states = self.st(n.get('init'), states)
            states = self.st(n.get('cvar'), states)
            if n.get('k2') == 'resolved':
                return self.st(n.get('then'), states)
            if n.get('constexpr') and n.get('c') is None:
                return states
            t, f = [], []
            for s in states:
                a, b = self.cond(n.get('c'), s)
                t += a
                f += b
            t = self.st(n.get('then'), cap(t))
            f = self.st(n.get('else'), cap(f)) if n.get('else') else f
            return cap(t + f)
        if k in ('for', 'while', 'do'):
            states = self.st(n.get('init'), states) if k == 'for' else states
            states = self.st(n.get('cvar'), states) if k == 'while' else states
            self.brk.append([])
            out = []
            forever = n.get('c') is None or (n['c'].get('k') == 'bool' and n['c'].get('v')) or (n['c'].get('k') == 'int' and n['c'].get('v') != '0')
            cur = states
            for rnd in range(2):
                if k != 'do':
                    t = []
                    for s in cur:
                        if n.get('c') is None:
                            t.append(s)
                        else:
                            a, b = self.cond(n['c'], s.copy())
                            t += a
                            if not forever:
                                out += b
                    cur = cap(t)
                self.cnt.append([])
                cur = self.st(n.get('body'), cur)
                cur = cap(cur + self.cnt.pop())
                if k == 'for':
                    for s in cur:
                        self.ev(n.get('inc'), s)
                    cur = [s for s in cur if not s.dead]
                if k == 'do':
                    t = []
                    for s in cur:
                        a, b = self.cond(n.get('c'), s)
                        t += a
                        if not forever:
                            out += b
                    cur = cap(t)
                for s in cur:
                    s.F = {}
            if not forever and k != 'do':
                out += cur
            out += self.brk.pop()
            return cap([s for s in out if not s.dead])
        if k == 'rfor':
            for s in states:
                self.ev(n.get('range'), s)
            states = [s for s in states if not s.dead]
            self.brk.append([])
            self.cnt.append([])
            cur = [s.copy() for s in states]
            self.own_var(n['var'])
            cur = self.st(n.get('body'), cur)
            cur = cur + self.cnt.pop()
            for s in cur:
                s.F = {}
            return cap(states + cur + self.brk.pop())
        if k == 'switch':
            states = self.st(n.get('init'), states)
            states = self.st(n.get('cvar'), states)
            for s in states:
                self.ev(n.get('c'), s)
            states = [s for s in states if not s.dead]
            self.brk.append([])
            body = n.get('body') or {}
            items = body.get('b', ()) if body.get('k') == 'seq' else [body]
            cur, has_default, ncase = [], False, 0
            for it in items:
                while isinstance(it, dict) and it.get('k') in ('case', 'default'):
                    if it['k'] == 'default':
                        has_default = True
                    ncase += 1
                    cur = cur + [s.copy() for s in states]
                    it = it.get('s')
                cur = self.st(it, cap(cur))
            out = cur + self.brk.pop()
            if not has_default and not self.exhaustive(n):
                out += states
            return cap(out)
        if k == 'ret':
            e = n.get('e')
            for s in states:
                if e is None:
                    self.leave(s, None)
                    continue
                b = strip(e)
                if isinstance(b, dict) and b.get('k') == 'bool':
                    self.leave(s, bool(b.get('v')))
                    continue
                if self.u.ty(self.fn.get('rt')) == 'bool':
                    t, f = self.cond(e, s)
                    for x in t:
                        self.leave(x, True)
                    for x in f:
                        self.leave(x, False)
                    continue
                if self.u.ty(self.fn.get('rt')).endswith('&') and self.loc(b) is not None:
                    self.assign(self.loc(b), s)
                else:
                    self.ev(e, s)
                if not s.dead:
                    self.leave(s, None)
            return []
        if k == 'break':
            if self.brk:
                self.brk[-1] += states
            return []
        if k == 'continue':
            if self.cnt:
                self.cnt[-1] += states
            return []
        if k == 'try':
            w = [s.copy() for s in states]
            self.watch.append(w)
            out = self.st(n.get('body'), states)
            self.watch.pop()
            h0 = cap(w)
            res = list(out)
            for h in n.get('h', ()):
                res += self.st(h.get('body'), [s.copy() for s in h0])
            return cap(res)
        if k in ('null',):
            return states
        if k == 'label':
            return self.st(n.get('s'), states)
        if k == 'unk':
            return states
        # expression statement
        out = []
        if k == 'call':
            for s in states:
                for xs in self.call(n, s).values():
                    out += [x for x in xs if not x.dead]
            for x in out:
                self.note(x)
            return cap(out)
        for s in states:
            self.ev(n, s)
            self.note(s)
            if not s.dead:
                out.append(s)
        return out

    def exhaustive(self, n):
        t = self.u.ty(strip(n.get('c')).get('t')) if isinstance(strip(n.get('c')), dict) else ''
        return self.an.base(t) in self.an.enums

    def own_var(self, v):
        self.names[v['d']] = v['n']

    def var(self, v, states):
        an, u = self.an, self.u
        self.names[v['d']] = v['n']
        t = u.ty(v['t'])
        e = v.get('init')
        d = v['d']
        out = []
        for s in states:
            for kk in [kk for kk in s.F if ('#%s#' % (d,)) in kk]:
                del s.F[kk]
            if e is None:
                el = re.sub(r'(\[[^\]]*\])+$', '', t).strip()
                if (an.scalar(t) or (t.endswith(']') and an.scalar(el))) and not v.get('static'):
                    an.n_decl += 1
                    l = ('v', d)
                    self.own.add(l)
                    s.U.add(l)
                out.append(s)
                continue
            if t.endswith('&'):
                b = strip(e)
                l = self.loc(b)
                if l is not None:
                    if t.startswith('const '):
                        self.ev(e, s)
                    else:
                        self.assign(l, s)
                        if isinstance(b, dict) and b.get('k') == 'ref':
                            self.drop(b['d'], s)
                else:
                    self.ev(e, s)
                if not s.dead:
                    out.append(s)
                continue
            b = strip(e)
            if isinstance(b, dict) and b.get('k') == 'lambda':
                self.ev(b, s, True)
                out.append(s)
                continue
            if isinstance(b, dict) and b.get('k') == 'ctor':
                self.build(b, s)
                if s.dead:
                    continue
                if b.get('cm') and b.get('a'):
                    r = self.root(b['a'][0])
                    if r is not None and r[0] == 'r':
                        for l in [l for l in s.U if l[0] == 'f' and l[1] == r[1]]:
                            n = ('f', d, l[2])
                            if l in self.own:
                                self.own.add(n)
                                s.U.add(n)
                    out.append(s)
                    continue
                left = an.ctor_left(b)
                if left:
                    an.n_decl += 1
                for f in left:
                    l = ('f', d, f)
                    self.own.add(l)
                    s.U.add(l)
                out.append(s)
                continue
            if t in ('bool', 'const bool'):
                ts, fs = self.cond(e, s)
                for x, val in [(x, True) for x in ts] + [(x, False) for x in fs]:
                    if x.dead:
                        continue
                    x.F['#%s#' % d] = val
                    out.append(x)
                continue
            self.ev(e, s)
            if not s.dead:
                out.append(s)
        out = [s for s in out if not s.dead]
        for s in out:
            self.note(s)
        return cap(out)


def cap(states):
    live, seen = [], set()
    for s in states:
        if s.dead:
            continue
        k = s.key()
        if k not in seen:
            seen.add(k)
            live.append(s)
    if len(live) <= CAP:
        return live
    # join those with the same unassigned set first, then everything
    by = {}
    for s in live:
        by.setdefault(frozenset(s.U), []).append(s)
    out = []
    for U, xs in by.items():
        F = dict(xs[0].F)
        for x in xs[1:]:
            F = {k: v for k, v in F.items() if x.F.get(k) == v}
        out.append(S(U, F))
    if len(out) <= CAP:
        return out
    F = dict(out[0].F)
    for x in out[1:]:
        F = {k: v for k, v in F.items() if x.F.get(k) == v}
    return [S(set().union(*[x.U for x in out]), F)]


def read_fields(an):
    """(class, field) pairs that some function reads before it assigns them"""
    if getattr(an, '_rf', None) is None:
        an._rf = set()
        chk, an.chk = an.chk, None
        for f in list(an.u.funcs.values()):
            if f.get('body') is None or f.get('ctor'):
                continue
            sm = an.summary(f['fid'])
            for l in sm.reads:
                if l[0] == 't':
                    cls = f.get('cls')
                    for c in list(an.u.rec):
                        if c == cls or (cls and an.u.derives(c, cls)):
                            an._rf.add((c, l[1]))
                elif l[0] == 'f':
                    for p in f.get('params', ()):
                        if p['d'] == l[1]:
                            c0 = an.base(an.u.ty(p['t']))
                            for c in list(an.u.rec):
                                if c == c0 or an.u.derives(c, c0):
                                    an._rf.add((c, l[2]))
        an.memo.clear()
        an.chk = chk
    return an._rf


Analysis.read_fields = read_fields


def main():
    import sys
    sys.setrecursionlimit(20000)
    chk = common.Check('P22', 'definite assignment: on every path of every function, each scalar local, field and output argument '
                       'is assigned before it is read, in the function or in what it calls')
    names = [n for n in facts.UNITS]
    units = facts.load(names)
    for name, u in sorted(units.items()):
        an = Analysis(u, chk)
        an.n_fn = 0
        an.read_fields()
        an.n_decl = an.n_out = an.n_ctor = an.n_call = 0
        for f in list(u.funcs.values()):
            if f.get('body') is None and not f.get('ctor'):
                continue
            if not f['file'].startswith(facts.REPO + '/'):
                continue
            before = len(chk.viol)
            an.summary(f['fid'])
            if len(chk.viol) == before:
                chk.discharge('%s:%d' % (common.rel(f['file']), f['l']), '%s: everything read has a value' % f['qn'])
            chk.count('functions')
        chk.count('locals without initial value', an.n_decl)
        chk.count('output arguments', an.n_out)
        chk.count('constructors', an.n_ctor)
        chk.count('calls', an.n_call)
    chk.minimum('functions', 300)
    chk.minimum('locals without initial value', 20)
    chk.minimum('output arguments', 10)
    chk.assumptions = ['functions outside the tree assign what they get a non-const reference or pointer to',
                       'elements of local arrays are one location',
                       'a switch over an enumeration without default is complete']
    chk.finish()


if __name__ == '__main__':
    main()
