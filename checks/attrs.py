"""P14: user attributes and array metadata never damage each other.

A path-sensitive interpreter for JSON documents: a document variable knows which stored document it was read from and every edit
since; what is written back to a name must be the document read from that name (or the path knows there is none), changed only at
keys the operation is about. Helpers are inlined, loops over the keys of a document are one symbolic iteration, loops over literal
name lists are unrolled."""
import re
import facts
from facts import walk
from common import Check, rel

FRESH = (('fresh',), ())
UNKNOWN = (('?',), ())
N5_DATASET = {'dimensions', 'blockSize', 'dataType', 'compressionType', 'compression'}
N5_FILE = {'n5'}
V3 = 'zarr.json'


def leaf(fn):
    return (fn or '').split('::')[-1]


class State:
    __slots__ = ('env', 'cells', 'facts', 'n')

    def __init__(self):
        self.env, self.cells, self.facts, self.n = {}, {}, {}, 0

    def copy(self):
        s = State()
        s.env, s.cells, s.facts, s.n = dict(self.env), dict(self.cells), dict(self.facts), self.n
        return s

    def cell(self, doc):
        self.n += 1
        c = ('c', self.n)
        self.cells[c] = doc
        return ('lv', c, ())


class Undecided(Exception):
    pass


class Docs:
    CAP = 3000

    def __init__(self, u, C, root, kind, on_write):
        self.u, self.C, self.root, self.kind, self.on_write = u, C, root, kind, on_write
        self.depth = 0
        self.steps = 0
        self.f = root
        self.unknown = None

    # ---- documents
    def is_json(self, t):
        return 'nlohmann::basic_json<' in (t or '') and 'iter' not in t.split('<')[0]

    def doc(self, s, v):
        if v is None:
            return UNKNOWN
        if v[0] == 'lv':
            d = s.cells.get(v[1], UNKNOWN)
            for k in v[2]:
                d = self.member(d, k)
            return d
        if v[0] == 'doc':
            return v[1]
        if v[0] == 'valof':
            return (('valof', v[1]), ())
        return (('value',), ())

    def member(self, d, k):
        origin, edits = d
        val = None
        for e in edits:
            if e[0] == (k,):
                val = e[2] if e[1] == 'set' else FRESH
            elif e[0][:1] == (k,) and len(e[0]) > 1:
                base = val or (('sub', origin, k), ())
                val = (base[0], base[1] + ((e[0][1:], e[1], e[2]),))
        if val is not None:
            return val
        if origin == ('fresh',):
            return FRESH
        return (('sub', origin, k), ())

    def edit(self, s, v, key, op, val=None):
        """an edit below the document lvalue v"""
        if v is None or v[0] != 'lv':
            return
        o, e = s.cells.get(v[1], UNKNOWN)
        path = v[2] + (() if key is None else (key,))
        if not path:
            if op == 'set':
                s.cells[v[1]] = val or UNKNOWN
            else:
                s.cells[v[1]] = FRESH
            return
        x = (path, op, val)
        e = tuple(y for y in e if y != x) + (x,)
        s.cells[v[1]] = (o, e)

    # ---- facts
    def has(self, s, d, k):
        origin, edits = d
        for e in reversed(edits):
            if e[0] == (k,):
                return e[1] == 'set'
        if origin == ('fresh',):
            return False
        return ('has', origin, k)

    def branch(self, s, t):
        """[(state, bool)] of a truth value"""
        if isinstance(t, bool):
            return [(s, t)]
        if t is None:
            return [(s.copy(), True), (s.copy(), False)]
        if t[0] == 'not':
            return [(a, not b) for a, b in self.branch(s, t[1])]
        if t[0] == 'i':
            return [(s, t[1] != 0)]
        if t[0] == 'in':
            out = []
            known = [s.facts.get(('eq', t[1], x)) for x in t[2]]
            if True in known:
                return [(s, True)]
            if t[1][0] == 's' and all(x[0] == 's' for x in t[2]):
                return [(s, t[1] in t[2])]
            a = s.copy()
            b = s.copy()
            for x in t[2]:
                b.facts[('eq', t[1], x)] = False
            if not all(k is False for k in known):
                out.append((a, True))
            return out + [(b, False)]
        if t[0] == 'eq' and t[1][0] == 's' and t[2][0] == 's':
            return [(s, t[1] == t[2])]
        if t[0] in ('s', 'lv', 'doc', 'list'):
            return [(s.copy(), True), (s.copy(), False)]
        if t in s.facts:
            return [(s, s.facts[t])]
        a, b = s.copy(), s.copy()
        a.facts[t], b.facts[t] = True, False
        return [(a, True), (b, False)]

    # ---- the storage
    def io(self, n):
        """'read' / 'write' / 'exists' for a storage primitive on JSON documents"""
        f = self.u.funcs.get(n.get('fid'))
        if f is None or n['k'] != 'call' or not n.get('o') or not f.get('body') or self.is_handle(f):
            return None
        ps = [self.u.ty(p['t']) for p in f['params']]
        if not ps or 'basic_string' not in ps[0]:
            return None
        js = [t for t in ps if self.is_json(t)]
        names = set()
        st, seen = [f], set()
        while st:
            g = st.pop()
            if g['fid'] in seen:
                continue
            seen.add(g['fid'])
            for x in walk(g['body']):
                if x['k'] in ('call', 'ctor') and x.get('fn'):
                    names.add(x['fn'])
                    h = self.u.funcs.get(x.get('fid'))
                    if h and h.get('body') and len(seen) < 12:
                        st.append(h)
        if len(js) == 1 and len(ps) == 2:
            if js[0].startswith('const'):
                if any('ofstream' in x or x.endswith('::PutObject') for x in names):
                    return 'write'
            elif any('ifstream' in x or x.endswith('::GetObject') for x in names):
                return 'read'
        if not js and len(ps) == 1 and any(x == 'std::filesystem::exists' or x.endswith('::HeadObject') or 'ListObjects' in x for x in names):
            return 'exists'
        return None

    def is_handle(self, f):
        return '::handle::' in f['qn']

    # ---- expressions
    def ev(self, s, n):
        """[(state, value)]"""
        self.steps += 1
        if self.steps > 60000:
            raise Undecided('too many steps')
        if n is None:
            return [(s, None)]
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(s, n)
        # anything else: evaluate the parts for their effects
        return [(x, None) for x in self.parts(s, [v for v in n.values() if isinstance(v, dict) and 'k' in v])]

    def parts(self, s, ns):
        ss = [s]
        for x in ns:
            ss = [b for a in ss for b, _ in self.ev(a, x)]
        return ss

    def e_str(self, s, n):
        return [(s, ('s', n['v']))]

    def e_int(self, s, n):
        try:
            return [(s, ('i', int(n['v'])))]
        except (ValueError, TypeError):
            return [(s, None)]

    def e_bool(self, s, n):
        return [(s, bool(n['v']) if not isinstance(n['v'], str) else n['v'] == 'true')]

    def e_ref(self, s, n):
        v = s.env.get(n.get('d'))
        if v is not None:
            return [(s, v)]
        if n.get('dk') in ('global', 'static', 'var') or n.get('d') not in s.env:
            for g in self.u.globals:
                if g.get('d') == n.get('d') and g.get('init'):
                    return self.ev(s, g['init'])
        if n.get('v') is not None and isinstance(n['v'], bool):
            return [(s, n['v'])]
        return [(s, ('sym', n.get('n'), n.get('d')))]

    def e_mem(self, s, n):
        return [(a, ('sym', n.get('n'), b) if b is not None else None) for a, b in self.ev(s, n.get('b') or n.get('o') or n.get('e'))]

    def e_cast(self, s, n):
        return self.ev(s, n.get('e'))

    def e_un(self, s, n):
        if n['op'] == '!':
            return [(a, not v if isinstance(v, bool) else ('not', v) if v is not None else None) for a, v in self.ev(s, n['e'])]
        return self.ev(s, n['e'])

    def e_bin(self, s, n):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for a, v in self.ev(s, n['a']):
                for b, t in self.branch(a, v):
                    if t == (op == '||'):
                        out.append((b, t))
                    else:
                        for c, w in self.ev(b, n['b']):
                            out += self.branch(c, w)
            return out
        out = []
        for a, v in self.ev(s, n['a']):
            for b, w in self.ev(a, n['b']):
                out.append((b, self.compare(b, op, v, w)))
        return out

    def compare(self, s, op, v, w):
        if v is None or w is None or op not in ('==', '!=', '>', '<', '>='):
            return None
        r = None
        for x, y in ((v, w), (w, v)):
            if isinstance(x, tuple) and x[0] == 'find' and isinstance(y, tuple) and y[0] in ('end', 'it'):
                r = ('not', x[1]) if not isinstance(x[1], bool) else not x[1]       # find == end: not there
                break
            if isinstance(x, tuple) and x[0] == 'count' and isinstance(y, tuple) and y[0] == 'i':
                t = x[1]
                neg = ('not', t) if not isinstance(t, bool) else not t
                if op == '==':
                    return neg if y[1] == 0 else t
                if op == '!=':
                    return t if y[1] == 0 else neg
                return t if x is v and op == '>' and y[1] == 0 or x is v and op == '>=' and y[1] == 1 else None
        if r is None:
            if isinstance(v, bool) and isinstance(w, bool):
                r = v == w
            elif op in ('==', '!=') and isinstance(v, tuple) and isinstance(w, tuple) and v[0] not in ('it', 'end', 'find', 'lv', 'doc'):
                r = ('eq', v, w) if w[0] == 's' or v[0] != 's' else ('eq', w, v)
            elif op in ('==', '!='):
                return None
            else:
                return None
        if op == '!=':
            r = (not r) if isinstance(r, bool) else r[1] if r[0] == 'not' else ('not', r)
        return r

    def e_cond(self, s, n):
        out = []
        for a, v in self.ev(s, n['c']):
            for b, t in self.branch(a, v):
                out += self.ev(b, n['a'] if t else n['b'])
        return out

    def e_asg(self, s, n):
        out = []
        for a, v in self.ev(s, n['b']):
            for b, l in self.ev(a, n['a']):
                if l and l[0] == 'lv':
                    self.edit(b, l, None, 'set', self.doc(b, v))
                else:
                    t = n['a']
                    while t and t['k'] == 'cast':
                        t = t['e']
                    if t and t['k'] == 'ref':
                        b.env[t['d']] = v
                out.append((b, l))
        return out

    def e_list(self, s, n):
        ss = [(s, [])]
        for x in n.get('a') or []:
            ss = [(b, vs + [v]) for a, vs in ss for b, v in self.ev(a, x)]
        return [(a, ('list', tuple(v for v in vs if v is not None)) if all(v is not None for v in vs) else None) for a, vs in ss]

    def e_lambda(self, s, n):
        return [(s, ('lambda', tuple(n['fids'])))]

    def args(self, s, n):
        ss = [(s, [])]
        for x in n.get('a') or []:
            ss = [(b, vs + [v]) for a, vs in ss for b, v in self.ev(a, x)]
        return ss

    def e_ctor(self, s, n):
        t = n.get('cls') or ''
        out = []
        for a, vs in self.args(s, n):
            if t.startswith('nlohmann::basic_json<'):
                if not vs:
                    out.append((a, ('doc', FRESH)))
                elif n.get('cm') or (vs[0] is not None and vs[0][0] in ('lv', 'doc')):
                    out.append((a, ('doc', self.doc(a, vs[0]))))
                else:
                    out.append((a, ('doc', (('value',), ()))))
            elif vs and vs[0] is not None and (t.startswith(('std::basic_string', 'std::set', 'std::vector', 'std::unordered_set', 'std::initializer_list', 'std::array', 'std::basic_string_view')) or n.get('cm')):
                out.append((a, vs[0]))
            elif t.startswith(('std::array',)):
                out.append((a, vs[0] if vs else None))
            elif vs and len(vs) <= 2 and vs[0] is not None and vs[0][0] in ('it', 'end', 'find'):
                out.append((a, vs[0]))
            else:
                out.append((a, ('obj', n.get('l'), t[:40])))
        return out

    def e_call(self, s, n):
        fn = n.get('fn') or ''
        lf = leaf(fn)
        out = []
        for a, o in (self.ev(s, n['o']) if n.get('o') else [(s, None)]):
            for b, vs in self.args(a, n):
                out += self.call(b, n, fn, lf, o, vs)
        return out

    def key(self, v):
        return v if v is not None else ('?key',)

    def call(self, s, n, fn, lf, o, vs):
        kind = self.io(n) if n.get('fid') is not None else None
        if kind:
            return self.storage(s, n, kind, vs)
        if fn.startswith(('nlohmann::', 'std::')) and o is not None and isinstance(o, tuple) and o[0] in ('it', 'find', 'deref'):
            base = o[1] if o[0] != 'find' else None
            if lf == 'key' or lf == 'first':
                return [(s, ('keyof', base) if base is not None else None)]
            if lf in ('value', 'second', 'operator*', 'operator->'):
                if isinstance(base, tuple) and base[0] == 'list':
                    return [(s, None)]
                return [(s, ('it', base) if lf != 'value' and 'iteration_proxy' in str(n.get('cls')) else ('valof', base))]
            if lf.startswith('operator') and lf[8:] in ('==', '!='):
                return [(s, self.compare(s, lf[8:], o, vs[0]))]
            return [(s, o)]
        if lf in ('operator==', 'operator!=') and len(vs) + (o is not None) == 2:
            a, b = ([o] + vs) if o is not None else vs
            if isinstance(a, tuple) and isinstance(b, tuple):
                return [(s, self.compare(s, lf[8:], a, b))]
        if isinstance(o, tuple) and o[0] in ('lv', 'doc', 'valof') and fn.startswith('nlohmann::'):
            return self.json(s, n, lf, o, vs)
        if fn == 'nlohmann::basic_json::object' or fn == 'nlohmann::basic_json::array':
            return [(s, ('doc', FRESH))]
        if isinstance(o, tuple) and o[0] == 'list':
            if lf == 'find':
                return [(s, ('find', ('in', self.key(vs[0]), o[1])))]
            if lf == 'count':
                return [(s, ('count', ('in', self.key(vs[0]), o[1])))]
            if lf == 'contains':
                return [(s, ('in', self.key(vs[0]), o[1]))]
            if lf in ('begin', 'cbegin'):
                return [(s, ('it', o))]
            if lf in ('end', 'cend'):
                return [(s, ('end', o))]
            return [(s, None)]
        if fn in ('std::begin', 'std::cbegin') and vs and isinstance(vs[0], tuple):
            return [(s, ('it', vs[0]))]
        if fn in ('std::end', 'std::cend') and vs and isinstance(vs[0], tuple):
            return [(s, ('end', vs[0]))]
        if fn == 'std::find' and len(vs) == 3 and isinstance(vs[0], tuple) and vs[0][0] == 'it' and vs[0][1][0] == 'list':
            return [(s, ('find', ('in', self.key(vs[2]), vs[0][1][1])))]
        if fn in ('std::any_of', 'std::none_of', 'std::all_of', 'std::for_each', 'std::find_if') and len(vs) == 3 and isinstance(vs[0], tuple) and vs[0][0] == 'it' \
                and vs[0][1][0] == 'list' and isinstance(vs[2], tuple) and vs[2][0] == 'lambda':
            return self.quantified(s, leaf(fn), vs[0][1][1], vs[2])
        if lf == 'move' or lf == 'forward' or lf == 'as_const' or lf == 'addressof':
            return [(s, vs[0] if vs else None)]
        if lf == 'operator=' and o is not None and n.get('o', {}).get('k') == 'ref' and vs:
            s.env[n['o']['d']] = vs[0]
            return [(s, vs[0])]
        if lf in ('c_str', 'str', 'string') and o is not None:
            return [(s, o)]
        f = self.u.funcs.get(n.get('fid'))
        if f is not None and f.get('body') and not self.is_handle(f) and self.depth < 9:
            ps = [self.u.ty(p['t']) for p in f['params']]
            if not self.is_metadata(f):
                return self.inline(s, f, vs)
        if isinstance(o, tuple) and o[0] == 'lambda':
            f = self.u.funcs.get(o[1][0])
            if f:
                return self.inline(s, f, vs)
        # opaque: a document it may change
        for v, a in zip(vs, n.get('a') or []):
            if isinstance(v, tuple) and v[0] == 'lv' and not (self.u.ty(a.get('t', -1)) or '').startswith('const') and f is not None:
                if self.replaces(f):
                    self.edit(s, v, None, 'set', FRESH)
                self.edit(s, v, ('meta',), 'set')
            elif isinstance(v, tuple) and v[0] == 'lv' and f is None and lf not in ('operator<<',) and not fn.startswith('std::'):
                pass
        if fn.startswith('z5::') and o is not None:
            return [(s, ('call', lf, o))]
        return [(s, ('call', fn, o) + tuple(v for v in vs if v is not None) if o is None or isinstance(o, tuple) else None)]

    def quantified(self, s, lf, items, lam):
        f = self.u.funcs.get(lam[1][0])
        if f is None:
            return [(s, None)]
        out = []
        cur = [(s, None)]
        for x in items:
            nxt = []
            for a, r in cur:
                if r is not None:
                    nxt.append((a, r))
                    continue
                for b, v in self.inline(a, f, [x]):
                    if lf == 'for_each':
                        nxt.append((b, None))
                        continue
                    for c, t in self.branch(b, v):
                        hit = t != (lf == 'all_of')
                        nxt.append((c, hit if hit else None))
            cur = nxt
        for a, r in cur:
            hit = bool(r)
            if lf in ('any_of',):
                out.append((a, hit))
            elif lf in ('none_of', 'all_of'):
                out.append((a, not hit))
            elif lf == 'find_if':
                out.append((a, ('find', hit)))
            else:
                out.append((a, None))
        return out

    def is_metadata(self, f):
        return 'Metadata::' in f['qn'] and 'Json' in f['n'] or f['n'].startswith(('toJson', 'fromJson'))

    def replaces(self, f, seen=None):
        """does the function assign the whole of its document parameter?"""
        seen = seen or set()
        if f['fid'] in seen:
            return False
        seen.add(f['fid'])
        ids = {p['d'] for p in f['params'] if self.is_json(self.u.ty(p['t']))}
        for x in walk(f.get('body')):
            if x['k'] == 'call' and (x.get('fn') or '').startswith('nlohmann::basic_json::') and leaf(x['fn']) in ('operator=', 'clear', 'swap'):
                o = x.get('o') or {}
                if o.get('k') == 'ref' and o.get('d') in ids:
                    return True
            elif x['k'] == 'call' and x.get('fid') in self.u.funcs:
                g = self.u.funcs[x['fid']]
                if any(isinstance(a, dict) and a.get('k') == 'ref' and a.get('d') in ids for a in x.get('a') or []) and self.replaces(g, seen):
                    return True
        return False

    def json(self, s, n, lf, o, vs):
        k = self.key(vs[0]) if vs else None
        if lf in ('operator[]', 'at'):
            if o[0] == 'lv':
                return [(s, ('lv', o[1], o[2] + (k,)))]
            return [(s, ('doc', self.member(self.doc(s, o), k)))]
        if lf == 'contains':
            return [(s, self.has(s, self.doc(s, o), k))]
        if lf == 'count':
            return [(s, ('count', self.has(s, self.doc(s, o), k)))]
        if lf == 'find':
            return [(s, ('find', self.has(s, self.doc(s, o), k)))]
        if lf == 'value':
            return [(s, None)]
        if lf in ('begin', 'cbegin', 'items'):
            return [(s, ('it', self.doc(s, o)[0]))]
        if lf in ('end', 'cend'):
            return [(s, ('end', self.doc(s, o)[0]))]
        if lf == 'operator=':
            self.edit(s, o, None, 'set', self.doc(s, vs[0]))
            return [(s, o)]
        if lf == 'erase':
            if isinstance(vs[0], tuple) and vs[0][0] == 'find':
                t = vs[0][1]
                k = t[2] if isinstance(t, tuple) and t[0] == 'has' else ('?key',)
            self.edit(s, o, k, 'erase')
            return [(s, None)]
        if lf == 'clear':
            self.edit(s, o, None, 'set', FRESH)
            return [(s, None)]
        if lf in ('update', 'insert', 'merge_patch') and vs:
            v = vs[0]
            org = v[1] if isinstance(v, tuple) and v[0] == 'it' else self.doc(s, v)[0] if isinstance(v, tuple) else ('?',)
            self.edit(s, o, ('keyof', org), 'set', (('valof', org), ()))
            return [(s, None)]
        if lf in ('emplace', 'push_back', 'emplace_back') and len(vs) == 2:
            self.edit(s, o, k, 'set', self.doc(s, vs[1]))
            return [(s, None)]
        if lf == 'swap' and vs and isinstance(vs[0], tuple) and vs[0][0] == 'lv':
            a, b = self.doc(s, o), self.doc(s, vs[0])
            self.edit(s, o, None, 'set', b)
            self.edit(s, vs[0], None, 'set', a)
            return [(s, None)]
        if lf.startswith('is_') or lf in ('empty', 'size', 'type'):
            return [(s, ('call', lf, self.doc(s, o)[0]))]
        if lf in ('get', 'get_ref', 'dump', 'operator==', 'operator!=', 'flatten', 'operator<<') or lf.startswith(('get', 'operator ')):
            return [(s, None)]
        if not n.get('const'):
            self.edit(s, o, ('?key',), 'set')
        return [(s, None)]

    def storage(self, s, n, kind, vs):
        name = vs[0]
        t = ('present', name)
        if kind == 'exists':
            return self.branch(s, t)
        if kind == 'read':
            out = []
            self.C.count('documents read')
            for a, there in self.branch(s, t):
                if there:
                    self.edit(a, vs[1], None, 'set', (('stored', name), ()))
                out.append((a, there))
            return out
        self.C.count('document writes on paths')
        self.on_write(self, s, n, name, self.doc(s, vs[1]))
        s.facts[t] = True
        return [(s, None)]

    # ---- statements: [(kind, state, value)] with kind in norm, ret, brk, cont (a throw ends the path)
    def inline(self, s, f, vs):
        saved = {}
        for p, v in zip(f['params'], vs):
            t = self.u.ty(p['t'])
            if self.is_json(t) and isinstance(v, tuple):
                if not t.rstrip().endswith('&') or v[0] != 'lv':
                    v = s.cell(self.doc(s, v))
            s.env[p['d']] = v
        self.depth += 1
        old, self.f = self.f, f
        outs = self.st(s, f['body'])
        self.f = old
        self.depth -= 1
        return [(a, v) for k, a, v in outs if k in ('norm', 'ret')]

    def seq(self, s, items):
        cur, done = [s], []
        for x in items:
            nxt = []
            for a in cur:
                for k, b, v in self.st(a, x):
                    (nxt if k == 'norm' else done).append(b if k == 'norm' else (k, b, v))
            cur = nxt
            if len(cur) > self.CAP:
                raise Undecided('too many paths')
        return [('norm', a, None) for a in cur] + done

    def st(self, s, n):
        if n is None:
            return [('norm', s, None)]
        k = n['k']
        if k == 'seq':
            return self.seq(s, n.get('b') or [])
        if k == 'decl':
            ss = [s]
            for v in n['v']:
                t = self.u.ty(v['t'])
                nxt = []
                for a in ss:
                    for b, x in self.ev(a, v.get('init')) if v.get('init') else [(a, None)]:
                        if self.is_json(t):
                            if not (t.rstrip().endswith('&') and isinstance(x, tuple) and x[0] == 'lv'):
                                x = b.cell(self.doc(b, x) if x is not None else (FRESH if not v.get('init') else UNKNOWN))
                        elif x is None and v.get('init'):
                            x = ('sym', v['n'], v['d'])
                        b.env[v['d']] = x
                        nxt.append(b)
                ss = nxt
            return [('norm', a, None) for a in ss]
        if k == 'if':
            out = []
            pre = [s]
            if n.get('init'):
                pre = [b for kk, b, _ in self.st(s, n['init'])]
            for p in pre:
                for a, v in self.ev(p, n['c']) if n['c'].get('k') != 'decl' else [(b, None) for _, b, _ in self.st(p, n['c'])]:
                    for b, t in self.branch(a, v):
                        out += self.st(b, n.get('then') if t else n.get('else'))
            return out
        if k == 'ret':
            return [('ret', a, v) for a, v in self.ev(s, n.get('e'))] if n.get('e') else [('ret', s, None)]
        if k == 'throw':
            return []
        if k == 'break':
            return [('brk', s, None)]
        if k == 'continue':
            return [('cont', s, None)]
        if k in ('for', 'while', 'do', 'rfor'):
            return self.loop(s, n)
        if k == 'try':
            out = self.st(s.copy(), n['body'])
            for h in n['h']:
                out += self.st(s.copy(), h['body'])
            return out
        if k == 'switch':
            out = []
            for a, v in self.ev(s, n.get('c')):
                body = n.get('body') or {}
                out += [('norm' if kk == 'brk' else kk, b, x) for kk, b, x in self.st(a.copy(), body)] + [('norm', a, None)]
            return out
        if k in ('case', 'default'):
            return self.st(s, n.get('s'))
        return [('norm', a, None) for a, _ in self.ev(s, n)]

    def loop(self, s, n):
        if n['k'] == 'rfor':
            var = n['var']
            out = []
            for a, r in self.ev(s, n['range']):
                t = self.u.ty(var['t'])
                if isinstance(r, tuple) and r[0] == 'list' and len(r[1]) <= 40:
                    cur, done = [a], []
                    for x in r[1]:
                        nxt = []
                        for b in cur:
                            b.env[var['d']] = x
                            for k, c, v in self.st(b, n['body']):
                                if k in ('norm', 'cont'):
                                    nxt.append(c)
                                elif k == 'brk':
                                    done.append(('norm', c, None))
                                else:
                                    done.append((k, c, v))
                        cur = nxt
                    out += [('norm', b, None) for b in cur] + done
                    continue
                skip = a.copy()
                if isinstance(r, tuple) and r[0] == 'it':
                    a.env[var['d']] = ('it', r[1])
                elif isinstance(r, tuple) and r[0] == 'lv':
                    a.env[var['d']] = ('valof', self.doc(a, r)[0])
                else:
                    a.env[var['d']] = ('sym', var.get('n'), var['d'])
                out.append(('norm', skip, None))
                out += [('norm' if k in ('brk', 'cont') else k, c, v) for k, c, v in self.st(a, n['body'])]
            return out
        pre = self.st(s, n.get('init')) if n.get('init') else [('norm', s, None)]
        out = []
        for _, a, _v in pre:
            skip = a.copy()
            if n['k'] != 'do':
                out.append(('norm', skip, None))
            for k, b, v in self.st(a, n['body']):
                if k in ('norm', 'cont'):
                    for c, _ in self.ev(b, n.get('inc')) if n.get('inc') else [(b, None)]:
                        out.append(('norm', c, None))
                else:
                    out.append(('norm' if k == 'brk' else k, b, v))
        return out


def lit(k):
    return k[1] if isinstance(k, tuple) and k[0] == 's' else None


class Rules:
    """what is asked of each write and of each end of a reader"""
    def __init__(self, C, u, f, what, node, user):
        self.C, self.u, self.f, self.what, self.node, self.user = C, u, f, what, node, user
        self.names = set()

    def zarr(self, s):
        for t, b in s.facts.items():
            if isinstance(t, tuple) and t[0] == 'call' and t[1] == 'isZarr' or isinstance(t, tuple) and t[0] == 'sym' and t[1] == 'isZarr':
                return b
            if isinstance(t, tuple) and t[0] == 'sym' and t[1] == 'isZarr':
                return b
        return None

    def src(self):
        return 'on a path from %s (%s:%d)' % (self.f['qn'], rel(self.f['file']), self.f['l'])

    def ok(self, cond, I, n, what, detail=''):
        self.C.oblige(cond, facts.loc(I.f, n), what, (detail + ' ' if detail else '') + self.src())

    def reserved(self, name):
        if name != 'attributes.json':
            return set()
        return {'dataset': N5_DATASET, 'file': N5_FILE}.get(self.node, set())

    def foreign(self, k):
        """a key of the caller's: of the attributes given, or the name given"""
        return k == self.user or isinstance(k, tuple) and k[0] == 'keyof' and k[1] == self.user

    def write(self, I, s, n, name, d):
        nm = lit(name)
        if nm is None:
            self.C.notes.append('%s: name of the document not decided' % facts.loc(I.f, n))
            return
        self.names.add(nm)
        origin, edits = d
        unknown = origin == ('?',) or any(('?key',) in e[0] for e in edits)
        if unknown:
            self.C.notes.append('%s: document not decided %s' % (facts.loc(I.f, n), self.src()))
            return
        there = s.facts.get(('present', name))
        if self.what == 'attributes':
            z = self.zarr(s)
            want = None if z is None else 'attributes.json' if not z else {True: V3, False: '.zattrs', None: None}[s.facts.get(('present', ('s', V3)))]
            self.ok(want == nm, I, n, '%s: attributes are written to the document of the format' % self.f['qn'], 'written to %s, prescribed is %s' % (nm, want or 'undecided: the format or the version was not tested'))
            if origin == ('stored', name):
                pass
            else:
                self.ok(there is False and origin == ('fresh',), I, n, '%s: what is stored in %s is kept' % (self.f['qn'], nm), 'the document written is not the one that was read')
            for path, op, val in edits:
                p = path
                if nm == V3:
                    if lit(p[0]) != 'attributes':
                        self.ok(False, I, n, '%s: only attributes are changed in %s' % (self.f['qn'], nm), 'key %s is changed' % (p[0],))
                        continue
                    if len(p) == 1:
                        if op == 'erase':
                            self.ok(False, I, n, '%s: other attributes are kept' % self.f['qn'], 'all attributes are erased')
                            continue
                        vo, ve = val or UNKNOWN
                        has = s.facts.get(('has', origin, p[0]))
                        if vo == ('sub', origin, p[0]):
                            pass
                        elif vo == ('fresh',) and (has is False or origin == ('fresh',)):
                            pass
                        else:
                            self.ok(False, I, n, '%s: other attributes are kept' % self.f['qn'], 'the attributes are replaced')
                        for q, op2, _ in ve:
                            self.ok(len(q) == 1 and self.foreign(q[0]), I, n, '%s: only the given attributes are changed' % self.f['qn'], 'key %s is changed' % (q[0],))
                        continue
                    p = p[1:]
                self.ok(len(p) == 1 and self.foreign(p[0]), I, n, '%s: only the given attributes are changed' % self.f['qn'], 'key %s is changed' % (p[0],))
                for r in sorted(self.reserved(nm)):
                    if p[0] == self.user:
                        safe = s.facts.get(('eq', p[0], ('s', r))) is False
                    else:
                        safe = s.facts.get(('has', self.user, ('s', r))) is False
                    self.ok(safe, I, n, '%s: the reserved field "%s" cannot be changed' % (self.f['qn'], r), 'it was not excluded')
            # something has to be done about the keys given
            return
        # metadata
        if nm not in (V3, 'attributes.json'):
            self.ok(nm in ('.zgroup', '.zarray'), I, n, '%s: metadata does not go to the document of the attributes' % self.f['qn'], 'written to %s' % nm)
            return
        stored = ('stored', name)
        if nm == V3:
            att = ('s', 'attributes')
            has = s.facts.get(('has', stored, att))
            if there is False or has is False:
                self.ok(True, I, n, '%s: user attributes are kept' % self.f['qn'])
                return
            cur = I.member(d, att)
            self.ok(cur[0] == ('sub', stored, att) and not cur[1], I, n, '%s: user attributes are kept' % self.f['qn'], 'the attributes of the stored document are not in the one that is written')
            return
        if there is False:
            self.ok(True, I, n, '%s: user attributes are kept' % self.f['qn'])
            return
        kept = origin == stored and all(lit(p[0]) is not None or p[0] == ('meta',) or p[0][0] == 'keyof' for p, _, _ in edits)
        kept = kept or any(p[0] == ('keyof', stored) for p, op, _ in edits if op == 'set')
        self.ok(kept, I, n, '%s: user attributes are kept' % self.f['qn'], 'the document written does not come from the one that is stored')

    def end_of_read(self, I, s, d):
        n = {'l': self.f['l']}
        origin, edits = d
        z = self.zarr(s)
        self.C.count('ends of attribute readers')
        if origin == ('?',):
            self.C.notes.append('%s: document read not decided' % self.f['qn'])
            return
        v3 = s.facts.get(('present', ('s', V3)))
        name = 'attributes.json' if z is False else V3 if v3 else '.zattrs'
        if z is None or z and v3 is None:
            self.ok(False, I, n, '%s: attributes are read from the document of the format' % self.f['qn'], 'the format or the version was not tested')
            return
        st = ('stored', ('s', name))
        att = ('s', 'attributes')
        if origin == self.user:
            absent = s.facts.get(('present', ('s', name))) is False or name == V3 and s.facts.get(('has', st, att)) is False
            self.ok(absent, I, n, '%s: stored attributes are read' % self.f['qn'], 'nothing is read from %s' % name)
        elif name == V3:
            self.ok(origin == ('sub', st, att), I, n, '%s: only the attributes of %s are listed' % (self.f['qn'], V3), 'what is returned: %s' % (origin,))
        else:
            self.ok(origin == st, I, n, '%s: attributes are read from %s' % (self.f['qn'], name), 'what is returned: %s' % (origin,))
            if self.node == 'dataset':
                for r in sorted(self.reserved(name)):
                    gone = any(p == (('s', r),) and op == 'erase' for p, op, _ in edits)
                    self.ok(gone, I, n, '%s: the reserved field "%s" is not listed' % (self.f['qn'], r), 'it is left in the result')
        for p, op, _ in edits:
            r = lit(p[0])
            self.ok(r is not None and op == 'erase' and r in self.reserved(name), I, n, '%s: stored attributes are listed unchanged' % self.f['qn'], 'key %s is changed' % (p[0],))


def node_kind(t):
    m = re.search(r'handle::(Dataset|File|Group)\b', t or '')
    return m.group(1).lower() if m else None


def io_agrees(C, u):
    """reading, testing and writing a document address the same place"""
    groups = {}
    for f in u.funcs.values():
        q = f['qn']
        if '::JsonIO::' in q or (f.get('params') and f['n'] in ('read', 'write', 'writePretty', 'exists') and 'attrs_detail' in q):
            if not f['params'] or 'basic_string' not in u.ty(f['params'][0]['t']) or not f.get('body'):
                continue
            groups.setdefault(q.rsplit('::', 1)[0], []).append(f)
    for cls, fs in sorted(groups.items()):
        keys = {}
        for f in fs:
            p = f['params'][0]['d']
            found = set()
            aliases = {}
            for x in walk(f['body']):
                if x['k'] == 'decl':
                    for v in x['v']:
                        if v.get('init'):
                            aliases[v['d']] = v['init']
                if x['k'] in ('call',) and (x.get('op') in ('/', '+') or leaf(x.get('fn')) in ('operator/', 'operator+') or x.get('fid') in u.funcs):
                    t = place(u, x, p, 0)
                    if t and "('name',)" in str(t):
                        found.add(t)
            # only maximal ones
            found = {t for t in found if not any(t is not o and str(t) in str(o) and t != o for o in found)}
            if found:
                keys[f['n']] = found
                C.count('storage primitives of documents')
        allk = set()
        for n, k in keys.items():
            allk |= {str(x) for x in k if 'runtime' not in str(x) and 'basic_string' not in str(x)[:40]}
        if len(allk) > 1:
            C.violate(fs[0]['file'] + ':%d' % fs[0]['l'], '%s: reading, testing and writing a document address the same place' % cls, '; '.join(sorted(allk))[:600])
        elif allk:
            C.discharge('%s:%d' % (rel(fs[0]['file']), fs[0]['l']), '%s: reading, testing and writing a document address the same place' % cls)


def place(u, x, p, depth):
    """normalised expression of the place of a document"""
    if depth > 6 or not isinstance(x, dict):
        return None
    k = x['k']
    if k == 'ref':
        return ('name',) if x.get('d') == p else ('r', x.get('n'))
    if k == 'mem':
        return ('m', x.get('n'))
    if k == 'str':
        return ('s', x.get('v'))
    if k in ('cast',):
        return place(u, x.get('e'), p, depth)
    if k == 'ctor' and x.get('a'):
        return place(u, x['a'][0], p, depth)
    if k == 'call':
        if leaf(x.get('fn')) in ('string', 'c_str', 'str'):
            return place(u, x.get('o'), p, depth)
        fn = leaf(x.get('fn'))
        if fn in ('exists', 'is_regular_file', 'open', 'good', 'nodeExists'):
            return None
        if x.get('fid') in u.funcs and 'runtime_error' not in str(x.get('t')):
            f = u.funcs[x['fid']]
            if any(w in str(f.get('rt')) + (u.ty(f['rt']) if isinstance(f.get('rt'), int) else '') for w in ('string', 'path')):
                return ('call', f['qn']) + tuple(place(u, a, p, depth + 1) for a in x.get('a') or [])
            return None
        if fn in ('operator/', 'operator+'):
            xs = ([x['o']] if x.get('o') else []) + (x.get('a') or [])
            return (fn,) + tuple(place(u, a, p, depth + 1) for a in xs)
    return None


def main():
    C = Check('P14', 'path-sensitive interpretation of the attribute and metadata operations over documents that know which stored document they come from and '
                     'how they were edited: what is written to a name is the document stored there, changed only at the keys the operation is about; reserved '
                     'fields are excluded on every path; readers return what belongs to the user')
    us = facts.load(['core', 'core_s3'])
    for name, u in us.items():
        seen_sites = set()
        sites = set()
        io_agrees(C, u)
        for f in list(u.funcs.values()):
            q = f['qn']
            m = re.match(r'^z5::((filesystem|s3)::)?(writeAttributes|removeAttribute|readAttributes|writeMetadata)$', q)
            if not m or not f.get('body') or not f['params']:
                continue
            kind = node_kind(u.ty(f['params'][0]['t']))
            if kind is None:
                continue
            what = 'metadata' if m.group(3) == 'writeMetadata' else 'attributes'
            # the protection of reserved fields is the task of the backend independent functions
            rules_kind = kind if not m.group(1) else None
            s = State()
            user, out = None, None
            for p in f['params'][1:]:
                t = u.ty(p['t'])
                if 'nlohmann::basic_json<' in t:
                    user = ('param', p['n'])
                    out = s.cell((user, ()))
                    s.env[p['d']] = out
                elif 'basic_string' in t and what == 'attributes':
                    user = ('sym', p['n'], p['d'])
                    s.env[p['d']] = user
                else:
                    s.env[p['d']] = ('sym', p['n'], p['d'])
            s.env[f['params'][0]['d']] = ('handle',)
            R = Rules(C, u, f, what, rules_kind, user)
            writes = []

            def on_write(I, st, n, nm, d, R=R, writes=writes):
                writes.append(n['l'])
                seen_sites.add((I.f['file'], n['l']))
                R.write(I, st, n, nm, d)
            I = Docs(u, C, f, what, on_write)
            C.count('operations')
            try:
                outs = I.inline_root(s, f) if hasattr(I, 'inline_root') else I.st(s, f['body'])
            except Undecided as e:
                C.notes.append('%s: %s' % (q, e))
                continue
            ends = [a for k, a, v in outs if k in ('norm', 'ret')]
            C.count('paths', len(ends))
            if m.group(3) == 'readAttributes':
                for a in ends:
                    R.end_of_read(I, a, I.doc(a, out))
                C.oblige(not writes, facts.loc(f), '%s: reading attributes writes nothing' % q)
            elif what == 'attributes':
                # the attributes given reach a document on some path
                C.oblige(bool(writes), facts.loc(f), '%s: the change is written' % q)
        # every place that writes a document is one of the interpreted ones
        D = Docs(u, C, None, None, None)
        for f in u.funcs.values():
            if not f.get('body') or '::JsonIO::' in f['qn']:
                continue
            for n in walk(f['body']):
                if n['k'] == 'call' and n.get('fid') is not None and D.io(n) == 'write':
                    sites.add((f['file'], n['l']))
        for file, l in sorted(sites):
            C.oblige((file, l) in seen_sites, '%s:%d' % (file, l), 'documents are written by the operations on attributes and metadata only', 'this write is not part of one of them')
        C.count('places that write documents', len(sites))
    C.minimum('operations', 30)
    C.minimum('places that write documents', 6)
    C.minimum('document writes on paths', 40)
    C.minimum('ends of attribute readers', 20)
    C.minimum('storage primitives of documents', 4)
    C.assumptions += ['operator[] and erase of nlohmann::json change the given key only', 'a document that is read is not changed by others until it is written (no locking is offered)',
                      'handles answer isZarr() the same way during one operation', 'the metadata serialisers set keys of their own in the document they are given']
    C.finish()


if __name__ == '__main__':
    main()
