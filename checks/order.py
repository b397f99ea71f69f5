"""P11 (and, through axes.py, P10): axis order and byte order. Values carry two parities, 'swapped' (bytes) and 'reversed' (axes), through copies, range
constructions, in-place conversions, encoding into and decoding from chunk buffers and headers."""
import re
import sys
from common import Check, facts, rel
from graph import Graph, trivial
from absint import *
from facts import walk
import metadata
import roundtrip

SIZES = {'unsigned char': 1, 'signed char': 1, 'char': 1, 'bool': 1, 'std::byte': 1}


def tog(tag, v):
    """apply a conversion that is its own inverse; byte and axis conversions commute: swap outside, rev inside"""
    if v[0] == tag:
        return v[1]
    if tag == 'rev' and v[0] == 'swap':
        return ('swap', tog('rev', v[1]))
    return (tag, v)


def parity(v, tag):
    n = 0
    while isinstance(v, tuple) and v and v[0] in ('swap', 'rev'):
        n += v[0] == tag
        v = v[1]
    return n % 2


def base(v):
    while isinstance(v, tuple) and v and v[0] in ('swap', 'rev'):
        v = v[1]
    return v


def unswapped(t, done=False):
    """a stored value that occurs in t without having been converted"""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'swap':
        b = base(t)
        if b[0] == 'stored':
            return None
        return unswapped(t[1])
    if t[0] == 'rev':
        return unswapped(t[1])
    if t[0] == 'stored':
        return t if t[2] > 1 else None
    for x in t[1:]:
        r = unswapped(x)
        if r:
            return r
    return None


class Order(Interp):
    CAP = 200
    MAXDEPTH = 12
    implicit_exc = False

    def __init__(self, u, zarr, inl, root, conv=frozenset()):
        super().__init__(u)
        self.zarr, self.inl, self.root = zarr, inl, root
        self.sinks, self.uses, self.filled = [], [], []
        self.nconv = 0
        self.conv = conv
        self.elems = []
        self.undecided = 0

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    def leaf(self, name):
        return name.rsplit('::', 1)[-1]

    def pointee(self, s, v):
        """the container or object a pointer points to the beginning of: (location, element index)"""
        v = self.val(s, v) if isinstance(v, tuple) and v[0] in ('v', 'f', 'par') else v
        if not isinstance(v, tuple):
            return None, None
        if v[0] == 'op' and v[1] in '+-' and len(v) == 4:
            for p in v[2:]:
                l, i = self.pointee(s, p)
                if l is not None:
                    return l, ('op', '+', i, '?')
            return None, None
        if v[0] == 'addr':
            l = v[1]
            if l[0] == 'idx':
                return l[1], l[2]
            return l, ('c', 0)
        if v[0] == 'call' and v[1] == 'begin' and len(v) > 2:
            return v[2], ('c', 0)
        if v[0] == 'par':
            return ('mem', v), ('c', 0)
        return None, None

    def content(self, s, l):
        return self.rd(s, l) if l is not None else None

    def esize(self, n, i):
        """the size of the elements argument i points to"""
        a = n['a'][i]
        t = None
        while a is not None:
            t = self.u.ty(a.get('t', -1)).replace('const ', '').strip()
            if t.startswith('void') or t.startswith('char'):
                if a['k'] == 'cast':
                    a = a['e']
                    continue
            break
        return t

    def ischar(self, l, s, n, i):
        t = self.esize(n, i)
        return t in ('char *', 'signed char *', 'unsigned char *')

    def width(self, t):
        t = t.rstrip(' *&')
        if t in SIZES:
            return 1
        return 1 if t in ('char', 'int8_t', 'uint8_t') else 8

    def model(self, s, name, n, obj, vs):
        lf = self.leaf(name)
        if lf in ('isZarr',) and not vs:
            return [(s, ('c', self.zarr))]
        if lf.startswith('reverseEndianness'):
            self.nconv += 1
            if len(vs) == 1:
                l = vs[0][1] if vs[0][0] == 'addr' else vs[0]
                self.convert(s, l, 'swap', n)
            else:
                l, i = self.pointee(s, vs[0])
                if l is None:
                    self.undecided += 1
                elif not self.shortened(self.val(s, vs[0]), self.val(s, vs[1])):
                    self.convert(s, l, 'swap', n)
            return [(s, VOID)]
        if name in ('std::reverse', 'std::ranges::reverse') and vs:
            l, i = self.pointee(s, vs[0])
            if l is None and len(vs) == 1:
                l = vs[0]
            if l is not None:
                self.convert(s, l, 'rev', n)
            return [(s, VOID)]
        if n['k'] == 'ctor' and name == 'std::vector::vector' and len(vs) >= 2 or lf == 'assign' and len(vs) == 2:
            a, b = self.val(s, vs[0]), self.val(s, vs[1])
            v = None
            if a[0] == 'call' and b[0] == 'call' and a[1] in ('begin', 'rbegin') and b[1] == a[1].replace('begin', 'end') and a[2] == b[2]:
                v = self.rd(s, a[2])
                if a[1] == 'rbegin':
                    v = tog('rev', v)
                z = self.size_of(s, a[2])
            elif b[0] == 'op' and b[1] == '+' and a in b[2:]:
                l, i = self.pointee(s, a)
                if l is not None:
                    v = self.rd(s, l)
                    z = b[3] if b[2] == a else b[2]
            if v is not None:
                if n['k'] == 'ctor':
                    s.store[('size', obj)] = z
                    s.store[obj] = v
                    return [(s, ('inplace', obj))]
                self.wr(s, obj, v, n)
                s.store[('size', obj)] = z
                return [(s, VOID)]
        if name in ('std::copy', 'std::copy_n', 'std::ranges::copy', 'std::copy_backward', 'std::reverse_copy', 'std::ranges::reverse_copy') and len(vs) >= 2:
            a = self.val(s, vs[0])
            d, di = self.pointee(s, vs[-1])
            v = None
            if a[0] == 'call' and a[1] in ('begin', 'rbegin') and len(a) > 2:
                v = self.rd(s, a[2])
                if a[1] == 'rbegin':
                    v = tog('rev', v)
            else:
                l, i = self.pointee(s, a)
                v = self.rd(s, l) if l is not None else None
            if v is not None and d is not None:
                if 'reverse' in lf:
                    v = tog('rev', v)
                dv = self.val(s, vs[-1])
                if dv[0] == 'call' and dv[1] == 'rbegin':
                    v = tog('rev', v)
                z = s.store.get(('size', d))
                self.wr(s, d, v, n)
                if z is not None:
                    s.store[('size', d)] = z
                return [(s, VOID)]
        if name in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', 'std::copy_n_bytes') and len(vs) == 3:
            return self.transfer(s, n, vs[0], 0, vs[1], 1)
        if 'istream' in name + self.u.ty(n.get('ot', -1)) and lf == 'read' and len(vs) == 2:
            l, i = self.pointee(s, vs[0])
            self.load(s, n, l, i, ('par', 'file', 0), ('call', 'position'), self.width(self.esize(n, 0)), True)
            return [(s, obj)]
        if lf == 'compress' and n['k'] == 'call' and n.get('fid') not in self.inl and len(vs) >= 2:
            l, i = self.pointee(s, vs[0])
            self.sinks.append(('data', self.content(s, l), self.width(self.esize(n, 0)), s, n, self.frame.fn))
            d = vs[1][1] if vs[1][0] == 'addr' else vs[1]
            self.havoc(s, d, n)
            return [(s, VOID)]
        if lf == 'decompress' and n['k'] == 'call' and n.get('fid') not in self.inl and len(vs) >= 3:
            k = 2 if len(vs) >= 4 else 1
            l, i = self.pointee(s, vs[k])
            if l is not None:
                w = self.width(self.esize(n, k))
                z = s.store.get(('size', l))
                self.wr(s, l, ('stored', 'data', w, n.get('l')), n)
                if z is not None:
                    s.store[('size', l)] = z
            return [(s, VOID)]
        if lf == 'readChunk' and len(vs) == 2:
            l, i = self.pointee(s, vs[1])
            if l is not None:
                self.wr(s, l, ('native', n.get('l')), n)
        elif lf == 'writeChunk' and len(vs) >= 2:
            l, i = self.pointee(s, vs[1])
            self.sinks.append(('native', self.content(s, l), self.width(self.esize(n, 1)), s, n, self.frame.fn))
        elif n['k'] in ('call', 'ctor') and self.report_ok() and not self.getter(name, n):
            for i, v in enumerate(vs):
                if isinstance(v, tuple):
                    l, _ = self.pointee(s, v)
                    if l is not None:
                        c = self.content(s, l)
                        if isinstance(c, tuple) and base(c)[0] == 'stored' and base(c)[1] == 'data':
                            self.uses.append((c, s, n, self.frame.fn, lf))
        return None

    def getter(self, name, n):
        return self.leaf(name) in ('resize', 'begin', 'end', 'data', 'size', 'operator[]', 'reserve', 'move', 'forward') or n.get('fid') in self.conv

    def consts(self, t):
        """the constant summands of a position"""
        if is_c(t) and isinstance(t[1], int) and not isinstance(t[1], bool):
            return t[1]
        if isinstance(t, tuple) and t and t[0] == 'op' and t[1] in '+-' and len(t) == 4:
            a, b = self.consts(t[2]), self.consts(t[3])
            return a + b if t[1] == '+' else a - b
        if isinstance(t, tuple) and t and t[0] == 'addr' and t[1][0] == 'idx':
            return self.consts(t[1][2])
        return 0

    def shortened(self, lo, hi):
        """the range leaves out elements at either end"""
        return self.consts(hi) != self.consts(lo)

    def convert(self, s, l, tag, n):
        if l[0] == 'idx' and self.sym(l[2]) is not None:
            self.elems.append((l[1], tag, id(n), l))
        v = self.rd(s, l)
        z = s.store.get(('size', l))
        for k in list(s.store):
            if isinstance(k, tuple) and k[0] == 'idx' and self.below(k, l):
                del s.store[k]
        s.store[l] = tog(tag, v)
        if z is not None:
            s.store[('size', l)] = z

    def transfer(self, s, n, dst, di, src, si):
        dl, dx = self.pointee(s, dst)
        sl, sx = self.pointee(s, src)
        dt, st_ = self.esize(n, di), self.esize(n, si)
        dchar = dt.rstrip(' *') == 'char' and (dl is None or dl[0] != 'mem' or True)
        schar = st_.rstrip(' *') == 'char'
        if dchar and not schar:
            self.sinks.append(('data' if sx == ('c', 0) and (sl is not None and sl[0] == 'mem') else 'shape' if self.isvec(n['a'][si]) else 'header', self.element(s, sl, sx, dx), self.width(st_), s, n, self.frame.fn))
            return [(s, VOID)]
        if schar and not dchar:
            if sl is not None and dl is not None:
                self.load(s, n, dl, dx, sl, sx, self.width(dt), False)
            return [(s, VOID)]
        if dchar and schar:
            # bytes to bytes: a raw chunk of single byte elements
            if sl is not None and sl[0] == 'mem':
                self.sinks.append(('data', self.content(s, sl), 1, s, n, self.frame.fn))
            elif dl is not None and dl[0] == 'mem':
                self.wr(s, dl, ('stored', 'data', 1, n.get('l')), n)
            return [(s, VOID)]
        return None

    def isvec(self, e):
        """an element of a container, or its data"""
        return any(x.get('k') == 'ref' and 'vector<' in self.u.ty(x.get('t', -1)) for x in walk(e))

    def coef(self, i, sym):
        if i == sym:
            return 1
        if isinstance(i, tuple) and i and i[0] == 'op' and i[1] in '+-*' and len(i) == 4:
            a, b = self.coef(i[2], sym), self.coef(i[3], sym)
            if i[1] == '*':
                return a or b if not (a and b) else 0
            return a + b if i[1] == '+' else a - b
        return 0

    def sym(self, i):
        for t in subterms(i):
            if isinstance(t, tuple) and t and (t[0] in ('u',)):
                return t
        return None

    def element(self, s, l, i, other):
        """the value that is transferred: that of an object or, in a loop over a container, that of the container"""
        if l is None:
            return None
        v = self.rd(s, l)
        y = self.sym(i) if i is not None else None
        if y is not None and isinstance(other, tuple):
            for t in subterms(i):
                if isinstance(t, tuple) and t and t[0] in ('u', 'v') and self.coef(i, t) and self.coef(other, t):
                    y = t
            a, b = self.coef(i, y), self.coef(other, y)
            if a * b < 0:
                v = tog('rev', v)
            ev = s.store.get(('idx', l, i))
            if ev is not None:
                if base(ev) == ('idx', l, i):
                    v = tog('swap', v) if parity(ev, 'swap') else v
            return ('els', v) if False else v
        if i is not None and isinstance(other, tuple) and y is None:
            # one element of a loop that is written out: counted from the end on one side only
            far = [any(isinstance(t, tuple) and t and t[0] in ('call', 'size') and 'size' in str(t[1] if t[0] == 'call' else t[0]) for t in subterms(x)) for x in (i, other)]
            if far[0] != far[1]:
                return tog('rev', v)
        return self.rd(s, ('idx', l, i)) if i not in (None, ('c', 0)) and ('idx', l, i) in s.store else v

    def load(self, s, n, dl, dx, sl, sx, w, stream):
        val = ('stored', 'header', w, n.get('l'))
        y = self.sym(dx) if dx is not None else None
        if dl is not None and dl[0] == 'mem':
            self.wr(s, dl, ('stored', 'data', w, n.get('l')), n)
        elif y is not None:
            # an element of a container, in a loop
            back = isinstance(sx, tuple) and not stream and self.coef(dx, y) * self.coef(sx, y) < 0 or stream and self.coef(dx, y) < 0
            s.store[('idx', dl, dx)] = val
            self.filled.append((dl, tog('rev', val) if back else val, len(self.frames), ('idx', dl, dx)))
        elif dl is not None:
            self.wr(s, dl, val, n)

    def loop(self, st, cond, body, inc, node, pre=None, post_cond=False, quant=None):
        mark, emark = len(self.filled), len(self.elems)
        before = st.copy()
        r = super().loop(st, cond, body, inc, node, pre, post_cond, quant)
        for dl, val, _, key in self.filled[mark:]:
            for k, s, v in r:
                z = s.store.get(('size', dl))
                e = s.store.get(key)
                p = parity(e, 'swap') if e is not None and base(e)[0] == 'stored' else 0
                self.wr(s, dl, tog('swap', val) if p else val)
                if z is not None:
                    s.store[('size', dl)] = z
        el, self.elems = self.elems[emark:], self.elems[:emark]
        for dl, tag in {(d, t) for d, t, _, _ in el}:
            if any(f[0] == dl for f in self.filled[mark:]):
                continue
            nodes = {i for d, t, i, _ in el if (d, t) == (dl, tag)}
            v = self.rd(before, dl)
            for k, s, _ in r:
                z = s.store.get(('size', dl))
                self.wr(s, dl, tog(tag, v) if len(nodes) % 2 else v)
                if z is not None:
                    s.store[('size', dl)] = z
        return r


def closure(u, names):
    """functions of the library that take part in formatting chunk data"""
    g = Graph(u, virtual=False)
    roots = [x for x, f in u.funcs.items() if f['file'].startswith(facts.REPO) and '/include/z5/' in f['file'] and f['n'] in names and f.get('body') is not None]
    return g, roots


def convs(g, u):
    """functions from which a conversion or a transfer is reachable"""
    mark = set()
    for x, f in u.funcs.items():
        if not f['file'].startswith(facts.REPO) or f.get('body') is None or f['n'].startswith('reverseEndianness'):
            continue
        for n in walk(f['body']):
            if n.get('k') in ('call', 'ctor'):
                b = (n.get('fn') or '').rsplit('::', 1)[-1]
                if b.startswith('reverseEndianness') or b in ('memcpy', 'memmove', 'compress', 'decompress', 'reverse'):
                    mark.add(x)
    # helpers count as well; virtual functions and lambdas are judged on their own
    over = {b for bs in u.over.values() for b in (bs if isinstance(bs, (list, tuple, set)) else [bs])}
    st = list(mark)
    while st:
        x = st.pop()
        f = u.funcs[x]
        if f['n'] == 'operator()' or x in u.over or x in over:
            continue
        for c in g.callers.get(x, ()):
            if c not in mark and c in u.funcs and u.funcs[c]['file'].startswith(facts.REPO) and u.funcs[c].get('body') is not None:
                mark.add(c)
                st.append(c)
    return mark


def zname(z):
    return 'Zarr' if z else 'N5'


def where(fn, n):
    return '%s:%d' % (fn['file'], n.get('l') or fn['l'])


def run(chks, u):
    g = Graph(u, virtual=False)
    conv = convs(g, u)
    inl = set()
    for x, f in u.funcs.items():
        if f['file'].startswith(facts.REPO) and '/include/z5/' in f['file'] and '/compression/' not in f['file'] and f.get('body') is not None and \
                (x in conv or trivial(f)) and not f['n'].startswith('reverseEndianness') and not (f['n'] == 'decompress' and f.get('cls')):
            inl.add(x)
    lams = {x for x in conv if u.funcs[x]['n'] == 'operator()'}
    roots = []
    for x, f in u.funcs.items():
        if not f['file'].startswith(facts.REPO) or '/include/z5/' not in f['file'] or '/compression/' in f['file'] or f.get('body') is None or \
                f['n'] == 'operator()' or f['n'].startswith('reverseEndianness'):
            continue
        if x in conv or lams and any(n.get('k') == 'lambda' and (set(n['fids']) & lams) for n in walk(f['body'])):
            roots.append(f)
    callers = {}
    for f in roots:
        for n in walk(f['body']):
            if n.get('k') in ('call', 'ctor') and n.get('fid') in inl:
                callers.setdefault(n['fid'], set()).add(f['fid'])
    for f in roots:
        if f['fid'] in callers:
            continue
        fmt = [False, True]
        # sharding and the n5 header exist in one format only
        if 'Sharded' in f['qn']:
            fmt = [True]
        yield f, fmt, inl, conv


def judge(chks, u, f, zarr, it, r):
    P10, P11 = chks['P10'], chks['P11']
    nm = f['qn'].rsplit('::', 1)[-1]
    tag = zname(zarr)
    for kind, v, w, s, n, fn in it.sinks:
        if v is None:
            it.undecided += 1
            continue
        p = parity(v, 'swap')
        b = base(v)
        if kind == 'native':
            if b[0] in ('native', 'mem', 'par', 'ver', 'v', 'f'):
                P11.count('values stored')
                P11.oblige(p == 0, where(fn, n), 'chunk data is handed to the writer in native order (%s)' % nm)
            continue
        if kind == 'data':
            w1 = 1 if zarr or w == 1 else 0
            P11.count('values stored')
            if w == 1:
                continue
            P11.oblige(p == (0 if zarr else 1), where(fn, n), '%s: element data is %s before it is encoded (%s)' % (tag, 'left alone' if zarr else 'converted to big endian once', nm),
                       'it is %s' % ('converted' if p else 'not converted'))
        else:
            P11.count('values stored')
            if w > 1:
                P11.oblige(p == 1, where(fn, n), 'header fields are converted to big endian once (%s)' % nm, 'the value is stored in native order')
            if kind == 'shape':
                P10.count('stored shapes')
                P10.oblige(parity(v, 'rev') == 1, where(fn, n), 'the shape in the header has reversed axis order (%s)' % nm, 'it is stored in memory order')
    if nm == 'decompress' and f.get('cls'):
        # the decoder itself: what it returns has the stored order, whoever calls it converts
        for s, v in r['ret']:
            for k, val in s.store.items():
                if isinstance(k, tuple) and k[0] == 'mem' and isinstance(val, tuple) and base(val)[0] == 'stored' and base(val)[2] > 1:
                    P11.count('values loaded')
                    P11.oblige(parity(val, 'swap') == 0, '%s:%d' % (f['file'], f['l']), 'decoding leaves the byte order to its callers (%s)' % f['qn'].rsplit('::', 2)[-2])
        return
    for c, s, n, fn, lf in it.uses:
        w = base(c)[2]
        if w == 1:
            continue
        P11.count('values loaded')
        P11.oblige(parity(c, 'swap') == (0 if zarr else 1), where(fn, n), '%s: decoded data is %s before it is used (%s)' % (tag, 'left alone' if zarr else 'converted to native order once', nm),
                   'it is %s when %s uses it' % ('converted' if parity(c, 'swap') else 'not converted', lf))
    bad = set()
    for kind in ('ret',):
        for s, v in r[kind]:
            # header values that decide something or leave the function
            for t in list(s.facts) + [v]:
                x = unswapped(t) if isinstance(t, tuple) else None
                if x is not None and x[1] == 'header':
                    bad.add(('a value of the header decides before it is converted to native order', x[3]))
            for k, val in s.store.items():
                if isinstance(k, tuple) and k and k[0] == 'par' or isinstance(k, tuple) and k[0] in ('idx', 'f') and root_of(k)[0] == 'par':
                    x = unswapped(val)
                    if x is not None and x[1] == 'header':
                        bad.add(('a value of the header is returned before it is converted to native order', x[3]))
                    b = base(val)
                    if isinstance(val, tuple) and b[0] == 'stored' and b[1] == 'header' and k[0] == 'par' and len(k) > 2 and isinstance(k[2], int) and k[2] < len(f['params']) and 'vector' in u.ty(f['params'][k[2]]['t']):
                        P10.count('loaded shapes')
                        P10.oblige(parity(val, 'rev') == 1, '%s:%d' % (f['file'], b[3] or f['l']), 'the shape read from the header is reversed again (%s)' % nm, 'it is returned in storage order')
                if isinstance(k, tuple) and k[0] == 'mem':
                    b = base(val)
                    if b[0] == 'stored' and b[1] == 'data' and b[2] > 1:
                        P11.count('values loaded')
                        P11.oblige(parity(val, 'swap') == (0 if zarr else 1), '%s:%d' % (f['file'], b[3] or f['l']),
                                   '%s: decoded data is %s before it is returned (%s)' % (tag, 'left alone' if zarr else 'converted to native order once', nm))
    for w, l in bad:
        P11.oblige(False, '%s:%d' % (f['file'], l or f['l']), '%s (%s)' % (w, nm))
    if any(base(v)[0] == 'stored' for s, _ in r['ret'] for v in s.store.values() if isinstance(v, tuple) and v):
        P11.count('header readers')


class Endian(metadata.Meta):
    """reads metadata; a pass over a codec list counts if no element in it can ask for big endian values"""
    def codec_ok(self, s, el, head):
        if s.known(('==', ('f', el, 'json:name'), ('c', 'bytes'))) is False:
            return True
        cfg = ('f', el, 'json:configuration')
        return not metadata.admits(s, [(('has', el, ('c', 'configuration')), True), (('has', cfg, ('c', 'endian')), True), (('==', ('f', cfg, 'json:endian'), ('c', 'big')), True)])


class Quiet:
    def __getattr__(self, a):
        return lambda *x, **y: None


def opened(chk, u):
    """a stored byte order that is not supported is rejected when metadata is read"""
    inl, _ = metadata.inline_set(u)
    for f in [f for f in u.byqn.get('z5::DatasetMetadata::fromJson', []) if f.get('body')]:
        it = Endian(u, Quiet(), inl)
        r = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        j = ('par', f['params'][0]['n'], 0)
        js, has = metadata.js, metadata.has
        for s, v in r['ret']:
            z = metadata.field(it, s, 'isZarr')
            fmt = metadata.field(it, s, 'zarrFormat')
            if (s.known(z) if not is_c(z) else z[1]) is not True:
                continue
            if fmt != ('c', 3):
                chk.count('paths accepting metadata')
                chk.oblige(metadata.named(s, js(j, 'dtype')), where, 'v2: a data type with its byte order is looked up in the table of those that are supported')
                continue
            codecs = js(j, 'codecs')
            conts = [k[1] for k in s.tags if isinstance(k, tuple) and k[0] == 'elems']
            inner = [c for c in conts if c != codecs]
            chk.count('paths accepting metadata')
            chk.oblige(bool(conts), where, 'v3: a bytes codec with big endian values is rejected', 'no pass over the codecs rejects it')
            if codecs not in conts and inner:
                cfg = inner[0][1] if inner[0][0] == 'f' else None
                if cfg:
                    el0 = ('idx', js(cfg, 'index_codecs'), ('c', 0))
                    metadata.no(chk, s, where, has(el0, 'configuration', 'endian') + [(('==', js(el0, 'configuration', 'endian'), ('c', 'big')), True)],
                                'v3: shard indexes in big endian byte order are rejected')
    for x, ps in roundtrip.tables(u).items():
        f = u.funcs[x]
        for k, v in ps:
            for t in (k, v):
                m = isinstance(t, str) and re.match(r'^([<>|=])([a-zA-Z])(\d+)$', t)
                if m:
                    chk.count('data type names')
                    chk.oblige(m.group(1) == '<' or m.group(1) == '|' and m.group(3) == '1', '%s:%d' % (f['file'], f['l']),
                               'the data type %s has the byte order of the values that are stored' % t)


WIDTHS = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4,
          'double': 8, 'std::complex<float>': 8, 'std::complex<double>': 16, 'std::complex<long double>': 32, 'long long': 8, 'unsigned long long': 8}


def affine(e, env, var):
    """(coefficient of the loop variable, constant) of an integer expression, or None"""
    if e is None:
        return None
    k = e['k']
    if k == 'ref' and e.get('d') == var:
        return 1, 0
    if e.get('v') is not None and k in ('int', 'cast', 'sizeof', 'bin'):
        return 0, int(e['v'])
    if k == 'cast':
        return affine(e['e'], env, var)
    if k == 'ref':
        return (0, env[e['d']]) if e.get('d') in env else None
    if k == 'bin' and e.get('op') in ('+', '-'):
        x, y = affine(e['a'], env, var), affine(e['b'], env, var)
        if x and y:
            g = 1 if e['op'] == '+' else -1
            return x[0] + g * y[0], x[1] + g * y[1]
    return None


def swaps(chk, u):
    """the conversion itself: byte k of the result is byte w - 1 - k of the value, for every k"""
    for x, f in sorted(u.funcs.items()):
        if not f['n'].startswith('reverseEndianness') or f.get('body') is None or not f['params'] or not f['file'].startswith(facts.REPO):
            continue
        t = u.ty(f['params'][0]['t']).replace('const ', '').rstrip(' &')
        m = re.match(r'.*__normal_iterator<([^*]+?) \*,', t)
        t = (m.group(1) if m else t.rstrip(' *')).strip()
        w = WIDTHS.get(t)
        if w is None:
            chk.notes.append('width of %s not known: its conversion is not examined' % t)
            continue
        env = {}
        written = {}
        for n in walk(f['body']):
            tgt = n.get('a') if n.get('k') == 'asg' else n.get('e') if n.get('k') == 'un' and n.get('op') in ('++', '--') else None
            if tgt and tgt.get('k') == 'ref':
                written[tgt.get('d')] = True
        for n in walk(f['body']):
            if n.get('k') == 'var' and n.get('init') is not None and n.get('d') not in written:
                c = affine(n['init'], env, None)
                if c and c[0] == 0:
                    env[n['d']] = c[1]
        found = False
        for n in walk(f['body']):
            if n.get('k') != 'for' or not n.get('init') or not n.get('c') or n['c'].get('k') != 'bin' or n['c']['op'] not in ('<', '<=', '!='):
                continue
            vs = n['init'].get('v') or []
            if len(vs) != 1 or n['c']['a'].get('k') not in ('ref', 'cast'):
                continue
            var = vs[0]['d']
            lo, hi = affine(vs[0].get('init'), env, None), affine(n['c']['b'], env, None)
            inc = n.get('inc') or {}
            if not lo or not hi or affine(n['c']['a'], env, var) != (1, 0) or not (inc.get('k') == 'un' and inc.get('op') == '++'):
                continue
            hi = hi[1] + (n['c']['op'] == '<=')
            pairs = []
            for q in walk(n['body']):
                if q.get('k') == 'asg' and q['a'].get('k') == 'idx' and q['b'].get('k') in ('idx', 'cast'):
                    e = q['b']
                    while e['k'] == 'cast':
                        e = e['e']
                    if e['k'] != 'idx':
                        continue
                    d, c = affine(q['a']['i'], env, var), affine(e['i'], env, var)
                    if d and c and 1 in (abs(d[0]), abs(c[0])) and hi - lo[1] < 100:
                        pairs += [(d[0] * i + d[1], c[0] * i + c[1]) for i in range(lo[1], hi)]
            if pairs:
                found = True
                chk.count('conversions')
                chk.oblige(set(pairs) == {(i, w - 1 - i) for i in range(w)}, '%s:%d' % (f['file'], n['l']), 'every byte of a %d byte value changes places with its mirror image' % w,
                           'bytes %s' % sorted(set(pairs) ^ {(i, w - 1 - i) for i in range(w)})[:4])
        if not found:
            chk.notes.append('%s: the conversion is not a loop over the bytes' % f['qn'])


def main():
    chk = Check('P11', 'parity of the byte order of element data and chunk header fields through encoding, decoding, copies and conversions on every path, per format and element type '
                       '(abstract interpretation); permutation of the conversion loops; byte orders accepted from metadata')
    chks = {'P10': Quiet(), 'P11': chk}
    for un, u in facts.load(['core', 'core_s3']).items():
        for f, fmt, inl, conv in run(chks, u):
            for z in fmt:
                it = Order(u, z, inl, f, conv)
                r = it.run(f)
                judge(chks, u, f, z, it, r)
                if it.undecided:
                    chk.notes.append('%s: %d transfers not resolved' % (f['qn'], it.undecided))
        if un == 'core':
            opened(chk, u)
            swaps(chk, u)
    chk.minimum('values stored', 20)
    chk.minimum('values loaded', 20)
    chk.minimum('paths accepting metadata', 2)
    chk.finish()


if __name__ == '__main__':
    main()
