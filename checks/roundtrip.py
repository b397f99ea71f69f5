"""P07: what the metadata writer emits is what the metadata reader understands.

Creation, writer and reader are composed symbolically, per format x codec: the document the writer leaves on a path
is handed (closed: what was not written is not there) to the reader, and every field has to come back as it was."""
from common import Check, facts, rel
from graph import Graph, trivial
from absint import *
from jsonmodel import JsonInterp, isj

THIS = ('this',)
FMT = {'N5': (False, 2), 'Zarr v2': (True, 2), 'Zarr v3': (True, 3)}
KINDS = (('std::vector', 'is_array'), ('std::basic_string', 'is_string'), ('char', 'is_string'), ('double', 'is_number_float'),
         ('bool', 'is_boolean'), ('unsigned', 'is_number_unsigned'), ('int', 'is_number_integer'), ('long', 'is_number_integer'))
NUM = {'is_number', 'is_number_integer', 'is_number_unsigned', 'is_number_float'}


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def strip(n):
    while n and n['k'] in ('cast', 'ctor') and (n['k'] == 'cast' or len(n['a']) >= 1 and n['cls'].startswith('std::basic_string')):
        n = n['e'] if n['k'] == 'cast' else n['a'][0]
    return n


def constv(n):
    n = strip(n)
    if n['k'] == 'str':
        return n['v']
    if n['k'] == 'ref' and n.get('dk') == 'enum':
        return n['v']
    return None


def tables(u):
    """static look-up tables: function -> list of (key, value)"""
    out = {}
    for x, f in u.funcs.items():
        if not (f['qn'].startswith('z5::types::') and 'std::map<' in u.ty(f.get('rt', -1)) and not f['params'] and f.get('body')):
            continue
        ps = []
        for n in walk(f['body']):
            if n.get('k') == 'ctor' and (n.get('cls') or '').startswith('std::pair<') and len(n['a']) == 2:
                ps.append((constv(n['a'][0]), constv(n['a'][1])))
        out[x] = ps
    return out


class RT(JsonInterp):
    CAP = 3000
    MAXDEPTH = 12
    implicit_exc = False

    def __init__(self, u, inl, tabs, ident):
        super().__init__(u)
        self.inl, self.tabs, self.ident = inl, {f: dict(p) for f, p in tabs.items()}, ident
        self.inv = {}
        self.kinds = {}
        for a, p in tabs.items():
            for b, q in tabs.items():
                d = dict(q)
                if p and q and all(d.get(v) == k for k, v in p):
                    self.inv[a] = self.inv.get(a, set()) | {b}

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    # documents built here are known completely
    def present(self, s, l):
        if l in s.store or any(isinstance(k, tuple) and k[0] in ('f', 'idx') and self.below(k, l) for k in s.store):
            return True
        if l[0] == 'f':
            b = self.rd(s, l[1])
            if b != l[1]:
                return self.present(s, ('f', b, l[2]))
        return False

    def has(self, s, obj, key):
        m = self.member(obj, key)
        if m[2:] and isinstance(m[2], tuple):
            return ('has', self.rd(s, obj), key)
        return ('c', self.present(s, m))

    def kind(self, s, v):
        if v[0] == 'jarr' or v[0] == 'listv':
            return 'is_array'
        if v == NULL:
            return 'is_null'
        if is_c(v):
            return {str: 'is_string', bool: 'is_boolean', int: 'is_number_unsigned', float: 'is_number_float'}.get(type(v[1]))
        if v in self.kinds:
            return self.kinds[v]
        if v[0] == 'rev':
            return 'is_array'
        if v[0] == 'jobj':
            return 'is_object'
        if self.present(s, v):
            return 'is_object'
        return None

    def assume_isa(self, s, f):
        k = self.kind(s, f[2])
        if k is None:
            return f
        return ('c', f[1] == k or (f[1] == 'is_number' and k in NUM) or (f[1] == 'is_number_integer' and k == 'is_number_unsigned'))

    def settle(self, s, v):
        v = self.typetest(v) if v and v[0] in ('==', 'not') else v
        if v and v[0] == 'not':
            return mk_not(self.settle(s, v[1]))
        if v and v[0] == 'isa':
            return self.assume_isa(s, v)
        return v

    def e_bin(self, n, st):
        return [(s, self.settle(s, v)) for s, v in super().e_bin(n, st)]

    def e_call(self, n, st, dst=None, want_lv=False):
        return [(s, self.settle(s, v) if isinstance(v, tuple) and v and v[0] in ('isa', 'not', '==') else v) for s, v in super().e_call(n, st, dst, want_lv)]

    def e_ctor(self, n, st, dst=None):
        # a copy of an object has the members and elements of the object
        if n.get('cm') and len(n['a']) == 1 and dst is not None and n['a'][0]['k'] in ('ref', 'mem', 'call'):
            a = n['a'][0]
            out = []
            for s, l in (self.lv(a, st) if a['k'] != 'call' or (a.get('fn') or '').endswith('move') else [(x, None) for x in [st]]):
                if l is None:
                    return super().e_ctor(n, st, dst)
                self.wr(s, dst, self.rd(s, l), n)
                self.copy_fields(s, l, dst)
                out.append((s, ('inplace', dst)))
            return out
        return super().e_ctor(n, st, dst)

    def note(self, n, v):
        if isinstance(v, tuple) and not is_c(v):
            t = self.u.ty(n.get('t', -1)).replace('const ', '')
            for p, k in KINDS:
                if t.startswith(p):
                    self.kinds.setdefault(v, k)
                    return

    def model2(self, s, name, n, obj, vs):
        base = name.rsplit('::', 1)[-1]
        fid = n.get('fid')
        if fid in self.tabs:
            return [(s, ('tbl', fid))]
        if fid in self.ident:
            return [(s, self.val(s, vs[0]))]
        fn = self.u.funcs.get(fid)
        if fn is not None and fn['n'] == 'checkShapes':
            return [(s, VOID)]
        if base in ('isnan', 'isinf') and len(vs) == 1:
            return [(s, (base, self.val(s, vs[0])))]
        if name.startswith('std::numeric_limits<') or name.startswith('std::numeric_limits::'):
            return [(s, ('call', base))]
        if name.startswith('std::variant') or name == 'std::get' or name in ('std::holds_alternative',):
            if base in ('variant', 'get'):
                v = self.val(s, vs[0]) if vs else VOID
                return [(s, v)]
            if base == 'operator=':
                self.wr(s, obj, self.val(s, vs[0]), n)
                return [(s, obj)]
        ov = self.rd(s, obj) if obj is not None and obj[0] not in ('lam', 'this') else obj
        if name.startswith('std::map::') and ov[0] == 'tbl':
            t = self.tabs[ov[1]]
            if base in ('at', 'operator[]', 'find', 'count', 'contains') and vs:
                k = self.val(s, vs[0])
                hit = None
                if is_c(k):
                    hit = t.get(k[1])
                    hit = ('c', hit) if hit is not None else None
                elif k[0] == 'entry' and ov[1] in self.inv.get(k[1][1], ()):
                    hit = k[2]
                else:
                    return None
                if base in ('count', 'contains'):
                    return [(s, ('c', hit is not None))]
                if base == 'find':
                    return None
                if hit is None:
                    self.thr.append((s, ('exc', 'std::out_of_range')))
                    return []
                return [(s, hit)]
        if base in ('operator==', 'operator!='):
            a = [self.val(s, x) for x in (([obj] if obj is not None else []) + list(vs))]
            for x, y in (a, a[::-1]) if len(a) == 2 else ():
                if x[0] in ('find', 'ofind') and y[0] == 'call' and y[1] == 'end':
                    f = self.has(s, x[3], x[2]) if x[0] == 'find' else x[3]
                    return [(s, mk_not(f) if base == 'operator==' else f)]
        ct = self.u.ty(n.get('ot', -1)) if n.get('ot') is not None else ''
        if name.startswith('std::map::') and 'variant<' in ct and vs:
            k = self.val(s, vs[0])
            if is_c(k):
                l = ('idx', obj, k)
                if base in ('at', 'operator[]'):
                    if base == 'at' and not self.present(s, l) and self.root(s, l)[0] not in ('par',):
                        self.thr.append((s, ('exc', 'std::out_of_range')))
                        return []
                    return self.out(s, l, self.wl or base == 'operator[]')
                if base in ('find', 'count', 'contains'):
                    h = TRUE if self.present(s, l) else ('has', ov, k)
                    if base == 'find':
                        return [(s, ('ofind', ov, k, h))]
                    b = s.copy()
                    return ([(s, ('c', 1))] if s.assume(h, True) else []) + ([(b, ('c', 0))] if b.assume(h, False) else [])
        if name == 'std::vector::clear':
            self.wr(s, obj, ('listv', ()), n)
            return [(s, VOID)]
        # iterator pair constructors and algorithms on shapes
        if name in ('std::reverse', 'std::ranges::reverse') and vs:
            a = self.val(s, vs[0])
            if a[0] == 'call' and a[1].rsplit('::', 1)[-1] in ('begin', 'rbegin') and len(a) > 2:
                l = a[2]
            elif len(vs) == 1:
                l = vs[0]
            else:
                return None
            self.wr(s, l, self.rev(self.rd(s, l)), n)
            return [(s, VOID)]
        if name == 'std::vector::assign' and len(vs) == 2 or name in ('std::copy', 'std::reverse_copy') and len(vs) == 3:
            a, b = self.val(s, vs[0]), self.val(s, vs[1])
            leaf = lambda x: x[1].rsplit('::', 1)[-1].replace('cr', 'r').replace('cb', 'b').replace('ce', 'e')
            d = obj
            back = 0
            if len(vs) == 3:
                o = self.val(s, vs[2])
                if not (o[0] == 'call' and len(o) > 2 and leaf(o) in ('begin', 'rbegin')):
                    return None
                d, back = o[2], (leaf(o) == 'rbegin') + (name == 'std::reverse_copy')
            if a[0] == 'call' and b[0] == 'call' and len(a) > 2 and len(b) > 2 and leaf(a) in ('begin', 'rbegin') and leaf(b) == leaf(a).replace('begin', 'end') and a[2] == b[2]:
                v = self.rd(s, a[2])
                if ((leaf(a) == 'rbegin') + back) % 2:
                    v = self.rev(v)
                self.wr(s, d, v, n)
                return [(s, VOID)]
            return None
        if n['k'] == 'ctor' and name == 'std::vector::vector' and len(vs) >= 2:
            a, b = self.val(s, vs[0]), self.val(s, vs[1])
            for p, q, w in (('rbegin', 'rend', 'rev'), ('crbegin', 'crend', 'rev'), ('begin', 'end', None), ('cbegin', 'cend', None)):
                if a[0] == 'call' and b[0] == 'call' and a[1].endswith('::' + p) and b[1].endswith('::' + q) and a[2] == b[2]:
                    v = self.rd(s, a[2])
                    return [(s, self.rev(v) if w else v)]
                if a[0] == 'call' and b[0] == 'call' and a[1] == p and b[1] == q and a[2] == b[2]:
                    v = self.rd(s, a[2])
                    return [(s, self.rev(v) if w else v)]
        if n['k'] == 'ctor' and 'json_ref' in name and len(vs) == 1:
            self.note_arg(s, (n.get('a') or [None])[0], vs[0])
            return [(s, vs[0])]
        if n['k'] == 'ctor' and name == 'nlohmann::basic_json::basic_json' and vs and not n.get('cm'):
            v = self.val(s, vs[0])
            if v[0] == 'listv':
                l = ('obj', 'json', next(self.uid))
                self.literal(s, l, v, n)
                return [(s, l)]
        if name.startswith('nlohmann::basic_json::') or isj(ct):
            for a, v in zip(n.get('a') or [], vs):
                self.note_arg(s, a, v)
            if base == 'operator=' and len(vs) == 1:
                l = vs[0]
                v = self.val(s, l)
                if not is_c(v) and v[0] not in ('jarr', 'listv', 'jobj'):
                    src = v if self.members(s, v) else l if isinstance(l, tuple) and self.members(s, l) else None
                    if src is not None:
                        if src != obj:
                            self.wr(s, obj, VOID, n)
                            del s.store[obj]
                            self.copy_fields(s, src, obj)
                        return [(s, obj)]
                self.wr(s, obj, v, n)
                return [(s, obj)]
            if base == 'array':
                v = self.val(s, vs[0]) if vs else ('listv', ())
                els = []
                for e in (v[1] if v[0] == 'listv' else ()):
                    els.append(self.element(s, e))
                return [(s, ('jarr', tuple(els)))]
            if base == 'object' and n.get('static', True) and not vs and name.endswith('::object'):
                return [(s, ('jobj', next(self.uid)))]
            if base in ('push_back', 'emplace_back') and len(vs) == 1:
                cur = self.rd(s, obj)
                els = cur[1] if cur[0] == 'jarr' else ()
                self.wr(s, obj, ('jarr', els + (self.element(s, vs[0]),)), n)
                return [(s, VOID)]
            if base in ('size', 'empty') and not vs and ov[0] in ('jarr', 'jobj'):
                k = len(ov[1]) if ov[0] == 'jarr' else 0
                return [(s, ('c', k if base == 'size' else k == 0))]
            if base in ('at', 'operator[]', 'front') and ov[0] == 'jarr':
                k = self.val(s, vs[0]) if vs else ('c', 0)
                if is_c(k) and isinstance(k[1], int) and k[1] < len(ov[1]):
                    return self.out(s, ov[1][k[1]], self.wl)
        return None

    def on_member(self, s, obj, key, n, how):
        # a null document becomes an object when a member is added
        if how == 'operator[]' and not n.get('const') and obj in s.store and (s.store[obj] == NULL or s.store[obj][0] == 'jobj'):
            del s.store[obj]

    def note_arg(self, s, a, v):
        # the C++ type a value had when it went into the document
        m = a
        while m and m['k'] in ('ctor', 'cast'):
            v2 = self.val(s, v)
            self.note(m, v2)
            if m['k'] == 'ctor':
                if not m['a']:
                    break
                m = m['a'][0]
            else:
                m = m['e']
        if m:
            self.note(m, self.val(s, v))

    def literal(self, s, l, v, n):
        """a document given as a braced list: an object when it consists of (name, value) pairs"""
        els = [self.val(s, e) for e in v[1]]
        if els and all(e[0] == 'listv' and len(e[1]) == 2 and is_c(self.val(s, e[1][0])) and isinstance(self.val(s, e[1][0])[1], str) for e in els):
            self.wr(s, l, VOID, n)
            del s.store[l]
            for e in els:
                m = ('f', l, 'json:' + self.val(s, e[1][0])[1])
                x = self.val(s, e[1][1])
                if x[0] == 'listv':
                    self.literal(s, m, x, n)
                else:
                    t = self.element(s, e[1][1])
                    if t in s.store:
                        s.store[m] = s.store[t]
                    self.copy_fields(s, t, m)
        else:
            self.wr(s, l, ('jarr', tuple(self.element(s, e) for e in v[1])), n)

    def members(self, s, l):
        return any(isinstance(k, tuple) and k[0] == 'f' and isinstance(k[2], str) and k[2].startswith('json:') and self.below(k, l) for k in s.store)

    def root(self, s, l):
        while isinstance(l, tuple) and l[0] in ('f', 'idx'):
            l = l[1]
        return l

    def element(self, s, e):
        l = ('jel', next(self.uid))
        if isinstance(e, tuple) and e[0] in ('v', 'f', 'par', 'jel', 'idx', 'obj'):
            self.copy_fields(s, e, l)
            v = self.rd(s, e)
            if v != e and self.members(s, v):
                self.copy_fields(s, v, l)
            elif v != e:
                s.store[l] = v
        else:
            s.store[l] = self.val(s, e)
        return l

    def rev(self, v):
        return v[1] if v[0] == 'rev' else ('rev', v)

    def x_rfor(self, n, st):
        res = []
        for s, rng in self.lv(n['range'], st):
            rv = self.rd(s, rng)
            if rv[0] != 'jarr':
                return super().x_rfor(n, st)
            cur = [s]
            for el in rv[1]:
                nxt = []
                for s2 in cur:
                    v = n['var']
                    l = ('v', v['d'], v['n'], self.frame.id)
                    self.frame.env[v['d']] = l
                    if self.u.ty(v['t']).endswith('&'):
                        s2.store[('alias', l)] = el
                    else:
                        s2.store.pop(('alias', l), None)
                        s2.store[l] = self.rd(s2, el)
                        self.copy_fields(s2, el, l)
                    for k, s3, val in self.exec(n['body'], s2):
                        if k in ('norm', 'cont'):
                            nxt.append(s3)
                        elif k == 'brk':
                            res.append(('norm', s3, None))
                        else:
                            res.append((k, s3, val))
                cur = nxt
            res.extend(('norm', s2, None) for s2 in cur)
        return res

    def on_store(self, st, l, val, node):
        # facts about a version of the document that is gone
        pass


def consumed(u):
    """codec (enumerator value) -> option names its implementation looks up"""
    out = {}
    for x, f in u.funcs.items():
        if f['n'] != 'init_compressor' and 'init_compressor' not in f['qn']:
            continue
        cur = None
        for n in walk(f['body']):
            if n.get('k') == 'case':
                cur = n.get('iv')
            if n.get('k') == 'new' and cur is not None:
                cls = (n['init'].get('cls') or '') if n.get('init') else ''
                out.setdefault(cur, set()).add(cls.split('<')[0].rsplit('::', 1)[-1])
    opts = {}
    for v, cs in out.items():
        ks = set()
        for x, f in u.funcs.items():
            c = (f.get('cls') or '').split('<')[0].rsplit('::', 1)[-1]
            if c in cs and f.get('body') is not None and any('DatasetMetadata' in u.ty(p['t']) for p in f['params']):
                for n in walk(f['body']):
                    if n.get('k') == 'call' and n.get('fn') in ('std::map::at', 'std::map::operator[]') and n.get('a'):
                        k = constv(n['a'][0])
                        if isinstance(k, str):
                            ks.add(k)
        opts[v] = (sorted(cs), ks)
    return opts


def fld(it, s, b, n):
    return it.rd(s, ('f', b, n))


def same_fill(s, a, b):
    if a == b:
        return True
    if b == ('call', 'quiet_NaN') or b == ('call', 'quiet_NaN', VOID):
        return s.known(('isnan', a)) is True
    if b == ('call', 'infinity'):
        return s.known(('isinf', a)) is True and s.known(('<', ('c', 0), a)) is True
    if b in (('op', '-', ('c', 0), ('call', 'infinity')), ('neg', ('call', 'infinity'))):
        return s.known(('isinf', a)) is True and s.known(('<', ('c', 0), a)) is False
    return False


def check_tables(chk, u, tabs):
    names = {}
    for x, p in tabs.items():
        f = u.funcs[x]
        chk.oblige(bool(p) and all(k is not None and v is not None for k, v in p), '%s:%d' % (f['file'], f['l']), 'the entries of the table %s are constants' % f['n'])
        ks = [k for k, v in p]
        chk.oblige(len(set(ks)) == len(ks), '%s:%d' % (f['file'], f['l']), 'no key occurs twice in the table %s' % f['n'])
        names[f['n']] = (f, p)
        chk.count('table entries', len(p))
    for a, b in (('dtypeToZarr', 'zarrToDtype'), ('dtypeToN5', 'n5ToDtype'), ('compressorToZarr', 'zarrToCompressor'), ('compressorToN5', 'n5ToCompressor')):
        if a not in names or b not in names:
            continue
        f, p = names[a]
        g, q = names[b]
        d = dict(q)
        w = '%s:%d' % (f['file'], f['l'])
        for k, v in p:
            chk.oblige(d.get(v) == k, w, 'the name %r written by %s is read back as the same value by %s' % (v, a, b))
        vals = [v for k, v in p]
        chk.oblige(len(set(vals)) == len(vals), w, 'the names in %s are distinct' % a)
        back = dict(p)
        for k, v in q:
            # several names may be read for one value (gzip / zlib, byte-less byte orders), but that value can be written
            chk.oblige(v in back, '%s:%d' % (g['file'], g['l']), 'what %s accepts as %r can be written again' % (b, k))


def pieces(u, g, tabs):
    ident = {x for x, f in u.funcs.items() if f['file'].startswith(facts.REPO) and len(f['params']) == 1 and isj(u.ty(f['params'][0]['t'])) and
             u.ty(f.get('rt', -1)).startswith('std::vector<unsigned long')}
    inl = {x for x, f in u.funcs.items() if f['file'].startswith(facts.REPO) and
           (any(isj(u.ty(p['t'])) for p in f['params']) or f.get('cls') in ('z5::DatasetMetadata', 'z5::Metadata') or
            any('variant<' in u.ty(p['t']) for p in f['params']) or (f['qn'].startswith('z5::') and trivial(f)))}
    inl |= {x for x in g.reachable(list(inl)) if u.funcs[x]['file'].endswith(('types.hxx', 'metadata.hxx'))}
    inl -= ident | set(tabs)
    creators = [f for f in u.funcs.values() if f['file'].startswith(facts.REPO) and f.get('body') and any('z5::DatasetMetadata &' == u.ty(p['t']) for p in f['params']) and
                any('variant<' in u.ty(p['t']) for p in f['params'])]
    tojson = [f for f in u.funcs.values() if f['qn'] == 'z5::DatasetMetadata::toJson' and f.get('body')][0]
    fromjson = [f for f in u.funcs.values() if f['qn'] == 'z5::DatasetMetadata::fromJson' and f.get('body')][0]
    codecs = {}
    for x, p in tabs.items():
        if u.funcs[x]['n'] == 'stringToCompressor':
            for k, v in p:
                codecs[k] = v
    return ident, inl, creators, tojson, fromjson, codecs


def main():
    chk = Check('P07', 'creation, metadata writer and metadata reader are composed symbolically for each format and codec: every document the writer leaves is accepted by the '
                       'reader, each field and each option the codec consumes comes back with the value it had, and the name tables are inverse to each other')
    u = facts.load(['core'])['core']
    g = Graph(u, virtual=False)
    tabs = tables(u)
    check_tables(chk, u, tabs)
    ident, inl, creators, tojson, fromjson, codecs = pieces(u, g, tabs)
    cons = consumed(u)
    for f in creators:
        for fmt, (iz, zf) in FMT.items():
            for cname, cval in sorted(codecs.items()):
                one(chk, u, inl, tabs, ident, f, tojson, fromjson, fmt, iz, zf, cname, cons.get(cval, ([], set())))
    chk.minimum('compositions', 10)
    chk.minimum('fields compared', 50)
    chk.minimum('options compared', 10)
    chk.finish()


def rooted(k, md):
    while isinstance(k, tuple) and k[0] in ('f', 'idx', 'size'):
        k = k[1]
    return k == md


def optkey(k):
    return k[0] == 'idx' and is_c(k[2]) and isinstance(k[2][1], str)


def is_value(s, x, c):
    """the facts of the path leave only the integer c for x"""
    if s.known(mk_cmp('==', x, c)) is True:
        return True
    if not isinstance(c[1], int):
        return False
    lo, hi, no = None, None, set()
    for f, p in s.facts.items():
        if f[0] == '<' and len(f) == 3:
            if f[1] == x and is_c(f[2]) and isinstance(f[2][1], int):
                lo, hi = (lo, min(f[2][1] - 1, hi if hi is not None else f[2][1])) if p else (max(f[2][1], lo if lo is not None else f[2][1]), hi)
            if f[2] == x and is_c(f[1]) and isinstance(f[1][1], int):
                lo, hi = (max(f[1][1] + 1, lo if lo is not None else f[1][1]), hi) if p else (lo, min(f[1][1], hi if hi is not None else f[1][1]))
        if f[0] == '==' and not p and x in f[1:]:
            o = f[2] if f[1] == x else f[1]
            if is_c(o):
                no.add(o[1])
    return lo is not None and hi is not None and hi - lo < 100 and [i for i in range(lo, hi + 1) if i not in no] == [c[1]]


def fopt(it, s, b, n):
    return it.rd(s, ('idx', ('f', b, 'compressionOptions'), ('c', n)))


def general(states, md):
    """drop states of which another one is the general case: an option with any value instead of its default"""
    def split(s):
        o = {k: v for k, v in s.store.items() if isinstance(k, tuple) and rooted(k, md) and optkey(k)}
        rest = frozenset((k, v) for k, v in s.store.items() if k not in o and rooted(k, md))
        facts = frozenset((k, v) for k, v in s.facts.items() if k[0] != 'has' and not any(isinstance(t, tuple) and t and t[0] == 'u' for t in subterms(k)))
        return o, rest, facts
    info = [(s,) + split(s) for s in states]
    keep = []
    for s, o, r, f in info:
        if any(t is not s and r2 == r and f2 == f and len(o2) < len(o) and all(o.get(k) == v for k, v in o2.items()) for t, o2, r2, f2 in info):
            continue
        keep.append(s)
    return keep


def created(u, inl, tabs, ident, cr, iz, zf, cname, enc=None):
    """the metadata a creation leaves, per path"""
    it = RT(u, inl, tabs, ident)
    args = []
    md = None
    strs = 0
    for i, p in enumerate(cr['params']):
        t = u.ty(p['t'])
        a = ('par', p['n'] or str(i), i)
        if 'bool' == t.replace('const ', ''):
            a = ('c', iz)
        elif 'int' == t.replace('const ', ''):
            a = ('c', zf)
        elif 'basic_string' in t:
            strs += 1
            if enc is not None and 'encoding' in (p['n'] or '').lower():
                a = ('c', enc)
            if strs == 2:
                a = ('c', cname)
        elif t == 'z5::DatasetMetadata &':
            md = a
        args.append(a)
    r = it.run(cr, args=args)
    return md, it, general([s for s, _ in r['ret']], md)


def written(u, inl, tabs, ident, cr, tojson, iz, zf, cname, enc=None):
    """the document written for a created dataset"""
    md, it, firsts = created(u, inl, tabs, ident, cr, iz, zf, cname, enc)
    doc = ('par', 'doc', 900)
    for s1 in firsts:
        it2 = RT(u, inl, tabs, ident)
        it2.uid = it.uid

        def pre(st, fr, s1=s1):
            st.store, st.facts, st.tags = dict(s1.store), dict(s1.facts), dict(s1.tags)
        r2 = it2.run(tojson, this=md, args=[doc], pre=pre)
        for s2, _ in r2['ret']:
            yield it2, s1, md, doc, s2


def one(chk, u, inl, tabs, ident, cr, tojson, fromjson, fmt, iz, zf, cname, cons):
    md, it, firsts = created(u, inl, tabs, ident, cr, iz, zf, cname)
    where = '%s:%d' % (tojson['file'], tojson['l'])
    tag = '%s, %s' % (fmt, cname)
    n = 0
    for s1 in firsts:
        it.thr = []
        it2 = RT(u, inl, tabs, ident)
        it2.uid = it.uid
        doc = ('par', 'doc', 900)
        def pre(st, fr, s1=s1):
            st.store, st.facts, st.tags = dict(s1.store), dict(s1.facts), dict(s1.tags)
        r2 = it2.run(tojson, this=md, args=[doc], pre=pre)
        for s2, _ in r2['ret']:
            it3 = RT(u, inl, tabs, ident)
            it3.uid = it.uid
            it3.kinds = it2.kinds
            back = ('obj', 'back', 901)
            def pre(st, fr, s2=s2):
                st.store, st.facts, st.tags = dict(s2.store), dict(s2.facts), dict(s2.tags)
                for k in list(st.store):
                    if isinstance(k, tuple) and (k == back or it3.below(k, back)):
                        del st.store[k]
                # member initialisers of a metadata object before it is read
                for m, v in (('shardShape', ('listv', ())),):
                    st.store[('f', back, m)] = v
            r3 = it3.run(fromjson, this=back, args=[doc, ('c', iz)], pre=pre)
            for s3, e in r3['thr']:
                chk.oblige(False, where, '%s: the reader accepts what the writer emits' % tag, 'the reader raises %r' % (e,))
            for s3, _ in r3['ret']:
                n += 1
                compare(chk, it3, s3, md, back, fmt, tag, cons, where)
    chk.count('compositions')
    chk.count('paths composed', n)
    ok = set(x for x in tabs if u.funcs[x]['n'] == {'N5': 'compressorToN5', 'Zarr v2': 'compressorToZarr'}.get(fmt))
    if n:
        chk.count('codecs per format')


def compare(chk, it, s, a, b, fmt, tag, cons, where):
    fields = ['dtype', 'shape', 'chunkShape', 'compressor', 'fillValue']
    if fmt != 'N5':
        fields += ['zarrFormat', 'zarrDelimiter']
    if fmt == 'Zarr v3':
        fields += ['chunkKeyEncoding', 'shardShape']
    for f in fields:
        x, y = fld(it, s, a, f), fld(it, s, b, f)
        ok = x == y or (f == 'fillValue' and same_fill(s, x, y))
        if f == 'shardShape' and not ok:
            # empty in both
            ok = y == ('listv', ()) and s.known(mk_cmp('==', ('call', 'size', x), ('c', 0))) is True
        chk.count('fields compared')
        chk.oblige(ok, where, '%s: %s is read back as it was created' % (tag, f), '%r became %r' % (x, y))
    for k in sorted(cons[1]):
        x, y = fopt(it, s, a, k), fopt(it, s, b, k)
        if y == ('idx', ('f', b, 'compressionOptions'), ('c', k)):
            chk.oblige(False, where, '%s: the option %s, which %s needs, is set by the reader' % (tag, k, cons[0]))
            continue
        chk.count('options compared')
        chk.oblige(x == y or (is_c(y) and (s.known(x) is y[1] or is_value(s, x, y))), where, '%s: the codec option %s is read back as it was created' % (tag, k), '%r became %r' % (x, y))


if __name__ == '__main__':
    main()
