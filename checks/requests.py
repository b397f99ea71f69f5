"""P02: requests are validated before any data moves."""
from common import Check, facts, rel
from graph import Graph, trivial
from absint import *
from perm import FS, C_IO, S3

READS = {'GetObject', 'HeadObject', 'ListObjectsV2'}
STREAMS = ('std::basic_ifstream::', 'std::basic_ofstream::', 'std::basic_fstream::')


def storage_primitive(name):
    if name.startswith('std::filesystem::') and name.count('::') == 2:
        return name.rsplit('::', 1)[-1] in FS | {'exists', 'is_directory', 'is_regular_file', 'file_size', 'is_empty', 'directory_iterator'}
    if name.startswith(STREAMS) or name in C_IO:
        return True
    return name.startswith('Aws::S3::S3Client::') and name.rsplit('::', 1)[-1] in S3 | READS


BV = ('bv',)


def foralls(st):
    return [x for x in st.foralls if x[0] == 'forall']


def bounded(st, O, S, D):
    """what is missing from: rank(O) = rank(S) = rank(D) and, for every axis, 0 < S and O + S <= D without wrapping"""
    miss = []
    szD = ('call', 'size', D)
    ranks = {szD}
    for v, nm in ((O, 'offset'), (S, 'shape')):
        sz = v[1]
        if sz == szD or st.known(mk_cmp('==', sz, szD)):
            ranks.add(sz)
        else:
            miss.append('the number of dimensions of the %s equals that of the dataset' % nm)
    fa = set()
    for _, hi, f, p in foralls(st):
        if hi in ranks:
            fa.add((f, p))
    o, s, d = ('idx', O[0], BV), ('idx', S[0], BV), ('idx', D, BV)

    def le(a, b):
        return (('<', b, a), False) in fa or (('<', a, b), True) in fa

    minus = lambda a, b: ('op', '-', a, b)
    plus = [('op', '+', o, s), ('op', '+', s, o)]
    ok = (le(o, d) and le(s, minus(d, o))) or (le(s, d) and le(o, minus(d, s))) or \
        any(le(p, d) and (le(o, p) or le(s, p)) for p in plus)
    if not ok:
        miss.append('offset + shape stays inside the dataset in every dimension, without wrapping around')
    if not ((('==', s, ('c', 0)), False) in fa or (('<', ('c', 0), s), True) in fa or (('<', s, ('c', 1)), False) in fa):
        miss.append('no extent of the request is zero')
    return miss


class ReqInterp(Interp):
    CAP = 24
    MAXDEPTH = 14

    def __init__(self, unit, chk, access, inl, entry):
        super().__init__(unit)
        self.chk, self.access, self.inl, self.entry = chk, access, inl, entry
        self.hits = 0
        self.outputs_of, self.outpar = (), None

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    def is_type_check(self, call):
        return call.get('virt') and any('std::type_info' in self.u.ty(a.get('t', -1)) for a in call['a'] if a)

    def model(self, st, name, n, obj, vs):
        if n['k'] == 'call' and self.is_type_check(n):
            t = self.val(st, vs[0])
            st.tags['typecheck'] = repr((obj, t))
            return [(st, VOID)]
        a = self.access(self, name, n)
        if a and n.get('fid') in self.outputs_of and not (self.outpar and any(isinstance(v, tuple) and mentions(self.val(st, v), self.outpar) for v in vs)):
            a = False
        if a:
            if self.report_ok():
                self.hits += 1
                self.at_access(st, name, n, obj, vs, a)
            return []            # what follows the first access is not this property's business
        return None


class RegionInterp(ReqInterp):
    """bulk requests: offset and shape come from iterators or views of the caller"""

    def at_access(self, st, name, n, obj, vs, kind):
        chk, w = self.chk, self.where(n)
        ds = self.dsloc
        D = ('f', ds, self.shapefield)
        # every vector that was built from what the caller passed
        cands = []
        for k, v in st.store.items():
            if k[0] == 'v' and v[0] == 'range':
                cands.append((v, self.size_of(st, k), root_source(v)))
        best = None
        for O in cands:
            for S in cands:
                if O is S or O[2] == S[2]:
                    continue
                m = bounded(st, O, S, D)
                if best is None or len(m) < len(best[0]):
                    best = (m, O[2], S[2])
        if best is None:
            best = (['the region is copied from the arguments and checked against the shape of the dataset'], None, None)
        who = self.entry['qn']
        for q in ('the number of dimensions of the offset equals that of the dataset', 'the number of dimensions of the shape equals that of the dataset',
                  'offset + shape stays inside the dataset in every dimension, without wrapping around', 'no extent of the request is zero',
                  'the region is copied from the arguments and checked against the shape of the dataset'):
            if q in best[0]:
                chk.violate(w, '%s: %s is reached only after it was established that %s' % (who, name, q))
            elif not best[0]:
                chk.discharge(rel(w), '%s: %s is reached only after it was established that %s' % (who, name, q))
        tc = st.tags.get('typecheck')
        chk.oblige(tc is not None and 'mixed' not in tc, w, '%s: %s is reached only after the element type was checked' % (who, name))
        want = self.elem
        if tc is not None:
            chk.oblige(want in tc, w, '%s: the type that is checked before %s is the element type of the request' % (who, name), 'checked: %s, elements: %s' % (tc, want))


def root_source(v):
    for t in subterms(v):
        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'par':
            return t
    return None


def shape_field(u):
    """the field of z5::Dataset that holds the shape, from the accessor that returns it"""
    for f in u.funcs.values():
        if f.get('pcls') == 'z5::Dataset' and f['n'] == 'shape' and not f['params'] and f.get('body'):
            for n in facts.walk(f['body']):
                if n['k'] == 'mem':
                    return n['n']
    return 'shape_'


def regions(chk, u, g):
    virt_access = {fid for fid in g.reaching(lambda x: any(storage_primitive(e) for e in g.ext[x]))}
    over_access = set()
    for base, impls in u.over.items():
        if u.mclass.get(base, '').split('<')[0] == 'z5::Dataset' and any(i in virt_access for i in impls):
            over_access.add(base)

    gg = Graph(u, virtual=False)
    wr = writers(u, gg)

    def access(it, name, n):
        return n['k'] == 'call' and (n.get('virt') and n.get('fid') in over_access or n.get('fid') in wr)
    sites = set()
    for fid, f in u.funcs.items():
        for root in [f.get('body')] + [i.get('e') for i in f.get('inits') or []]:
            if root and any(x['k'] == 'call' and x.get('virt') and x.get('fid') in over_access for x in facts.walk(root)):
                sites.add(fid)
    reach = gg.reaching(lambda x: x in sites)
    thrower = throwers(u, gg)
    inl = reach | thrower | {x for x, f in u.funcs.items() if trivial(f)}
    for fid in sorted(reach):
        f = u.funcs[fid]
        if f.get('lambda') or f.get('cls') or f['qn'].rsplit('::', 1)[0] != 'z5::multiarray' or '/include/z5/' not in f['file']:
            continue
        # the request functions are those that take the region as iterators from the caller
        dsl = [i for i, p in enumerate(f['params']) if u.ty(p['t']).replace('const ', '') in ('z5::Dataset &',)]
        its = [p for p in f['params'] if 'iterator' in u.ty(p['t']) or u.ty(p['t']).endswith('*')]
        if not dsl or not its:
            continue
        it = RegionInterp(u, chk, access, inl, f)
        it.dsloc = ('par', f['params'][dsl[0]]['n'] or str(dsl[0]), dsl[0])
        it.shapefield = shape_field(u)
        it.elem = elem_type(u, f)
        it.outputs_of = wr
        for i, p in enumerate(f['params']):
            if u.ty(p['t']).replace('const ', '').startswith('z5::multiarray::ArrayView<'):
                it.outpar = ('par', p['n'] or str(i), i)
        it.run(f)
        chk.count('region requests')
        if it.hits == 0:
            raise RuntimeError('%s never reaches the storage in the analysis' % f['qn'])
        chk.count('first storage accesses', it.hits)


POSITION_API = ('writeChunk', 'readChunk', 'readRawChunk', 'removeChunk')


class PositionInterp(ReqInterp):
    """requests that name one chunk by its grid position"""

    def at_access(self, st, name, n, obj, vs, kind):
        w = self.where(n)
        who = '%s' % self.entry['qn']
        idx = self.idx
        grid = ('f', ('f', ('this',), self.grid[0]), self.grid[1])
        size_idx = [('call', 'size', idx)]
        ranks = [k for k in self.rank_terms(st)]
        eq = [r for r in ranks if st.known(mk_cmp('==', size_idx[0], r))]
        self.chk.oblige(bool(eq), w, '%s: %s is reached only after it was established that the position has the number of dimensions of the grid' % (who, name))
        ok = False
        for _, hi, f, p in foralls(st):
            if hi not in ranks and hi not in size_idx:
                continue
            lt = f if p else (f[1] if f[0] == 'not' else None)
            if f[0] == '<' and p and f[1] == ('idx', idx, BV) and f[2] == ('idx', grid, BV):
                ok = True
        self.chk.oblige(ok, w, '%s: %s is reached only after it was established that the position lies inside the grid in every dimension' % (who, name))

    def rank_terms(self, st):
        out = set()
        for f in st.facts:
            for t in subterms(f):
                if isinstance(t, tuple) and len(t) == 3 and t[0] == 'call' and t[1] == 'size' and root_of(t[2]) == ('this',):
                    out.add(t)
        return out


def grid_fields(u):
    """(field of z5::Dataset with the chunk grid, field of the grid with the number of blocks per axis)"""
    outer = inner = None
    for f in u.funcs.values():
        if not f.get('body') or f['params']:
            continue
        ms = [n for n in facts.walk(f['body']) if n['k'] == 'mem']
        if f.get('pcls') == 'z5::Dataset' and f['n'] == 'chunking' and ms:
            outer = ms[0]['n']
        if f.get('pcls') == 'z5::util::Blocking' and f['n'] == 'blocksPerDimension' and ms:
            inner = ms[0]['n']
    return outer or 'chunking_', inner or 'blocksPerDimension_'


def positions(chk, u, g):
    prim = g.reaching(lambda x: any(storage_primitive(e) for e in g.ext[x]))
    grid = grid_fields(u)
    thrower = throwers(u, g)

    def access(it, name, n):
        fid = n.get('fid')
        f = u.funcs.get(fid)
        here = it.frame.fn.get('cls') or ''
        if u.derives(here, 'z5::handle::Handle') or u.derives(here, 'z5::handle::Chunk'):
            return False         # a handle that looks up its format, not chunk data
        if f is None:
            return storage_primitive(name)
        # a function of the storage policy or of a handle that touches storage
        return fid in prim and not u.derives(f.get('cls') or '', 'z5::Dataset') and not f['qn'].startswith('z5::util::') and n['k'] == 'call'
    for f in list(u.funcs.values()):
        if f['n'] not in POSITION_API or not f.get('cls') or not u.derives(f['cls'], 'z5::Dataset') or f.get('body') is None or f['cls'] == 'z5::Dataset':
            continue
        inl = {x for x, k in u.funcs.items() if u.derives(k.get('cls') or '', 'z5::Dataset') or k.get('pcls') == 'z5::util::Blocking' or
               u.derives(k.get('cls') or '', 'z5::handle::Handle') or u.derives(k.get('cls') or '', 'z5::handle::Chunk') or x in thrower and k['le'] - k['l'] < 25 or trivial(k)}
        inl -= {x for x in prim if not u.derives(u.funcs[x].get('cls') or '', 'z5::Dataset') and not u.funcs[x].get('ctor')}
        it = PositionInterp(u, chk, access, inl, f)
        it.idx = ('par', f['params'][0]['n'] or '0', 0)
        it.grid = grid
        it.run(f)
        chk.count('chunk position requests')
        if it.hits == 0:
            raise RuntimeError('%s never reaches the storage in the analysis' % f['qn'])
        chk.count('first storage accesses', it.hits)


class BindInterp(ReqInterp):
    """native entry points of the Python module: regions arrive as vectors of any length, buffers with their own element type"""

    def at_access(self, st, name, n, obj, vs, kind):
        w = self.where(n)
        for a, p in zip(n['a'], self.params(n)):
            if 'void *' not in p:
                continue
            t = strip(a, self.u).replace('const ', '').rstrip(' *&')
            tc = st.tags.get('typecheck')
            self.chk.count('untyped buffers handed over')
            self.chk.oblige(tc is not None and ("typeid', '%s'" % t) in tc.replace('"', "'"), w,
                            '%s: the element type %s of the buffer was checked before it is handed to %s' % (self.entry['qn'], t, name), 'checked: %s' % tc)

    def params(self, n):
        f = self.u.funcs.get(n.get('fid'))
        if f:
            return [self.u.ty(p['t']) for p in f['params']]
        return [self.ty(a) if a else '' for a in n['a']]

    def on_range(self, st, first, count, node):
        if not self.report_ok() or not (first[0] == 'call' and first[1] == 'begin'):
            return
        src = first[2]
        if root_of(src)[0] != 'par':
            return
        self.chk.count('regions copied from Python arguments')
        self.chk.oblige(st.entails_le(count, self.size_of(st, src)), self.where(node),
                        '%s: at most as many values are taken from %s as the caller passed' % (self.entry['qn'], root_of(src)[1]), 'taken: %r' % (count,))


def strip(a, u):
    while a and a['k'] == 'cast' and 'void' in u.ty(a.get('t', -1)):
        a = a['e']
    return u.ty(a.get('t', -1)) if a else ''


def bindings(chk, u):
    over = {base for base in u.over if u.mclass.get(base, '').split('<')[0] == 'z5::Dataset'}
    names = {}
    gg = Graph(u, virtual=False)

    def access(it, name, n):
        return n['k'] == 'call' and n.get('virt') and name.rsplit('::', 1)[-1] in POSITION_API and name.startswith('z5::Dataset::')
    sites = {fid for fid, f in u.funcs.items() if f.get('body') and any(n['k'] == 'call' and n.get('virt') and (n.get('fn') or '').startswith('z5::Dataset::')
             and n['fn'].rsplit('::', 1)[-1] in POSITION_API for n in facts.walk(f['body']))}
    # requests of the library, looked at only up to their validation
    lib = {fid for fid, f in u.funcs.items() if f['qn'].rsplit('::', 1)[0] == 'z5::multiarray' and any('iterator' in u.ty(p['t']) for p in f['params'])}
    reach = gg.reaching(lambda x: x in sites or x in lib)
    inl = reach | throwers(u, gg) | {x for x, f in u.funcs.items() if trivial(f) or ('ArrayView' in u.ty(f.get('rt', -1)) and '/python/' in f['file'])} | \
        {x for x, f in u.funcs.items() if f.get('ctor') and 'ArrayView' in (f.get('cls') or '')}
    for fid in sorted(reach):
        f = u.funcs[fid]
        if '/src/python/lib/' not in f['file'] or not any(u.ty(p['t']).replace('const ', '') == 'z5::Dataset &' for p in f['params']):
            continue
        it = BindInterp(u, chk, access, inl, f)
        it.run(f)
        chk.count('native entry points')


class TypeInterp(Interp):
    def inline_ok(self, fn):
        return '/include/z5/' in fn['file'] and trivial(fn)


def type_checks(chk, u):
    """every implementation of the element type test raises unless the type is that of its own elements"""
    for base, impls in u.over.items():
        if u.mclass.get(base, '').split('<')[0] != 'z5::Dataset':
            continue
        for i in impls:
            f = u.funcs.get(i)
            if f is None or f.get('body') is None or len(f['params']) != 1 or 'std::type_info' not in u.ty(f['params'][0]['t']):
                continue
            it = TypeInterp(u)
            r = it.run(f)
            elem = f['cls'][f['cls'].index('<') + 1:].split(', z5::')[0]
            par = ('par', f['params'][0]['n'] or '0', 0)
            ok = bool(r['thr'])
            for st, _ in r['ret']:
                ok = ok and any(p and x[0] == '==' and par in x[1:] and any(t[0] == 'typeid' and elem in repr(t) for t in x[1:]) for x, p in st.facts.items())
            chk.count('element type tests')
            chk.oblige(ok, '%s:%d' % (f['file'], f['l']), '%s of %s accepts only its own element type' % (f['qn'], f['cls']))


def chunk_rank(chk, u):
    """a chunk handle only comes into being when position, chunk shape and dataset shape have the same rank"""
    for f in list(u.funcs.values()):
        if f['qn'] != 'z5::handle::Chunk::Chunk' or not f.get('ctor') or f.get('implicit') or len(f['params']) < 2 or f.get('inits') is None:
            continue
        it = TypeInterp(u)
        it.inline_ok = lambda fn: '/handle.hxx' in fn['file']
        r = it.run(f)
        vecs = [('par', p['n'] or str(i), i) for i, p in enumerate(f['params']) if 'std::vector' in u.ty(p['t'])]
        chk.count('chunk handle constructors')
        ok = True
        for st, _ in r['ret']:
            szs = [('call', 'size', v) for v in vecs]
            conn = {szs[0]}
            for _ in szs:
                for s in szs:
                    if s not in conn and any(st.known(mk_cmp('==', s, c)) for c in conn):
                        conn.add(s)
            ok = ok and len(conn) == len(szs)
        chk.oblige(ok and len(vecs) >= 3, '%s:%d' % (f['file'], f['l']), 'a chunk handle is only made for a position with as many dimensions as chunk and dataset')


def writers(u, g):
    """functions that write elements through a view they are given"""
    def direct(x):
        b = u.funcs[x].get('body')
        if b is None:
            return False
        for n in facts.walk(b):
            if n['k'] == 'asg' and n['a']['k'] in ('idx', 'un'):
                return True
            if n['k'] == 'call' and (n.get('fn') or '') in ('std::copy', 'std::copy_n', 'std::fill', 'std::fill_n', 'memcpy', 'memset', 'std::memcpy', 'std::memset'):
                return True
        return False
    return {x for x in g.reaching(direct) if u.funcs[x]['qn'].startswith('z5::multiarray::') and not u.funcs[x].get('ctor') and u.ty(u.funcs[x].get('rt', -1)) == 'void' and
            any(u.ty(p['t']).replace('const ', '').startswith('z5::multiarray::ArrayView<') for p in u.funcs[x]['params']) and
            not any('Dataset' in u.ty(p['t']) for p in u.funcs[x]['params'])}


def elem_type(u, f):
    for p in f['params']:
        t = u.ty(p['t'])
        if 'ArrayView<' in t:
            i = t.index('ArrayView<') + len('ArrayView<')
            return t[i:t.rindex('>')]
    for p in f['params']:       # scalar request: the value
        t = u.ty(p['t']).replace('const ', '').rstrip(' &')
        if not ('iterator' in t or 'Dataset' in t) and p['n'] != 'numberOfThreads':
            return t
    return '?'


def throwers(u, g):
    direct = set()
    for fid, f in u.funcs.items():
        if '/include/z5/' not in f['file'] and '/src/python' not in f['file']:
            continue
        if f.get('body') and any(n['k'] == 'throw' for n in facts.walk(f['body'])) and f['le'] - f['l'] < 60:
            direct.add(fid)
    return direct


def main():
    chk = Check('P02', 'every path from a request function to its first access to stored data passes the rank, bounds (non-wrapping), emptiness and element type tests')
    units = facts.load(['core', 'py_dataset'])
    bindings(chk, units['py_dataset'])
    for u in [units['core']]:
        g = Graph(u, virtual=True)
        regions(chk, u, g)
        positions(chk, u, g)
        type_checks(chk, u)
        chunk_rank(chk, u)
    chk.finish()


if __name__ == '__main__':
    main()
