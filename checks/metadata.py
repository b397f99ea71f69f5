"""P06: unusable array metadata is rejected when a dataset is opened or created."""
from common import Check, facts, rel
from graph import Graph, trivial
from absint import *
from jsonmodel import JsonInterp, isj

THIS = ('this',)
FIELDS = {'n5': ('dtype', 'shape', 'chunkShape', 'compressor', 'fillValue'),
          'v2': ('dtype', 'shape', 'chunkShape', 'compressor', 'fillValue', 'zarrDelimiter'),
          'v3': ('dtype', 'shape', 'chunkShape', 'compressor', 'fillValue', 'zarrDelimiter', 'chunkKeyEncoding', 'shardShape')}


class Meta(JsonInterp):
    def __init__(self, u, chk, inl):
        super().__init__(u)
        self.chk, self.inl = chk, inl
        self.depth_loops = []
        self.loopinfo = []

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    def on_unguarded(self, s, obj, key, n):
        if self.report_ok():
            self.chk.violate(self.where(n), 'the metadata field %s is read without a test that it is there' % (key[1] if is_c(key) else 'named at run time'),
                             'operator[] on a constant document with a missing member is undefined')

    def on_member(self, s, obj, key, n, how):
        if self.report_ok():
            self.chk.count('metadata fields read')
            if is_c(key):
                self.chk.discharge(rel(self.where(n)), 'the field %s is only used when it is there' % (key[1],))

    def on_convert(self, s, v, ty, n):
        if not self.report_ok():
            return
        t = ty.replace('const ', '').rstrip(' &')
        if t in ('unsigned long', 'std::size_t', 'unsigned int', 'unsigned long long') and v[0] == 'idx':
            ok = s.known(('isa', 'is_number_unsigned', v)) or (s.known(('isa', 'is_number_integer', v)) and
                 any(s.known(f) is False for f in s.facts if f[0] == '<' and f[1] == v and f[2] == ('c', 0)))
            self.chk.count('extents read from metadata')
            self.chk.oblige(ok, self.where(n), 'an extent read from metadata is known to be a non-negative integer')
        if t.startswith('std::vector<unsigned long') and v[0] not in ('c', 'v'):
            self.chk.oblige(False, self.where(n), 'an extent read from metadata is known to be a non-negative integer')

    def on_range(self, s, first, count, node):
        pass

    def model2(self, s, name, n, obj, vs):
        if n['k'] == 'ctor' and name == 'std::vector::vector' and len(vs) >= 2 and self.report_ok():
            t = self.u.ty(n['a'][0].get('t', -1))
            if 'nlohmann' in t and 'iter' in t:
                self.chk.oblige(False, self.where(n), 'an extent read from metadata is known to be a non-negative integer', 'a shape is taken over from the document without looking at its entries')
        return None

    def on_store(self, st, l, val, node):
        # which fill value it is does not matter here: forget how it was found
        if l[0] == 'f' and l[2] == 'fillValue' and l[1] == THIS and val != ('c', 'set'):
            for t in {t for f in st.facts for t in subterms(f) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[2] == 'json:fill_value'}:
                if self.report_ok() and not mentions(val, t):
                    self.chk.oblige(not admits(st, [(('isa', 'is_string', t), True), (('==', t, ('c', 'none of them')), True)]), self.where(node),
                                    'a fill value given by a name is one that is known')
            st.store[l] = ('c', 'set')
            for f in list(st.facts):
                if 'json:fill_value' in repr(f):
                    del st.facts[f]

    def loop(self, st, cond, body, inc, node, pre=None, post_cond=False, quant=None):
        self.depth_loops.append(None)
        outs = super().loop(st, cond, body, inc, node, pre, post_cond, quant)
        info = self.depth_loops.pop()
        if info:
            for kind, s, v in outs:
                if kind == 'norm':
                    for c in info:
                        s.tags[('elems', c)] = True
        return outs

    def one_iter(self, st, cond, body, inc, pre, post_cond):
        d = len(self.depth_loops) - 1
        r = super().one_iter(st, cond, body, inc, pre, post_cond)
        ends, brk, rets, exits = r
        if d >= 0:
            cs = {}
            for s in list(ends) + list(brk):
                for f in s.facts:
                    for t in subterms(f):
                        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[2] == 'json:name' and isinstance(t[1], tuple) and t[1][0] == 'idx' and not is_c(t[1][2]):
                            cs.setdefault(t[1][1], set()).add(t[1])
            good = set()
            for c, els in cs.items():
                for el in els:
                    if not brk and all(self.codec_ok(s, el, st) for s in ends):
                        good.add(c)
            self.depth_loops[d] = good
        return r

    def codec_ok(self, s, el, head):
        """after this pass over the codec list the element is one that is implemented"""
        name = ('f', el, 'json:name')
        if not named(s, name):
            return False
        if s.known(('==', name, ('c', 'bytes'))) is True:
            cfg = ('f', el, 'json:configuration')
            if admits(s, [(('has', el, ('c', 'configuration')), True), (('has', cfg, ('c', 'endian')), True), (('==', ('f', cfg, 'json:endian'), ('c', 'big')), True)]):
                return False
        else:
            # at most one compressor: something that changes here had its first value before
            ch = [k for k in s.store if s.store[k] != head.store.get(k, k) and k in head.store or (isinstance(k, tuple) and k[0] in ('v', 'par', 'f') and s.store[k] != self.rd(head, k))]
            ok = False
            for k in ch:
                hv = self.rd(head, k)
                for f, p in s.facts.items():
                    if p and f[0] == '==' and hv in f[1:] or (f == hv):
                        ok = True
            if not ok and not any(p and f[0] == '<' and f[2] == ('c', 3) and f[1][0] == 'call' and f[1][1] == 'size' for f, p in s.facts.items()):
                return False
        return True


def admits(s, lits):
    """the path does not exclude an input for which all the literals hold"""
    t = s.copy()
    return all(t.assume(f, p) for f, p in lits)


def named(s, term):
    """the path knows the term to be one of a fixed set of names"""
    for f, p in s.facts.items():
        if p and f[0] == 'intable' and f[2] == term:
            return True
        if p and f[0] == '==' and term in f[1:] and is_c(f[2]):
            return True
        if p and f[0] == 'or':
            st, ok = [f], True
            while st and ok:
                x = st.pop()
                if x[0] == 'or':
                    st += [x[1], x[2]]
                elif not (x[0] == '==' and x[1] == term and is_c(x[2])):
                    ok = False
            if ok:
                return True
    return False


def field(it, s, name):
    return it.rd(s, ('f', THIS, name))


def stored(s, name):
    return ('f', THIS, name) in s.store


def elem_terms(it, s, name):
    l = ('f', THIS, name)
    return {l, it.rd(s, l)}


def shapes(chk, it, s, where, what, names):
    """rank, extents and shard multiples on this path; names: field -> locations"""
    sh, ch, sd = names['shape'], names['chunkShape'], names['shardShape']

    def sizes(ls):
        return {it.size_of(s, l) for l in ls} | {('call', 'size', l) for l in ls}
    rank = any(s.known(mk_cmp('==', a, b)) for a in sizes(sh) for b in sizes(ch)) or (sizes(sh) & sizes(ch))
    chk.oblige(bool(rank), where, '%s: shape and chunk shape have the same rank' % what)

    def isel(t, ls):
        return isinstance(t, tuple) and t[0] == 'idx' and t[1] in ls and t[2] == ('bv',)
    full = sizes(sh) | sizes(ch) | sizes(sd)
    pos = any(f[0] == 'forall' and f[1] in full and ((f[2][0] == '==' and not f[3] and any(isel(x, ch) for x in f[2][1:]) and ('c', 0) in f[2][1:]) or
                                   (f[2][0] == '<' and ((f[3] and f[2][1] == ('c', 0) and isel(f[2][2], ch)) or (not f[3] and isel(f[2][1], ch) and f[2][2] == ('c', 1))))) for f in s.foralls)
    chk.oblige(pos, where, '%s: every chunk extent is larger than zero' % what)
    empty = any(s.known(mk_cmp('==', z, ('c', 0))) for z in sizes(sd)) or any(is_c(it.size_of(s, l)) and it.size_of(s, l)[1] == 0 for l in sd)
    if empty:
        return
    rank = any(s.known(mk_cmp('==', a, b)) for a in sizes(sd) for b in sizes(ch)) or (sizes(sd) & sizes(ch))
    mult = any(f[0] == 'forall' and f[1] in full and f[3] and f[2][0] == '==' and ('c', 0) in f[2][1:] and
               any(isinstance(x, tuple) and x[0] == 'op' and x[1] == '%' and isel(x[2], sd) and isel(x[3], ch) for x in f[2][1:]) for f in s.foralls)
    chk.oblige(bool(rank and mult), where, '%s: shards are empty or consist of whole chunks' % what)


def locs(it, s, base, name):
    l = ('f', base, name)
    out = {l, it.rd(s, l)}
    return out | {x for x in s.store if s.store[x] in out}


def opening(chk, u, inl):
    fs = [f for f in u.byqn.get('z5::DatasetMetadata::fromJson', []) if f.get('body')]
    for f in fs:
        it = Meta(u, chk, inl)
        r = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        j = ('par', f['params'][0]['n'], 0)
        chk.count('paths', len(r['ret']))
        seen = set()
        for s, v in r['ret']:
            z = field(it, s, 'isZarr')
            fmt = field(it, s, 'zarrFormat')
            zk = s.known(z) if not is_c(z) else z[1]
            kind = 'n5' if zk is False else ('v3' if fmt == ('c', 3) else 'v2')
            if zk is None:
                chk.violate(where, 'metadata is accepted without a decision between N5 and Zarr')
                continue
            seen.add(kind)
            chk.count('paths accepting %s metadata' % kind)
            for fl in FIELDS[kind]:
                chk.oblige(stored(s, fl), where, '%s: the field %s is set from the stored metadata' % (kind, fl))
            names = {x: locs(it, s, THIS, x) for x in ('shape', 'chunkShape', 'shardShape')}
            shapes(chk, it, s, where, kind, names)
            names_checked(chk, it, s, where, kind, j)
        for kind in ('n5', 'v2', 'v3'):
            if kind not in seen:
                raise RuntimeError('no path accepts %s metadata' % kind)
    return bool(fs)


def js(b, *ks):
    for k in ks:
        b = ('f', b, 'json:' + k)
    return b


def has(b, *ks):
    out = []
    for k in ks:
        out.append((('has', b, ('c', k)), True))
        b = js(b, k)
    return out


def no(chk, s, where, lits, what):
    chk.oblige(not admits(s, lits), where, what)


def names_checked(chk, it, s, where, kind, j):
    def need_named(t, what):
        chk.oblige(named(s, t), where, '%s: %s is one that is implemented' % (kind, what))
    sz = lambda t: ('call', 'size', t)
    if kind == 'n5':
        need_named(js(j, 'dataType'), 'the data type name')
        c = js(j, 'compression')
        old = js(j, 'compressionType')
        if s.known(('has', j, ('c', 'compression'))) is True:
            need_named(js(c, 'type'), 'the codec name')
        else:
            need_named(old, 'the codec name')
    elif kind == 'v2':
        need_named(js(j, 'dtype'), 'the data type name')
        c = js(j, 'compressor')
        if s.known(('isa', 'is_null', c)) is not True:
            need_named(js(c, 'id'), 'the codec name')
        no(chk, s, where, has(j, 'order') + [(('==', js(j, 'order'), ('c', 'F')), True)], 'v2: memory orders other than C are rejected')
        fl = js(j, 'filters')
        no(chk, s, where, has(j, 'filters') + [(('isa', 'is_null', fl), False), (('<', ('c', 0), sz(fl)), True), (('==', sz(fl), ('c', 0)), False)], 'v2: filters are rejected')
        no(chk, s, where, has(j, 'zarr_format') + [(('==', js(j, 'zarr_format'), ('c', 1)), True)], 'v2: other format versions are rejected')
    else:
        need_named(js(j, 'data_type'), 'the data type name')
        need_named(js(j, 'node_type'), 'the node type')
        need_named(js(j, 'chunk_grid', 'name'), 'the kind of chunk grid')
        need_named(js(j, 'chunk_key_encoding', 'name'), 'the chunk key encoding')
        stt = js(j, 'storage_transformers')
        no(chk, s, where, has(j, 'storage_transformers') + [(('<', ('c', 0), sz(stt)), True), (('==', sz(stt), ('c', 0)), False)], 'v3: storage transformers are rejected')
        codecs = js(j, 'codecs')
        conts = [k[1] for k in s.tags if isinstance(k, tuple) and k[0] == 'elems']
        sharded = any(is_c(it.size_of(s, l)) is False and s.known(mk_cmp('==', it.size_of(s, l), ('c', 0))) is False for l in locs(it, s, THIS, 'shardShape'))
        inner = [c for c in conts if c != codecs]
        if codecs in conts:
            chk.oblige(True, where, 'v3: every codec of an unsharded array is implemented')
            chk.count('v3 codec pipelines')
        elif inner:
            c = inner[0]
            chk.oblige(True, where, 'v3: every codec inside a shard is implemented')
            chk.count('v3 codec pipelines')
            # c = codecs[i].configuration.codecs
            cfg = c[1] if c[0] == 'f' else None
            el = cfg[1] if cfg and cfg[0] == 'f' else None
            one = s.known(('==', sz(codecs), ('c', 1))) or s.known(mk_cmp('<', ('c', 1), sz(codecs))) is False
            chk.oblige(bool(one), where, 'v3: codecs next to the sharding codec are rejected')
            if cfg:
                no(chk, s, where, has(cfg, 'index_location') + [(('==', js(cfg, 'index_location'), ('c', 'start')), True)], 'v3: shard indexes that are not at the end are rejected')
                ic = js(cfg, 'index_codecs')
                el0, el1 = ('idx', ic, ('c', 0)), ('idx', ic, ('c', 1))
                chk.oblige(bool(s.known(('==', sz(ic), ('c', 2)))) and named(s, js(el0, 'name')) and named(s, js(el1, 'name')), where, 'v3: shard index codecs that are not implemented are rejected')
                no(chk, s, where, has(el0, 'configuration', 'endian') + [(('==', js(el0, 'configuration', 'endian'), ('c', 'big')), True)], 'v3: shard indexes in big endian byte order are rejected')
        else:
            chk.oblige(False, where, 'v3: every codec of the pipeline is implemented', 'there is no pass over the codec list that rejects what is not implemented')


def creating(chk, u, inl):
    for f in u.byqn.get('z5::createDatasetMetadata', []):
        it = Meta(u, chk, inl)
        r = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        pn = {p['n']: ('par', p['n'], i) for i, p in enumerate(f['params'])}
        md = [('par', p['n'], i) for i, p in enumerate(f['params']) if 'DatasetMetadata' in u.ty(p['t'])][0]
        strs = [('par', p['n'], i) for i, p in enumerate(f['params']) if 'basic_string' in u.ty(p['t'])]
        chk.count('paths', len(r['ret']))
        for s, v in r['ret']:
            names = {}
            for x in ('shape', 'chunkShape', 'shardShape'):
                ls = locs(it, s, md, x)
                mv = it.rd(s, md)
                ls |= {('f', mv, x), it.rd(s, ('f', mv, x))}
                ls |= {it.rd(s, l) for l in list(ls)}
                names[x] = ls
            shapes(chk, it, s, where, 'creation', names)
            for what, i in (('data type', 0), ('codec', 1)):
                chk.oblige(named(s, strs[i]), where, 'creation: the %s name is one that is implemented' % what)
            zf = field2(it, s, md, 'zarrFormat')
            iz = field2(it, s, md, 'isZarr')
            ok = s.known(iz) is False or named(s, zf) or not admits(s, [(iz, True), (('==', zf, ('c', 1)), True)])
            chk.oblige(ok, where, 'creation: the format version is one that is implemented')
            enc = field2(it, s, md, 'chunkKeyEncoding')
            ok = not admits(s, [(iz, True), (('==', zf, ('c', 3)), True), (('==', enc, ('c', 'other')), True)])
            chk.oblige(ok, where, 'creation: the chunk key encoding is one that is implemented')


def field2(it, s, b, n):
    v = it.rd(s, ('f', b, n))
    return v


class Calls(Interp):
    """does every normal path of an opener read the metadata before it builds the dataset?"""
    CAP = 64

    def __init__(self, u, inl, pred):
        super().__init__(u)
        self.inl, self.pred = inl, pred

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    def model(self, s, name, n, obj, vs):
        if self.pred(name):
            s.tags['parsed'] = True
            return [(s, VOID)]
        return None


def openers(chk, u):
    g = Graph(u, virtual=False)
    fj = {x for x, f in u.funcs.items() if f['qn'] == 'z5::DatasetMetadata::fromJson'}
    reach = g.reaching(lambda x: x in fj)
    for x, f in u.funcs.items():
        rt = u.ty(f.get('rt', -1))
        if f['n'] != 'openDataset' or 'unique_ptr<z5::Dataset' not in rt or f.get('body') is None:
            continue
        it = Calls(u, reach | {y for y, h in u.funcs.items() if trivial(h)}, lambda nm: nm == 'z5::DatasetMetadata::fromJson')
        r = it.run(f)
        for s, v in r['ret']:
            chk.count('paths')
            chk.oblige(s.tags.get('parsed') is True, '%s:%d' % (f['file'], f['l']), '%s parses the stored metadata on every path' % f['qn'])
        chk.count('openers')


def readopts(u, f):
    """reads codec options only: nothing in it decides whether the metadata is accepted"""
    ts = [u.ty(p['t']) for p in f['params']]
    return any('variant<' in t and 'map<' in t and not t.startswith('const') and t.endswith('&') for t in ts) and \
        not any(t == 'z5::types::Compressor &' for t in ts) and any(isj(t) for t in ts)


def inline_set(u):
    g = Graph(u, virtual=False)
    inl = {x for x, f in u.funcs.items() if f['file'].startswith(facts.REPO) and
           (any(isj(u.ty(p['t'])) for p in f['params']) or f.get('cls') in ('z5::DatasetMetadata', 'z5::Metadata') or (f['qn'].startswith('z5::') and trivial(f)))
           and not f['n'].startswith(('to', 'write'))}
    inl |= g.reachable(x for x in inl if u.funcs[x].get('cls') in ('z5::DatasetMetadata',) and not u.funcs[x]['n'].startswith('to'))
    opts = {x for x in inl if readopts(u, u.funcs[x])}
    inl -= opts
    return inl, opts


def main():
    chk = Check('P06', 'every path on which metadata is accepted has tested each field: present before it is read, names looked up in a table of implemented ones, '
                       'unsupported orders, filters, grids, codecs, byte orders and shard layouts excluded, extents and ranks consistent (abstract interpretation of the readers with a model of JSON documents)')
    units = facts.load(['core', 'core_s3'])
    for un, u in units.items():
        inl, opts = inline_set(u)
        for x in opts:
            Meta(u, chk, inl).run(u.funcs[x])
            chk.count('option readers')
        opening(chk, u, inl)
        creating(chk, u, inl)
        openers(chk, u)
    chk.minimum('metadata fields read', 30)
    chk.minimum('extents read from metadata', 1)
    chk.minimum('v3 codec pipelines', 2)
    chk.minimum('openers', 2)
    chk.finish()


if __name__ == '__main__':
    main()
