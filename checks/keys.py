"""P09: every operation addresses a chunk under one and the same key, the one the format prescribes.

The key is computed symbolically (strings as concatenations, one segment per loop over the grid position) from the
construction of the dataset handle through that of the chunk handle to the path the handle reports, for each format;
every storage access of the store operations and of the handle itself has to name exactly that path; every chunk handle
a dataset builds has to be for the position it was asked for (or the shard of it); what is configured at opening has to
be what the metadata says."""
from common import Check, facts, rel
from graph import Graph, trivial
from strdom import *
import roundtrip

THIS = ('this',)
FMTS = (('N5', False, 2, 'default'), ('Zarr v2', True, 2, 'default'), ('Zarr v3', True, 3, 'default'), ('Zarr v3 with v2 keys', True, 3, 'v2'))
DELIM = ('par', 'the separator', 800)
CHUNKP, DATAP = ('par', 'chunk', 810), ('par', 'ds', 811)
POS, CSH, DSH = ('par', 'position', 820), ('par', 'chunk shape', 821), ('par', 'dataset shape', 822)
# parameters that name a stored object
PRIM = {'open': 0, 'exists': 0, 'remove': 0, 'remove_all': 0, 'create_directory': 0, 'create_directories': 0, 'rename': 0, 'file_size': 0,
        'is_regular_file': 0, 'is_directory': 0, 'unlink': 0, 'fopen': 0, 'stat': 0, 'status': 0, 'copy_file': 0, 'resize_file': 0}


def norm(v):
    """rank >= 1: pull the leading separator out of a repetition whose first round looks like the others"""
    if not isinstance(v, tuple):
        return v
    out = []
    for x in segs(v):
        if x[0] == 'each' and x[1] and x[1] == x[2] and x[1][0][0] != 'num':
            out += [x[1][0], ('each', x[1][1:], x[2], x[3])]
        else:
            out.append(x)
    return cat(*out)


def want(pos, fmt, iz, zf, enc):
    el = lambda d: ('num', ('el', pos, d))
    if not iz:
        return ('each', (el(-1),), (('c', '/'), el(-1)), True)
    e = ('each', (el(1),), (DELIM, el(1)), True)
    return cat(('c', 'c'), DELIM, e) if (zf, enc) == (3, 'default') else e


def show(v):
    if v[0] == 'cat':
        return ' + '.join(show(x) for x in v[1])
    if v[0] == 'c':
        return repr(v[1])
    if v[0] == 'each':
        a, b = ' + '.join(show(x) for x in v[1]), ' + '.join(show(x) for x in v[2])
        return '{first: %s; then: %s%s}' % (a, b, '' if v[3] else '; not for every axis')
    if v[0] == 'num':
        return 'number of %s' % show(v[1])
    if v[0] == 'el':
        return '%s[%s]' % (show(v[1]), 'axes in order' if v[2] == 1 else 'axes reversed')
    if v[0] in ('par', 'v'):
        return '<%s>' % v[1 if v[0] == 'par' else 2]
    if v[0] == 'f':
        return '%s.%s' % (show(v[1]), v[2])
    return str(v[0]) if len(repr(v)) > 80 else repr(v)


class KI(StrInterp):
    implicit_exc = False

    def __init__(self, u, iz=None):
        super().__init__(u)
        self.iz = iz
        self.touched = []

    def inline_ok(self, fn):
        return fn['file'].startswith(facts.REPO) and 'detail::make' not in fn['qn']

    def model2(self, s, name, n, obj, vs):
        base = name.rsplit('::', 1)[-1]
        fn = self.u.funcs.get(n.get('fid'))
        if base == 'isZarr' and not vs and obj is not None:
            return [(s, ('c', self.iz) if self.iz is not None else ('call', 'isZarr'))]
        if base == 'isZarrDataset' and self.iz is not None:
            return [(s, ('c', self.iz))]
        if base in ('canWrite', 'canCreate') and not vs:
            return [(s, TRUE)]
        if name.startswith('std::atomic') or base in ('computeBoundedShape',):
            return [(s, ('call', base))]
        if base == 'makeClient' or fn is not None and fn['n'] == 'makeClient':
            return [(s, ('call', 'client'))]
        if base == 'parent_path' and obj is not None:
            return [(s, ('parent', self.rd(s, obj)))]
        self.access(s, name, n, obj, vs)
        return None

    def access(self, s, name, n, obj, vs):
        base = name.rsplit('::', 1)[-1]
        v = None
        if base in ('SetKey', 'WithKey', 'SetPrefix', 'WithPrefix') and vs:
            v = vs[0]
        elif base in ('SetBucket', 'WithBucket') and vs:
            self.touched.append((base, self.val(s, vs[0]), n, s, self.frame.fn))
            return
        elif name.startswith('std::filesystem::') and base in PRIM and vs:
            v = vs[PRIM[base]]
        elif base == 'open' and 'stream' in name and vs:
            v = vs[0]
        if v is not None:
            self.touched.append((base, self.val(s, v), n, s, self.frame.fn))

    def e_ctor(self, n, st, dst=None):
        if n['cls'].startswith(('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream')) and n['a']:
            for s, vs in self.evs(n['a'][:1], st.copy()):
                self.touched.append(('open', self.val(s, vs[0]), n, s, self.frame.fn))
        return super().e_ctor(n, st, dst)


def backends(u):
    """(namespace, chunk handle, dataset handle, accessors of the address)"""
    out = []
    for c in sorted({f.get('cls') for f in u.funcs.values() if f.get('cls')}):
        if c.endswith('::handle::Chunk') and c.startswith('z5::') and c != 'z5::handle::Chunk' and '<' not in c:
            ns = c[:-len('::handle::Chunk')]
            out.append((ns, c, ns + '::handle::Dataset', 'nameInBucket' if ns.endswith('s3') else 'path'))
    return out


def meth(u, cls, n, k=0, pred=None):
    r = [f for f in u.funcs.values() if f.get('cls') == cls and f['n'] == n and f.get('body') is not None and len(f['params']) >= k and (pred is None or pred(f))]
    return r


def carry(s):
    def pre(st, fr):
        st.store, st.facts, st.tags = dict(s.store), dict(s.facts), dict(s.tags)
    return pre


def getter(it, fn, this, s):
    t = KI(it.u, it.iz)
    t.uid = it.uid
    r = t.run(fn, this=this, pre=carry(s))
    vs = {t.val(s2, v) for s2, v in r['ret']}
    return vs


def handles(C, u):
    for ns, ch, ds, acc in backends(u):
        acd = meth(u, ds, acc)
        acc_ = meth(u, ch, acc)
        ctors = [f for f in meth(u, ds, 'Dataset', 3) if any(p['n'] and 'int' in u.ty(p['t']) for p in f['params'])]
        copies = [f for f in meth(u, ds, 'Dataset', 1) if len(f['params']) == 1]
        chctors = meth(u, ch, 'Chunk', 4)
        if not (acd and acc_ and ctors and chctors):
            C.notes.append('%s: handle constructors not found' % ns)
            continue
        seen = set()
        for dc in ctors:
            k = (dc['l'], dc['file'])
            if k in seen:
                continue
            seen.add(k)
            for fmt, iz, zf, enc in FMTS:
                for copied in (False, True) if copies else (False,):
                    one(C, u, ns, ch, ds, acc, acd[0], acc_[0], dc, copies[0] if copied else None, chctors[0], fmt, iz, zf, enc)


def one(C, u, ns, ch, ds, acc, acd, acc_, dc, cp, cc, fmt, iz, zf, enc):
    args = []
    for i, p in enumerate(dc['params']):
        t = u.ty(p['t'])
        a = ('par', p['n'] or str(i), i)
        strs = len([q for q in dc['params'][:i] if 'basic_string' in u.ty(q['t'])])
        if t.replace('const ', '') == 'int':
            a = ('c', zf)
        elif 'basic_string' in t:
            a = [a, DELIM, ('c', enc)][strs] if strs < 3 else a
        args.append(a)
    it = KI(u, iz)
    tag = '%s, %s%s' % (ns.split('::')[-1], fmt, ', copied handle' if cp else '')
    r = it.run(dc, this=DATAP, args=args)
    if len(r['ret']) < 1:
        C.notes.append('%s: construction of the dataset handle was not followed' % tag)
        return
    for s, _ in r['ret']:
        this = DATAP
        if cp is not None:
            t = KI(u, iz)
            t.uid = it.uid
            r1 = t.run(cp, this=('par', 'copy', 812), args=[DATAP], pre=carry(s))
            this = ('par', 'copy', 812)
            if len(r1['ret']) != 1:
                C.notes.append('%s: copy not followed' % tag)
                continue
            s = r1['ret'][0][0]
        dpath = getter(it, acd, this, s)
        t = KI(u, iz)
        t.uid = it.uid
        r2 = t.run(cc, this=CHUNKP, args=[this, POS, CSH, DSH], pre=carry(s))
        for s2, _ in r2['ret']:
            for v in getter(t, acc_, CHUNKP, s2):
                v = norm(v)
                if t.undecided or len(dpath) != 1:
                    C.notes.append('%s: the key was not computed (a loop of unknown form)' % tag)
                    continue
                w = norm(cat(list(dpath)[0], ('c', '/'), want(POS, fmt, iz, zf, enc)))
                if any(x[0] in ('u', 'ver', 'call', 'new') for x in segs(v)) and v != w and not any(x[0] == 'each' for x in segs(v)):
                    C.notes.append('%s: the key was not computed (%s)' % (tag, show(v)[:100]))
                    continue
                if hasattr(C, 'on_key'):
                    C.on_key(v, fmt, '%s:%d' % (cc['file'], cc['l']), tag)
                C.count('keys computed')
                C.oblige(v == w, '%s:%d' % (cc['file'], cc['l']), 'the key of a chunk is the one the format prescribes (%s)' % tag,
                         'it is %s, prescribed is %s' % (show(v), show(w)))


def operations(C, u, g):
    """every access of a chunk handle operation or store operation names the path of the handle"""
    for ns, ch, ds, acc in backends(u):
        accs = meth(u, ch, acc)
        if not accs:
            continue
        t = KI(u)
        w = getter(t, accs[0], CHUNKP, State())
        if len(w) != 1:
            continue
        w = list(w)[0]
        ops = [(f, None) for n in ('exists', 'remove', 'create') for f in meth(u, ch, n)]
        for f in u.funcs.values():
            if f.get('body') is None or not f['file'].startswith(facts.REPO) or f['qn'].startswith(ch) or f.get('cls') == ch:
                continue
            ps = [i for i, p in enumerate(f['params']) if u.ty(p['t']).replace('const ', '').strip(' &') == ch]
            if len(ps) == 1:
                ops.append((f, ps[0]))
        seen = set()
        for f, pi in ops:
            if (f['file'], f['l']) in seen:
                continue
            seen.add((f['file'], f['l']))
            it = KI(u)
            args = [None] * len(f['params'])
            if pi is not None:
                args[pi] = CHUNKP
            r = it.run(f, this=CHUNKP if pi is None else None, args=args)
            done = set()
            for prim, v, n, s, fn in it.touched:
                if prim in ('SetBucket', 'WithBucket'):
                    ok = v == ('f', CHUNKP, 'bucketName_') or ('bucket' in repr(v).lower() and mentions(v, CHUNKP))
                    v2 = v
                else:
                    v2 = v[1] if prim.startswith('create_director') and v[0] == 'parent' else v
                    if prim in ('exists',) and v[0] == 'parent' and any(q[0].startswith('create_director') and q[1] == v for q in it.touched):
                        v2 = v[1]
                    ok = v2 == w
                k = (prim, n.get('l'), ok)
                if k in done:
                    continue
                done.add(k)
                C.count('accesses')
                C.oblige(ok, '%s:%d' % (fn['file'], n.get('l', fn['l'])), '%s addresses the chunk under the key of its handle (%s)' % (f['qn'].split('::', 1)[-1], prim),
                         'it addresses %s instead of %s' % (show(v), show(w)))
            # a path reported to the caller
            for i, p in enumerate(f['params']):
                ty = u.ty(p['t'])
                if pi is not None and 'filesystem::path &' in ty and not ty.startswith('const'):
                    for s, _ in r['ret']:
                        l = ('par', p['n'] or str(i), i)
                        if l not in s.store and acc != 'path':
                            continue      # objects that are no files have no path
                        C.count('accesses')
                        C.oblige(s.store.get(l) == w, '%s:%d' % (f['file'], f['l']), '%s reports the path of the chunk' % f['qn'].split('::', 1)[-1], 'it reports %s' % show(s.store.get(l, ('c', 'nothing'))))


class DI(StrInterp):
    """follows a dataset operation: which chunk handle is built from what, and which one goes to the store"""
    implicit_exc = False
    MAXDEPTH = 8

    def __init__(self, u, ch, store):
        super().__init__(u)
        self.ch, self.store = ch, store
        self.built, self.sent, self.parts = [], [], []

    def inline_ok(self, fn):
        return trivial(fn) and fn['file'].startswith(facts.REPO) and fn.get('cls') != self.ch and fn['n'] not in ('shardId', 'shardSlot')

    def e_ctor(self, n, st, dst=None):
        if n['cls'] == self.ch and len(n['a']) == 4 and not n.get('cm'):
            out = []
            l = dst or ('obj', 'chunk', next(self.uid))
            for s, vs in self.evs(n['a'], st):
                loc = self.lv(n['a'][0], s.copy())
                vals = [loc[0][1] if loc else vs[0]] + [self.val(s, v) for v in vs[1:]]
                term = ('chunkh',) + tuple(vals)
                s.store[l] = term
                self.built.append((term, n, self.frame.fn))
                out.append((s, ('inplace', l) if dst else l))
            return out
        return super().e_ctor(n, st, dst)

    def model2(self, s, name, n, obj, vs):
        fn = self.u.funcs.get(n.get('fid'))
        base = name.rsplit('::', 1)[-1]
        if base in ('shardId', 'shardSlot') and len(vs) == 2:
            self.parts.append((base, self.val(s, vs[0]), self.val(s, vs[1]), n, self.frame.fn))
            return [(s, (base, self.val(s, vs[0]), self.val(s, vs[1])))]
        for i, v in enumerate(([obj] if obj is not None else []) + list(vs)):
            if isinstance(v, tuple):
                t = self.val(s, v)
                if t[0] == 'chunkh':
                    self.sent.append((name, t, n, self.frame.fn))
        if obj is not None and isinstance(obj, tuple) and self.val(s, obj)[0] == 'chunkh' and n.get('const'):
            return [(s, ('call', base, self.val(s, obj)))]
        return None


def facts_rel(p):
    return p[len(facts.REPO) + 1:] if p.startswith(facts.REPO + '/') else p


def datasets(C, u):
    groups = {}
    for ns, ch, ds, acc in backends(u):
        for f in u.funcs.values():
            if f.get('body') is None or not f['file'].startswith(facts.REPO) or f.get('cls') == ch:
                continue
            if any(n.get('k') == 'ctor' and n.get('cls') == ch and len(n['a']) == 4 and not n.get('cm') for n in roundtrip.walk(f['body'])):
                groups.setdefault((f['file'], f['l']), (ch, f))
    coordpar = {}          # function -> index of the parameter that is a shard position
    chunkpar = {}          # function -> index of the parameter that is a chunk position
    for (file, line), (ch, f) in sorted(groups.items()):
        it = DI(u, ch, None)
        it.run(f)
        sharded = any(fl['n'] == 'shardShape_' for fl in (u.rec.get(f.get('cls')) or {'fields': []})['fields']) or 'shard' in (f.get('cls') or '').lower()
        for term, n, fn in it.built:
            C.count('chunk handles built')
            where = '%s:%d' % (fn['file'], n.get('l', fn['l']))
            what = f['qn'].rsplit('::', 1)[-1]
            h, pos, cs, sh = term[1:5]
            names = [field(x) for x in (h, cs, sh)]
            C.oblige(h[0] == 'f' and h[1] == THIS or h[0] == 'par', where, '%s: the chunk handle belongs to the dataset of the operation' % what, 'it is built for %s' % show(h))
            isshard = names[1] is not None and 'shard' in names[1].lower()
            C.oblige(names[2] is not None and names[2].strip('_') == 'shape', where, '%s: the chunk handle is built with the shape of the dataset' % what, 'it gets %s' % show(sh))
            C.oblige(names[1] is not None and (isshard or 'chunk' in names[1].lower()), where, '%s: the chunk handle is built with the shape of chunk or shard' % what, 'it gets %s' % show(cs))
            if isshard:
                ok = pos[0] == 'shardId' and pos[1][0] == 'par' and (field(pos[2]) or '').lower().startswith('chunkspershard') or pos[0] == 'par'
                C.oblige(ok, where, '%s: a shard handle is for the shard that holds the chunk asked for' % what, 'its position is %s' % show(pos))
                if pos[0] == 'par':
                    coordpar[f['fid']] = pos[2]
            else:
                if pos[0] == 'par' and n in [x for x in roundtrip.walk(f['body'])]:
                    chunkpar[f['fid']] = pos[2]
                C.oblige(pos[0] == 'par', where, '%s: the chunk handle is for the position asked for' % what, 'its position is %s' % show(pos))
        for name, t, n, fn in it.sent:
            tgt = u.funcs.get(n.get('fid'))
            if tgt is not None and (tgt.get('cls') == ch):
                # accesses through the handle itself
                if tgt['n'] not in ('exists', 'remove', 'create', 'path'):
                    continue
            elif tgt is None or 'Store' not in (tgt.get('cls') or '').split('<')[0]:
                continue
            C.count('handles used for storage')
            isshard = 'shard' in (field(t[3]) or '').lower()
            C.oblige(isshard or not sharded, '%s:%d' % (fn['file'], n.get('l', fn['l'])), '%s: in sharded data only shards are stored objects' % f['qn'].rsplit('::', 1)[-1],
                     'the handle of an inner chunk is used for storage')
    # one method of the interface means the same position in every implementation
    for base, cs in u.over.items():
        for x in sorted(set(cs) & set(coordpar)):
            for y in sorted(set(cs) & set(chunkpar)):
                f = u.funcs[x]
                C.oblige(coordpar[x] != chunkpar[y], '%s:%d' % (f['file'], f['l']), '%s: the position it gets is that of a chunk' % f['n'],
                         'it is used as that of a shard, %s:%d uses it as that of a chunk' % (facts_rel(u.funcs[y]['file']), u.funcs[y]['l']))
    # slots and shards are those of a chunk position
    seen = set()
    for f in u.funcs.values():
        if f.get('body') is None or not f['file'].startswith(facts.REPO) or (f['file'], f['l']) in seen:
            continue
        if not any(n.get('k') == 'call' and (n.get('fn') or '').rsplit('::', 1)[-1] in ('shardId', 'shardSlot') for n in roundtrip.walk(f['body'])):
            continue
        seen.add((f['file'], f['l']))
        it = DI(u, '-', None)
        it.run(f)
        for base, pos, cps, n, fn in it.parts:
            C.count('slots and shards computed')
            C.oblige(pos[0] not in ('shardId', 'shardSlot') and not (pos[0] == 'par' and coordpar.get(fn['fid']) == pos[2]), '%s:%d' % (fn['file'], n.get('l', fn['l'])),
                     '%s gets the position of a chunk' % base, 'it gets %s' % show(pos))
    return coordpar


class Open(roundtrip.RT):
    """opening a dataset whose metadata document is known"""

    def __init__(self, u, inl, tabs, ident, doc, zf):
        super().__init__(u, inl, tabs, ident)
        self.doc, self.zf, self.handles = doc, zf, []

    def inline_ok(self, fn):
        return fn['fid'] in self.inl or (fn['file'].startswith(facts.REPO) and any('basic_string<' in self.u.ty(p['t']) and not self.u.ty(p['t']).startswith('const') and
                                         self.u.ty(p['t']).endswith('&') for p in fn['params']) and any(self.u.ty(p['t']) == 'int &' for p in fn['params']))

    def model2(self, s, name, n, obj, vs):
        base = name.rsplit('::', 1)[-1]
        fn = self.u.funcs.get(n.get('fid'))
        if n.get('op') == '>>' and len(vs) == 2 and roundtrip.isj(self.u.ty((n.get('a') or [{}, {}])[1].get('t', -1)).strip(' &')):
            self.wr(s, vs[1], VOID, n)
            s.store.pop(vs[1], None)
            self.copy_fields(s, self.doc, vs[1])
            return [(s, vs[0])]
        if name == 'nlohmann::basic_json::parse':
            return [(s, self.doc)]
        if base == 'isZarr' and obj is not None:
            return [(s, ('call', 'isZarr', obj))]
        txt = repr(vs)
        if base in ('exists', 'getObjectString', 'objectExists') and (name.startswith('std::filesystem') or fn is not None and self.u.ty(fn.get('rt', -1)) == 'bool'):
            if 'zarr.json' in txt or '.zarray' in txt:
                return [(s, ('c', ('zarr.json' in txt) == (self.zf == 3)))]
        return super().model2(s, name, n, obj, vs)

    def e_ctor(self, n, st, dst=None):
        if n['cls'].endswith('::handle::Dataset') and not n.get('cm') and len(n['a']) >= 3:
            for s, vs in self.evs(n['a'], st.copy()):
                self.handles.append((s, [self.val(s, v) for v in vs], n, self.frame.fn))
            l = dst or ('obj', 'dsh', next(self.uid))
            return [(st, ('inplace', l) if dst else l)]
        return super().e_ctor(n, st, dst)


def openers(C, u, ns):
    """the key configuration read at opening is the one of the metadata"""
    g = Graph(u, virtual=False)
    tabs = roundtrip.tables(u)
    ident, inl, creators, tojson, fromjson, codecs = roundtrip.pieces(u, g, tabs)
    ops = {}
    for f in u.funcs.values():
        if f['file'].startswith(facts.REPO) and f.get('body') is not None and f['n'] and not f.get('cls') and \
                any(n.get('k') == 'ctor' and (n.get('cls') or '').endswith('::handle::Dataset') and len(n['a']) >= 3 and not n.get('cm') for n in roundtrip.walk(f['body'])):
            md = [i for i, p in enumerate(f['params']) if u.ty(p['t']).replace('const ', '').strip(' &') == 'z5::DatasetMetadata']
            own = any(v.get('t') is not None and u.ty(v['t']) == 'z5::DatasetMetadata' for n in roundtrip.walk(f['body']) if n.get('k') == 'decl' for v in n['v'])
            ops.setdefault((f['file'], f['l'], any('s3::' in u.ty(p['t']) for p in f['params'])), (f, 'create' if md else 'own' if own else 'open', md))
    cname = sorted(codecs)[0] if 'raw' not in codecs else 'raw'
    for fmt, iz, zf, enc in FMTS[1:]:
        for cr in creators[:1]:
            known = set()
            for it, s1, md, doc, s2 in roundtrip.written(u, inl, tabs, ident, cr, tojson, iz, zf, cname, enc):
                # one document per configuration of the keys
                sig = frozenset((k, v) for k, v in s2.store.items() if isinstance(k, tuple) and (('chunk_key' in repr(k) or 'separator' in repr(k) or 'format' in repr(k)) or
                                                                                                roundtrip.rooted(k, md) and 'dtype' not in repr(k) and 'fill' not in repr(k).lower()))
                if sig in known:
                    continue
                known.add(sig)
                for var in (None, 'separator', 'configuration'):
                    s3 = s2
                    if var is not None:
                        # documents of other writers may leave the separator out
                        s3 = s2.copy()
                        for k in list(s3.store):
                            while isinstance(k, tuple) and k[0] in ('f', 'idx', 'size'):
                                if k[0] == 'f' and isinstance(k[2], str) and k[2] in ('json:' + var, 'json:dimension_' + var) and 'codecs' not in repr(k) and roundtrip.rooted(k, doc) and 'chunk_grid' not in repr(k):
                                    break
                                k = k[1]
                            else:
                                continue
                            for q in [q for q in s3.store if q == k or isinstance(q, tuple) and it.below(q, k)]:
                                del s3.store[q]
                        if s3.store == s2.store:
                            continue
                    # what the metadata reader makes of it
                    it3 = roundtrip.RT(u, inl, tabs, ident)
                    it3.uid, it3.kinds = it.uid, it.kinds
                    back = ('obj', 'back', 901)
                    def pre(st, fr, s3=s3):
                        carry(s3)(st, fr)
                        for k in list(st.store):
                            if isinstance(k, tuple) and (k == back or it3.below(k, back)):
                                del st.store[k]
                        st.store[('f', back, 'shardShape')] = ('listv', ())
                    r3 = it3.run(fromjson, this=back, args=[doc, ('c', iz)], pre=pre)
                    wants = {}
                    for fl in ('zarrDelimiter', 'zarrFormat', 'chunkKeyEncoding'):
                        wants[fl] = {roundtrip.fld(it3, s4, back, fl) for s4, _ in r3['ret']}
                    for _, (f, kind, mdp) in sorted(ops.items()):
                        if kind == 'own' or var is not None and kind == 'create':
                            continue
                        o = Open(u, inl, tabs, ident, doc, zf)
                        o.uid = it.uid
                        o.kinds = it.kinds
                        args = [None] * len(f['params'])
                        for i in mdp:
                            args[i] = md
                        o.run(f, args=args, pre=carry(s3))
                        for s, vs, n, fn in o.handles:
                            for what, v in zip(('separator', 'format', 'key encoding'), vs[2:]):
                                fl = {'separator': 'zarrDelimiter', 'format': 'zarrFormat', 'key encoding': 'chunkKeyEncoding'}[what]
                                if what == 'key encoding' and zf == 2 or len(wants[fl]) != 1:
                                    continue
                                w = list(wants[fl])[0]
                                C.count('opened configurations')
                                C.oblige(v == w, '%s:%d' % (fn['file'], n.get('l', fn['l'])),
                                         '%s: the handle of a dataset has the %s of its metadata (%s%s)' % (f['qn'], what, fmt, ', %s left out' % var if var else ''),
                                         'it is %s, the metadata says %s' % (show(v), show(w)))


def shards(C, u):
    """the shard of a chunk, its slot and the extent of a shard in chunks"""
    class A(Interp):
        implicit_exc = False

        def on_store(self, st, l, v, node):
            self.stores.append((l, v, node))
    def idx(i):
        return lambda v: isinstance(v, tuple) and v[0] == 'idx' and v[1][0] == 'par' and v[1][2] == i
    seen = set()
    for f in u.funcs.values():
        if f['n'] not in ('shardId', 'shardSlot', 'chunksPerShard') or len(f['params']) != 2 or f.get('body') is None or (f['file'], f['l']) in seen:
            continue
        seen.add((f['file'], f['l']))
        it = A(u)
        it.stores = []
        it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        a, b = idx(0), idx(1)
        if f['n'] == 'shardSlot':
            for l, v, n in it.stores:
                if l[0] != 'v' or not (isinstance(v, tuple) and v[0] == 'op' and v[1] == '+'):
                    continue
                for x, y in ((v[2], v[3]), (v[3], v[2])):
                    if x[0] == 'op' and x[1] == '*' and y[0] == 'op' and y[1] in '/%' and x[2:].count(('c', 1)) == 0:
                        m = [t for t in x[2:] if t[0] == 'idx']
                        if not m or len(x) != 4:
                            continue
                        C.count('shard arithmetic')
                        C.oblige(b(m[0]) and y[1] == '%' and a(y[2]) and b(y[3]) and y[2][2] == y[3][2] == m[0][2], where,
                                 'the slots of a shard are distinct: slot * extent + position %% extent per axis')
        else:
            for l, v, n in it.stores:
                if l[0] == 'idx' and isinstance(v, tuple) and v[0] == 'op' and v[1] in ('/', '%', '*', '-', '+'):
                    C.count('shard arithmetic')
                    C.oblige(v[1] == '/' and a(v[2]) and b(v[3]) and v[2][2] == v[3][2] == l[2], where, '%s divides axis by axis' % f['n'], 'it stores %r' % (v,))


def coordinates(C, u, coordpar):
    """a function that takes the position of a shard is not given that of a chunk"""
    over = {}
    for x in list(coordpar):
        for base, cs in u.over.items():
            if x in cs:
                over[base] = coordpar[x]
    targets = {**over, **coordpar}
    seen = set()
    for f in u.funcs.values():
        if f.get('body') is None or not f['file'].startswith(facts.REPO) or (f['file'], f['l']) in seen:
            continue
        if not any(n.get('k') == 'call' and n.get('fid') in targets for n in roundtrip.walk(f['body'])):
            continue
        seen.add((f['file'], f['l']))

        class S(DI):
            def on_call(self, s, name, n, obj, vs, fn):
                if n.get('fid') in targets:
                    i = targets[n['fid']]
                    if i < len(vs):
                        self.calls.append((self.val(s, vs[i]), n, self.frame.fn))
        it = S(u, '-', None)
        it.calls = []
        it.run(f)
        for v, n, fn in it.calls:
            C.count('shard positions handed over')
            bad = v[0] == 'par' and f['fid'] not in targets and f['n'] != 'operator()' or v[0] == 'shardId' and (v[2][0] == 'f' and not (field(v[2]) or '').lower().startswith('chunkspershard'))
            C.oblige(not bad, '%s:%d' % (fn['file'], n.get('l', fn['l'])), '%s is given the position of a shard' % n.get('fn', '').rsplit('::', 1)[-1], 'it gets %s' % show(v))


def field(v):
    while isinstance(v, tuple) and v and v[0] in ('call',) and len(v) > 1:
        return str(v[1]).rsplit('::', 1)[-1]
    return v[2] if isinstance(v, tuple) and v and v[0] == 'f' else None


def main():
    C = Check('P09', 'the storage key is computed symbolically from handle construction to reported path, per backend and format, and compared with the prescribed one; every storage '
                     'access of handles and stores names that path; every chunk handle is built for the position asked for; the opener reads the same key configuration as the metadata')
    U = facts.load(['core', 'core_s3'])
    for nm in sorted(U):
        u = U[nm]
        handles(C, u)
        operations(C, u, None)
        coordinates(C, u, datasets(C, u))
        shards(C, u)
        openers(C, u, nm)
    C.minimum('keys computed', 4)
    C.minimum('accesses', 4)
    C.minimum('chunk handles built', 5)
    C.finish()


if __name__ == '__main__':
    main()
