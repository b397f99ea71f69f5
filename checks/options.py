"""P08: compression settings given in Python reach the codec library or are refused.

Python half: the creation functions are abstractly interpreted per format x compression x option name; the options handed to
the native layer are read off the call.  C++ half: the path of an option from the JSON text over the metadata and the codec
object to the argument of the compression library."""
import ast, os, sys
import common, pysrc, pyabs, facts
from common import Check, rel
from pyabs import I, K, Sym, Fn, Ref, State as PState, NONE, TRUE, FALSE, Undecided, Inst, Cls, Ty, Sl
import roundtrip
from roundtrip import RT, tables, consumed, walk, THIS
from absint import is_c, subterms
from graph import Graph, trivial
from jsonmodel import isj

# argument of the library call that carries an option; range of values the library documents
LIBARG = {
    'blosc_compress_ctx': {'level': 0, 'shuffle': 1, 'codec': 7, 'blocksize': 8, 'nthreads': 9},
    'libdeflate_alloc_compressor': {'level': 0}, 'libdeflate_alloc_compressor_ex': {'level': 0},
    'deflateInit2_': {'level': 1, 'useZlib': 3}, 'deflateInit_': {'level': 1},
    'BZ2_bzCompressInit': {'level': 1}, 'BZ2_bzBuffToBuffCompress': {'level': 4},
    'LZ4_compress_fast': {'level': 4}, 'LZ4_compress_HC': {'level': 4}, 'LZ4_compress_default': {},
    'ZSTD_compress': {'level': 4}, 'ZSTD_compressCCtx': {'level': 5}, 'lzma_easy_encoder': {'level': 1}, 'lzma_easy_buffer_encode': {'level': 0},
}
RANGE = {('blosc', 'level'): (0, 9), ('blosc', 'shuffle'): (0, 2), ('blosc', 'blocksize'): (0, 2**31 - 1), ('blosc', 'nthreads'): (1, 256),
         ('zlib', 'level'): (1, 9), ('bzip2', 'level'): (1, 9), ('lz4', 'level'): (1, 2**31 - 1), ('zstd', 'level'): (1, 22), ('xz', 'level'): (0, 9)}
ALIAS = {'clevel': 'level'}
FORMATS = {'n5': (False, 2), 'zarr v2': (True, 2), 'zarr v3': (True, 3)}


# ------------------------------------------------------------------ Python
class Px(pyabs.Interp):
    def __init__(self, mods, zarr, fmt):
        super().__init__(mods)
        self.zarr, self.fmt = zarr, fmt

    def field(self, o, a, st):
        if a == '_zarr_format':
            return I(self.fmt)
        return Sym('self.' + a)

    def native(self, f, args, kw, st, n):
        name = f.n if isinstance(f, Ty) else f.name if isinstance(f, Sym) else ''
        leaf = name.split('.')[-1]
        if leaf == 'is_zarr' and isinstance(f, Sym):
            return [(st, K(self.zarr))]
        if leaf == 'create_dataset' and not isinstance(f, Fn):
            s = st.copy()
            snap = [self.snap(s, a) for a in list(args) + list(kw.values())]
            s.events.append(('create', snap))
            return [(s, Sym('impl'))]
        if name == 'json.dumps':
            return [(st, args[0])]
        return None

    def snap(self, st, v):
        if isinstance(v, Ref) and st.heap[v.i][0] == 'dict':
            return dict(st.heap[v.i][1])
        return v

    def getitem(self, o, k, st):
        if isinstance(o, (Ty, Sym)) and 'AVAILABLE_COMPRESSORS' in (o.n if isinstance(o, Ty) else o.name):
            return [(st, TRUE)]
        return super().getitem(o, k, st)

    def setitem(self, o, k, v, st):
        if isinstance(o, Inst):
            return [st]
        return super().setitem(o, k, v, st)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Inst):
            return [(s, q) for s, q in self.split(('b', 'in', repr(a), b.name), st)]
        return super().compare(op, a, b, st)


def spelled(mods):
    """names that occur as dictionary keys or are compared with, in the module that creates datasets"""
    out = set()
    for n in ast.walk(mods['dataset'][1]):
        ks = []
        if isinstance(n, ast.Dict):
            ks = n.keys
        elif isinstance(n, ast.Compare):
            ks = [n.left] + n.comparators
        elif isinstance(n, ast.Subscript):
            ks = [n.slice]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'pop', 'setdefault', 'discard', 'remove', 'add'):
            ks = n.args[:1]
        elif isinstance(n, (ast.Set, ast.Tuple, ast.List)):
            ks = n.elts
        elif isinstance(n, ast.keyword) and n.arg:
            out.add(n.arg)
        for k in ks:
            if isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier():
                out.add(k.value)
    return out


def python_half(C, u, cons, codecs):
    mods = pysrc.modules()
    grp = [n for n in mods['group'][1].body if isinstance(n, ast.ClassDef) and n.name == 'Group'][0]
    cls = Cls(grp, 'group')
    entries = ['create_dataset', 'require_dataset']
    keys = sorted({k for _, ks in cons.values() for k in ks} | {'clevel', 'cname', 'acceleration', 'preset', 'blockSize', 'id', 'type', 'bogus'} | spelled(mods))
    sig = {a.arg for n in ast.walk(grp) if isinstance(n, ast.FunctionDef) and n.name in entries for a in n.args.args + n.args.kwonlyargs}
    params = set(sig)
    sig |= {c.args[0].value for m in mods for q, fn in pysrc.functions(mods[m][1]) if fn.name in ('require_dataset', '_require_dataset', 'create_dataset', '_create_dataset') for c in ast.walk(fn)
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'pop' and c.args and isinstance(c.args[0], ast.Constant)}
    codec_keys = {k for _, ks in cons.values() for k in ks} | set(ALIAS)
    keys = [k for k in keys if k not in sig or k in codec_keys and k not in params]
    keys = [k for k in keys if k not in codecs]
    names = sorted(codecs)
    path = rel(mods['dataset'][0])
    for fmt, (zarr, zf) in FORMATS.items():
        for comp in names + [None]:
            jobs = [(), ] + [(k,) for k in keys]
            accepted = []
            for entry in entries:
                f = Px(mods, zarr, zf).method(cls, entry)
                if f is None:
                    C.notes.append('no %s' % entry)
                    continue
                def go(ks):
                    ix = Px(mods, zarr, zf)
                    st = PState()
                    o = Inst(cls, 'self')
                    kw = {'shape': ix.tup(st, [I(64), I(64)]), 'dtype': K('uint8'), 'chunks': ix.tup(st, [I(32), I(32)])}
                    if comp is not None:
                        kw['compression'] = K(comp)
                    kw.update({k: Sym('user %s' % k, 'value') for k in ks})
                    return ix.run(Fn(f, 'group', None, o, cls), [K('d')], st, kw)
                acc = []
                for ks in jobs + [None]:
                    if ks is None:
                        if len(acc) < 2:
                            continue
                        ks = tuple(k for k in acc if ALIAS.get(k, k) == k or ALIAS[k] not in acc)
                    what = '%s, %s, %s, option %s' % (entry, fmt, comp or 'default compression', ' and '.join(ks) or 'none')
                    try:
                        res = go(ks)
                    except Undecided as e:
                        C.notes.append('%s: not decided (%s)' % (what, e))
                        C.count('undecided settings')
                        continue
                    C.count('settings')
                    ok, made = True, False
                    for s, (oc, v) in res:
                        ev = [e for e in s.events if e[0] == 'create']
                        if not ev:
                            continue
                        made = True
                        for e in ev:
                            ok &= judge(C, path, what, e[1], comp, ks, cons, codecs)
                    if made and len(ks) == 1:
                        acc.append(ks[0])
                    C.count('paths', len(res))
                    if ok:
                        C.discharge(path, what + ': passed on or refused')


def settings_half(C):
    """what else the creation functions accept: every setting is handed to the native layer as given"""
    mods = pysrc.modules()
    grp = [n for n in mods['group'][1].body if isinstance(n, ast.ClassDef) and n.name == 'Group'][0]
    cls = Cls(grp, 'group')
    path = rel(mods['dataset'][0])
    fill = Sym('user fillvalue', 'value')
    for fmt, (zarr, zf) in FORMATS.items():
        for entry in ('create_dataset', 'require_dataset'):
            for name in ('d', 'a/d'):
                for enc, shards in ((None, None), ('default', None), ('v2', None), ('default', (64, 66)), ('v2', (64, 66))):
                    if not (zarr and zf == 3) and (enc or shards):
                        continue
                    f = Px(mods, zarr, zf).method(cls, entry)
                    if f is None:
                        continue
                    ix = Px(mods, zarr, zf)
                    st = PState()
                    o = Inst(cls, 'self')
                    tup = lambda *xs: ix.tup(st, [I(x) for x in xs])
                    kw = {'shape': tup(64, 99), 'dtype': K('uint8'), 'chunks': tup(32, 33), 'compression': K('gzip'), 'fillvalue': fill}
                    if enc:
                        kw['chunk_key_encoding'] = K(enc)
                    if shards:
                        kw['shards'] = tup(*shards)
                    what = '%s(%r), %s, key encoding %s, shards %s' % (entry, name, fmt, enc, shards)
                    try:
                        res = ix.run(Fn(f, 'group', None, o, cls), [K(name)], st, kw)
                    except Undecided as e:
                        C.notes.append('%s: not decided (%s)' % (what, e))
                        C.count('undecided settings')
                        continue
                    for s, (oc, v) in res:
                        for e in [e for e in s.events if e[0] == 'create']:
                            seqs = [tuple(s.heap[a.i][1]) for a in e[1] if isinstance(a, Ref)]
                            C.count('creations')
                            need = [('the fill value', fill in e[1]), ('the shape', tuple(map(I, (64, 99))) in seqs), ('the chunk shape', tuple(map(I, (32, 33))) in seqs)]
                            if zarr and zf == 3:
                                need += [('the format', I(3) in e[1]), ('the key encoding', K(enc or 'default') in e[1]), ('the separator of the key encoding', K('.' if enc == 'v2' else '/') in e[1]),
                                         ('the shard shape', not shards or tuple(map(I, shards)) in seqs)]
                            elif zarr:
                                need += [('the chunk separator of the container', any(isinstance(a, Sym) and a.name.endswith('._dimension_separator') for a in e[1]))]
                            for t, ok in need:
                                C.oblige(ok, path, '%s: %s is handed to the native layer' % (what, t), 'it is called with %s' % (e[1],))


def judge(C, path, what, args, comp, ks, cons, codecs):
    opts = [a for a in args if isinstance(a, dict)]
    strs = [a.v for a in args if isinstance(a, K) and isinstance(a.v, str)]
    name = comp
    if comp is None:
        name = next((x for x in strs if x in codecs), None)
        if name is None:
            return True
    ok = True
    if name not in strs:
        if any(x in codecs for x in strs):
            C.violate(path, what + ': the compression created is the one asked for', 'created with %s' % [x for x in strs if x in codecs])
            return False
        raise Undecided('compression argument')
    need = cons.get(codecs.get(name), ((), set()))[1]
    if len(opts) != 1:
        if ks:
            C.violate(path, what + ': the options reach the native layer', 'no options are handed over')
            return False
        return True
    d = {k.v: v for k, v in opts[0].items() if isinstance(k, K)}
    for k in ks:
        u = Sym('user %s' % k, 'value')
        at = [x for x, v in d.items() if v == u or repr(v) in (repr(pyabs.S('int(%r)' % (u,))), 'int(%r)' % (u,))]
        want = {k, ALIAS.get(k, k)}
        if not at:
            C.violate(path, what + ': the value of %s reaches the native layer' % k, 'the option is accepted but its value is dropped')
            ok = False
        elif not set(at) & want:
            C.violate(path, what + ': the value of %s is handed over under its name' % k, 'handed over as %s' % at)
            ok = False
        elif not set(at) & want & need:
            C.violate(path, what + ': the codec uses the option %s' % k, 'the codec reads only %s' % sorted(need))
            ok = False
    if name in ('gzip', 'zlib') and 'useZlib' in need and 'useZlib' in d and 'useZlib' not in ks:
        z = d['useZlib']
        if isinstance(z, K) and z.v is not (name == 'zlib'):
            C.violate(path, what + ': the wrapper is the one the name stands for', 'useZlib=%r for %s' % (z, name))
            ok = False
    return ok


# ------------------------------------------------------------------ C++
class OI(RT):
    def __init__(self, u, inl, tabs):
        super().__init__(u, inl, tabs, set())
        self.calls = []

    def model(self, st, name, n, obj, vs):
        if name in LIBARG:
            self.calls.append((name, [self.val(st, v) for v in vs], st.copy(), self.where(n)))
        return super().model(st, name, n, obj, vs)


def option_of(v, md):
    """name of the option the value v is, unchanged"""
    if not isinstance(v, tuple):
        return None
    if v[0] == 'idx' and is_c(v[2]) and v[1] == ('f', md, 'compressionOptions'):
        return v[2][1]
    if v[0] == 'f' and v[2] == 'second':
        for t in subterms(v):
            if t[0] == 'ofind' and is_c(t[2]) and t[1] == ('f', md, 'compressionOptions'):
                return t[2][1]
    return None


def mentioned(v, md):
    out = set()
    for t in subterms(v):
        if isinstance(t, tuple) and t and t[0] in ('idx', 'ofind', 'has') and len(t) > 2 and is_c(t[2]) and isinstance(t[2][1], str) and t[1] == ('f', md, 'compressionOptions'):
            out.add(t[2][1])
    return out


def excluded(s, m, lo, hi):
    """the facts on the path leave no value of m in [lo, hi]"""
    for f, p in s.facts.items():
        if f[0] == '<' and len(f) == 3:
            if f[1] == m and is_c(f[2]):          # m < c
                if p:
                    hi = min(hi, f[2][1] - 1)
                else:
                    lo = max(lo, f[2][1])
            if f[2] == m and is_c(f[1]):          # c < m
                if p:
                    lo = max(lo, f[1][1] + 1)
                else:
                    hi = min(hi, f[1][1])
        if f[0] == '==' and p and m in f[1:]:
            o = f[2] if f[1] == m else f[1]
            if is_c(o) and isinstance(o[1], int):
                lo, hi = max(lo, o[1]), min(hi, o[1])
    return lo > hi


def codec_half(C, u, cons):
    tabs = tables(u)
    md = ('par', 'md', 0)
    for val, (classes, keys) in sorted(cons.items()):
        for short in classes:
            byc = {}
            for x, f in u.funcs.items():
                c = f.get('cls') or ''
                if c.split('<')[0].rsplit('::', 1)[-1] == short and f.get('body') is not None:
                    byc.setdefault(c, []).append(x)
            pick = sorted(byc, key=lambda c: (not c.endswith('<float>'), not c.endswith('<unsigned char>'), c))[:2]
            for c in pick:
                one_codec(C, u, tabs, c, byc[c], short, keys, md)


def one_codec(C, u, tabs, c, fns, short, keys, md):
    codec = {'BloscCompressor': 'blosc', 'ZlibCompressor': 'zlib', 'Bzip2Compressor': 'bzip2', 'Lz4Compressor': 'lz4', 'ZstdCompressor': 'zstd', 'XzCompressor': 'xz'}.get(short, short)
    members = {}
    ctors = [u.funcs[x] for x in fns if u.funcs[x].get('ctor') and u.funcs[x]['params'] and 'DatasetMetadata' in u.ty(u.funcs[x]['params'][0]['t'])]
    bad = False
    for f in ctors:
        it = OI(u, set(fns), tabs)
        r = it.run(f, this=THIS, args=[md])
        where = '%s:%d' % (rel(f['file']), f['l'])
        vals = {}
        for s, _ in r['ret']:
            cur = {}
            for k, v in s.store.items():
                if isinstance(k, tuple) and k[0] == 'f' and isinstance(k[2], str) and not k[2].startswith('#'):
                    o = option_of(v, md)
                    cur[k[2]] = (o, v, s)
            for m, x in cur.items():
                vals.setdefault(m, []).append(x)
        for m, xs in vals.items():
            names = {o for o, v, s in xs if o} | {k for o, v, s in xs for k in mentioned(v, md)}
            for k in names:
                members.setdefault(m, set()).add(k)
            for k in names:
                for o, v, s in xs:
                    if o == k:
                        continue
                    if s.facts.get(('has', ('f', md, 'compressionOptions'), ('c', k))) is False:
                        continue
                    bad = True
                    C.violate(where, '%s: the option %s is taken over unchanged' % (short, k), 'the member %s is set to %r' % (m, v))
    by_key = {}
    for m, ks in members.items():
        for k in ks:
            by_key.setdefault(k, set()).add(m)
    used = {}
    for x in fns:
        f = u.funcs[x]
        if f['n'] != 'compress':
            continue
        it = OI(u, set(fns), tabs)
        it.run(f, this=THIS)
        where = '%s:%d' % (rel(f['file']), f['l'])
        for name, args, s, w in it.calls:
            C.count('library calls')
            for k, i in LIBARG[name].items():
                if k not in by_key or i >= len(args):
                    continue
                v = args[i]
                ms = {t[2] for t in subterms(v) if isinstance(t, tuple) and t and t[0] == 'f' and len(t) == 3 and t[1] == THIS}
                ms |= {t[2] for fct in s.facts for t in subterms(fct) if isinstance(t, tuple) and t and t[0] == 'f' and len(t) == 3 and t[1] == THIS} if k == 'useZlib' else set()
                mine = by_key[k]
                if k == 'useZlib':
                    used[k] = used.get(k, False) or bool(ms & mine)
                    continue
                if ms - mine and any(m in members for m in ms - mine):
                    bad = True
                    C.violate(where, '%s: %s receives the option %s' % (short, name, k), 'it is handed %s' % sorted(ms - mine))
                elif v in [('f', THIS, m) for m in mine] or ms & mine:
                    used[k] = True
                    if v[0] not in ('f', 'call'):
                        # computed from the option: any other value than the option itself is a different setting
                        pass
                else:
                    lo, hi = RANGE.get((codec, k), (None, None))
                    if lo is not None and any(excluded(s, ('f', THIS, m), lo, hi) for m in mine):
                        used.setdefault(k, False)
                        continue
                    if is_c(v):
                        bad = True
                        C.violate(where, '%s: %s receives the option %s' % (short, name, k), 'it is handed the constant %r for settings in range' % (v[1],))
                    else:
                        C.notes.append('%s: %s argument %d is %r' % (short, name, i, v))
                        used.setdefault(k, True)
            # an option may also select the function that is called
            for k in by_key:
                if k not in used or not used[k]:
                    if any(isinstance(t, tuple) and t and t[0] == 'f' and len(t) == 3 and t[1] == THIS and t[2] in by_key[k] for fct in s.facts for t in subterms(fct)):
                        used[k] = True
        # selection between library functions by a flag
        flags = {t for n in walk(f['body']) for t in [flag_of(n)] if t}
        for k in by_key:
            if by_key[k] & flags:
                used[k] = True
        if it.calls:
            for k in sorted(by_key):
                C.count('options followed into the library')
                if not C.oblige(used.get(k, False), where, '%s: the option %s reaches the compression library' % (short, k), 'the value is stored but no library call depends on it'):
                    bad = True
    for k in sorted(keys):
        C.oblige(k in by_key, ('%s:%d' % (rel(ctors[0]['file']), ctors[0]['l'])) if ctors else short, '%s: the option %s is kept in the codec' % (short, k))


def flag_of(n):
    """member of this that decides a condition"""
    if n.get('k') in ('if', 'cond'):
        for m in walk(n['c']):
            if m.get('k') == 'mem':
                return m['n']
    return None


def creation_half(C, u, cons, codecs):
    """the options reach the metadata: JSON text -> options, and defaults only where nothing is given"""
    tabs = tables(u)
    n = 0
    for f in u.funcs.values():
        if not (f['file'].startswith(facts.REPO) and f.get('body')):
            continue
        ts = [u.ty(p['t']) for p in f['params']]
        if len(ts) == 2 and isj(ts[0]) and 'variant<' in ts[1] and 'map<' in ts[1] and not ts[1].startswith('const'):
            for lp in walk(f['body']):
                if lp.get('k') != 'rfor':
                    continue
                n += 1
                g = dict(f)
                g['body'] = lp['body']
                g['params'] = f['params'] + [dict(lp['var'], n='elem')]
                it = RT(u, {x for x in u.funcs if trivial(u.funcs[x])}, tabs, set())
                r = it.run(g)
                opts = ('par', f['params'][1]['n'] or '1', 1)
                elem = ('par', 'elem', 2)
                where = '%s:%d' % (rel(f['file']), f['l'])
                for s, _ in r['ret']:
                    st = [(k, v) for k, v in s.store.items() if isinstance(k, tuple) and k[0] == 'idx' and k[1] == opts]
                    C.count('option conversions')
                    if not C.oblige(st, where, 'every option in the JSON text is taken over or refused', 'a path drops the option'):
                        continue
                    for k, v in st:
                        C.oblige(k[2] == ('call', 'nlohmann::detail::iteration_proxy_value::key', elem), where, 'an option keeps its name', repr(k[2]))
                        C.oblige(v == ('call', 'nlohmann::detail::iteration_proxy_value::value', elem), where, 'an option keeps its value', repr(v))
    if not n:
        C.notes.append('conversion of the JSON options: not decided')
    # defaults
    g = Graph(u, virtual=False)
    inl = {x for x, f in u.funcs.items() if f['file'].startswith(facts.REPO) and
           (f.get('cls') in ('z5::DatasetMetadata', 'z5::Metadata') or any('variant<' in u.ty(p['t']) for p in f['params']) or (f['qn'].startswith('z5::') and trivial(f)))}
    inl |= {x for x in g.reachable(list(inl)) if u.funcs[x]['file'].endswith(('types.hxx', 'metadata.hxx'))}
    inl -= set(tabs)
    creators = [f for f in u.funcs.values() if f['file'].startswith(facts.REPO) and f.get('body') and any('z5::DatasetMetadata &' == u.ty(p['t']) for p in f['params']) and
                any('variant<' in u.ty(p['t']) for p in f['params'])]
    for f in creators:
        where = '%s:%d' % (rel(f['file']), f['l'])
        for fmt, (iz, zf) in FORMATS.items():
            for cname, cval in sorted(codecs.items()):
                it = RT(u, inl, tabs, set())
                args, md, po, strs = [], None, None, 0
                for i, p in enumerate(f['params']):
                    t = u.ty(p['t'])
                    a = ('par', p['n'] or str(i), i)
                    if t.replace('const ', '') == 'bool':
                        a = ('c', iz)
                    elif t.replace('const ', '') == 'int':
                        a = ('c', zf)
                    elif 'variant<' in t:
                        po = a
                    elif 'basic_string' in t and 'map<' not in t:
                        strs += 1
                        if strs == 2:
                            a = ('c', cname)
                    elif t == 'z5::DatasetMetadata &':
                        md = a
                    args.append(a)
                r = it.run(f, args=args)
                for s, _ in r['ret']:
                    for k in sorted(cons.get(cval, ((), set()))[1]):
                        if k == 'useZlib' and fmt != 'zarr v2':
                            continue      # fixed by the format
                        v = roundtrip.fopt(it, s, md, k)
                        w = ('idx', po, ('c', k))
                        C.count('options at creation')
                        given = s.facts.get(('has', po, ('c', k)))
                        ok = v == w or given is False
                        C.oblige(ok, where, '%s, %s: the option %s given by the user is the one created' % (fmt, cname, k), 'it is %r' % (v,))


def main():
    C = Check('P08', 'abstract interpretation of the Python creation functions per format, compression and option name; symbolic interpretation of the native path of each option '
                     'from JSON over metadata and codec object to the argument of the compression library')
    u = facts.load(['core'])['core']
    tabs = tables(u)
    cons = consumed(u)
    for classes, keys in cons.values():
        for x, f in u.funcs.items():
            if (f.get('cls') or '').split('<')[0].rsplit('::', 1)[-1] in classes and f.get('body') is not None:
                for n in walk(f['body']):
                    if n.get('k') == 'call' and n.get('fn') in ('std::map::find', 'std::map::count', 'std::map::contains') and n.get('a'):
                        k = roundtrip.constv(n['a'][0])
                        if isinstance(k, str):
                            keys.add(k)
    codecs = {}
    for x, p in tabs.items():
        if u.funcs[x]['n'] == 'stringToCompressor':
            for k, v in p:
                codecs[k] = v
    python_half(C, u, cons, codecs)
    settings_half(C)
    codec_half(C, u, cons)
    creation_half(C, u, cons, codecs)
    C.minimum('settings', 100)
    C.minimum('creations', 10)
    C.minimum('options followed into the library', 8)
    C.minimum('options at creation', 10)
    C.assumptions += ['the argument positions of the compression libraries\' functions (LIBARG) and the value ranges they document (RANGE): a setting outside them may be clamped',
                      'json.dumps raises for values JSON cannot express']
    C.finish()


if __name__ == '__main__':
    main()
