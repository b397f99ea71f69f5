"""P10: axis order. Shapes in metadata documents and chunk headers and positions in keys are reversed once for N5 in each direction and never
for Zarr; nothing else turns a per-axis quantity around."""
import ast
import glob
import keys
import order
import roundtrip
from absint import *
from common import Check, facts, rel
from facts import walk
from graph import Graph

FMTS = [('N5', False, 2), ('Zarr v2', True, 2), ('Zarr v3', True, 3)]
STORED = {'N5': (('shape', ('json:dimensions',)), ('chunkShape', ('json:blockSize',))),
          'Zarr v2': (('shape', ('json:shape',)), ('chunkShape', ('json:chunks',))),
          'Zarr v3': (('shape', ('json:shape',)),)}


def rev(v):
    return v[1] if isinstance(v, tuple) and v and v[0] == 'rev' else ('rev', v)


def get(it, s, b, names):
    for n in names:
        v = it.rd(s, ('f', b, n))
        b = v if isinstance(v, tuple) and v and v[0] in ('f', 'par', 'obj', 'idx') else ('f', b, n)
    return v


def documents(C, u):
    g = Graph(u, virtual=False)
    tabs = roundtrip.tables(u)
    ident, inl, creators, tojson, fromjson, codecs = roundtrip.pieces(u, g, tabs)
    where = '%s:%d' % (tojson['file'], tojson['l'])
    rwhere = '%s:%d' % (fromjson['file'], fromjson['l'])
    for cr in creators:
        for fmt, iz, zf in FMTS:
            for cname in sorted(codecs):
                if cname not in ('raw', 'gzip'):
                    continue
                for it, s1, md, doc, s2 in roundtrip.written(u, inl, tabs, ident, cr, tojson, iz, zf, cname):
                    for field, names in STORED[fmt]:
                        x = roundtrip.fld(it, s2, md, field)
                        y = get(it, s2, doc, names)
                        exp = rev(x) if fmt == 'N5' else x
                        if y not in (x, rev(x)):
                            C.notes.append('%s: the stored %s was not followed (%s)' % (fmt, field, cname))
                            continue
                        C.count('stored shapes')
                        C.oblige(y == exp, where, '%s: the %s in the metadata has %s axis order' % (fmt, field, 'reversed' if fmt == 'N5' else 'memory'),
                                 'it is stored in %s order' % ('memory' if fmt == 'N5' else 'reversed'))
                    it3 = roundtrip.RT(u, inl, tabs, ident)
                    it3.uid, it3.kinds = it.uid, it.kinds
                    back = ('obj', 'back', 901)

                    def pre(st, fr, s2=s2):
                        st.store, st.facts, st.tags = dict(s2.store), dict(s2.facts), dict(s2.tags)
                        for k in list(st.store):
                            if isinstance(k, tuple) and (k == back or it3.below(k, back)):
                                del st.store[k]
                        st.store[('f', back, 'shardShape')] = ('listv', ())
                    r3 = it3.run(fromjson, this=back, args=[doc, ('c', iz)], pre=pre)
                    for s3, _ in r3['ret']:
                        for field in ('shape', 'chunkShape', 'shardShape'):
                            x, y = roundtrip.fld(it3, s3, md, field), roundtrip.fld(it3, s3, back, field)
                            if field != 'shardShape' and y not in (x, rev(x)):
                                C.notes.append('%s: the %s that is read was not followed (%s)' % (fmt, field, cname))
                                continue
                            C.count('loaded shapes')
                            C.oblige(y != rev(x), rwhere, '%s: the %s comes back from the metadata in memory order' % (fmt, field), 'it comes back reversed')


class Keys:
    """listens to the computation of the keys"""
    def __init__(self, C):
        self.C, self.notes = C, C.notes

    def count(self, *a):
        pass

    def oblige(self, *a):
        pass

    def on_key(self, v, fmt, where, tag):
        ds = {t[2] for t in subterms(v) if isinstance(t, tuple) and len(t) == 3 and t[0] == 'el'}
        if not ds:
            self.notes.append('%s: no position in the key' % tag)
            return
        n5 = fmt == 'N5'
        self.C.count('keys')
        self.C.oblige(ds == {-1 if n5 else 1}, where, 'the position in the key of a chunk has %s axis order (%s)' % ('reversed' if n5 else 'memory', tag), 'it is %s' % keys.show(v))


def isshape(t):
    return 'unsigned long' in t or 'unsigned int' in t or 'vector<long' in t or 'vector<int' in t


def elsewhere(C, u):
    """no other function turns a shape or a position around"""
    g = Graph(u, virtual=False)
    roots = []
    for x, f in u.funcs.items():
        if not f['file'].startswith(facts.REPO) or f.get('body') is None:
            continue
        c = f.get('cls') or ''
        if c in ('z5::DatasetMetadata', 'z5::Metadata') or '::handle' in c:
            roots.append(x)
        elif any('DatasetMetadata &' in u.ty(p['t']) or 'basic_json' in u.ty(p['t']) for p in f['params']):
            roots.append(x)
        else:
            for n in walk(f['body']):
                b = (n.get('fn') or '').rsplit('::', 1)[-1] if n.get('k') in ('call', 'ctor') else ''
                if b in ('memcpy', 'memmove') or b == 'read' and 'stream' in n.get('fn', '') + u.ty(n.get('ot', -1)):
                    roots.append(x)
                    break
    # whatever only works for these
    cover = g.reachable(roots)
    for x, f in sorted(u.funcs.items()):
        if not f['file'].startswith(facts.REPO) or f.get('body') is None or x in cover:
            continue
        for n in walk(f['body']):
            if n.get('k') != 'call':
                continue
            b = (n.get('fn') or '').rsplit('::', 1)[-1]
            t = ''
            if b in ('rbegin', 'crbegin') and n.get('o') is not None:
                t = u.ty(n['o'].get('t', -1))
            elif b in ('reverse', 'reverse_copy') and n.get('fn', '').startswith('std::') and n['a']:
                t = u.ty(n['a'][0].get('t', -1))
            if t and isshape(t):
                C.oblige(False, '%s:%d' % (f['file'], n.get('l') or f['l']), 'axes are only reversed where data is stored and loaded', '%s reverses %s' % (f['qn'], t[:60]))
        C.count('functions without reversal')


def python(C):
    for p in sorted(glob.glob(facts.REPO + '/src/python/module/z5py/**/*.py', recursive=True)):
        tree = ast.parse(open(p).read())
        C.count('python modules')
        for n in ast.walk(tree):
            e = None
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None and isinstance(n.slice.step, ast.UnaryOp) and \
                    isinstance(n.slice.step.op, ast.USub) and isinstance(n.slice.step.operand, ast.Constant) and n.slice.step.operand.value == 1:
                e = n.value
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'reversed' and n.args:
                e = n.args[0]
            if e is not None:
                names = {m.id for m in ast.walk(e) if isinstance(m, ast.Name)} | {m.attr for m in ast.walk(e) if isinstance(m, ast.Attribute)}
                bad = [m for m in names if any(w in m.lower() for w in ('shape', 'chunk', 'block', 'dimension', 'shard'))]
                C.oblige(not bad, '%s:%d' % (p, n.lineno), 'shapes pass through Python in memory order', '%s is reversed' % ', '.join(sorted(bad)))


def main():
    C = Check('P10', 'parity of the axis order of shapes and positions in metadata documents (writer and reader composed symbolically), chunk headers and chunk keys, per format and backend; '
                     'no reversal anywhere else')
    U = facts.load(['core', 'core_s3'])
    for nm in sorted(U):
        u = U[nm]
        for f, fmt, inl, conv in order.run({}, u):
            for z in fmt:
                it = order.Order(u, z, inl, f, conv)
                order.judge({'P10': C, 'P11': order.Quiet()}, u, f, z, it, it.run(f))
        keys.handles(Keys(C), u)
        elsewhere(C, u)
        if nm == 'core':
            documents(C, u)
    for nm, u in facts.load([x for x in facts.UNITS if x.startswith('py_')]).items():
        elsewhere(C, u)
    python(C)
    C.minimum('stored shapes', 6)
    C.minimum('loaded shapes', 6)
    C.minimum('keys', 4)
    C.finish()


if __name__ == '__main__':
    main()
