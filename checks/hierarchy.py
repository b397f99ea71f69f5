"""P23: objects created under a path lie inside their group, and everything above them is a group."""
import ast
import pysrc, pyabs
from common import Check, rel
from pyabs import I, K, Sym, Fn, Ref, State as PState, TRUE, Undecided, Inst, Cls, Ty

FORMATS = {'n5': (False, 2), 'zarr v2': (True, 2), 'zarr v3': (True, 3)}
NAMES = ['d', '/d', 'a/d', '/a/d', 'a//d', 'a/b/d', '/a/b/d', 'a/d/', 'd/']
HANDLE = 'handle<'


def H(path):
    return Sym(HANDLE + '/'.join(path) + '>', 'handle')


def path_of(v):
    if isinstance(v, Sym) and v.name.startswith(HANDLE) and v.name.endswith('>') and v.name.count('>') == 1:
        x = v.name[len(HANDLE):-1]
        return tuple(x.split('/')) if x else ()
    return None


class Tx(pyabs.Interp):
    """operations of a group over a model of the container: which paths are groups, which are datasets"""
    def __init__(self, mods, zarr, fmt, base):
        super().__init__(mods)
        self.zarr, self.fmt, self.base = zarr, fmt, base

    def field(self, o, a, st):
        if isinstance(o, Inst) and o.name == 'self':
            return {'_zarr_format': I(self.fmt), '_handle': H(self.base), '_handle_factory': Ty('_z5py.Group'), '_name': K('/'.join(('',) + self.base)),
                    '_dimension_separator': Sym('separator of the container'), '_parent': Sym('parent')}.get(a, Sym('self.' + a))
        return super().field(o, a, st)

    def target(self, st, h, k):
        """path of an object given by handle and key, as the library resolves it"""
        base = path_of(h)
        if base is None or not (isinstance(k, K) and isinstance(k.v, str)):
            raise Undecided('key %r below %r' % (k, h))
        if k.v.startswith('/'):
            st.events.append(('escape', k.v))
            return ('', ) + tuple(x for x in k.v.split('/') if x)
        parts = [x for x in k.v.split('/') if x and x != '.']
        return base + tuple(parts)

    def at(self, st, p):
        return 'group' if p == () else st.fields.get(('fs', p))

    def native(self, f, args, kw, st, n):
        name = f.n if isinstance(f, Ty) else f.name if isinstance(f, Sym) else ''
        if isinstance(f, Sym) and name.startswith(HANDLE) and '>.' in name:
            h, m = name.split('>.', 1)
            h = Sym(h + '>')
            if m in ('has', 'is_sub_group', 'get_dataset_handle'):
                s = st.copy()
                t = self.target(s, h, args[0])
                if m == 'get_dataset_handle':
                    return [(s, H(t))]
                return [(s, K(self.at(s, t) is not None if m == 'has' else self.at(s, t) == 'group'))]
            if m == 'is_zarr':
                return [(st, K(self.zarr))]
            if m in ('exists',):
                return [(st, K(self.at(st, path_of(h)) is not None))]
            if m == 'remove':
                s = st.copy()
                s.events.append(('remove', path_of(h)))
                return [(s, K(None))]
            if m == 'mode()' or m == 'mode':
                return [(st, Sym('mode object'))]
            if m.endswith('can_write'):
                return [(st, TRUE)]
            return None
        if isinstance(f, Sym) and name.startswith('mode object.'):
            return [(st, TRUE)]
        leaf = name.split('.')[-1]
        if '_z5py' in name and leaf in ('create_group', 'create_dataset', 'open_dataset', 'Group'):
            s = st.copy()
            t = self.target(s, args[0], args[1])
            if leaf == 'Group':
                return [(s, H(t))]
            if leaf == 'open_dataset':
                return [(s, Sym('dataset at ' + '/'.join(t)))]
            if self.at(s, t) is not None:
                return self.fail(s, 'ValueError')
            if leaf == 'create_group' and self.zarr and I(self.fmt) not in list(args[2:]) + list(kw.values()):
                s.events.append(('format', list(args[2:])))
            s.fields[('fs', t)] = leaf[7:]
            if leaf == 'create_dataset' and len(args) > 4:
                s.fields[('meta', t)] = dict(dtype=args[2], shape=args[3], chunks=args[4])
            s.events.append(('create', t))
            return [(s, H(t) if leaf == 'create_group' else Sym('dataset at ' + '/'.join(t)))]
        if '_z5py' in name and leaf == 'remove_dataset' and args and isinstance(args[0], Sym) and args[0].name.startswith('dataset at '):
            s = st.copy()
            s.events.append(('remove', tuple(args[0].name[11:].split('/'))))
            return [(s, K(None))]
        if name == 'json.dumps':
            return [(st, args[0])]
        return None

    def sym_attr(self, o, a, st):
        if o.name.startswith('dataset at '):
            m = st.fields.get(('meta', tuple(o.name[11:].split('/'))))
            if m and a in m:
                return [(st, m[a])]
        return super().sym_attr(o, a, st)

    def getitem(self, o, k, st):
        if isinstance(o, (Ty, Sym)) and 'AVAILABLE_COMPRESSORS' in (o.n if isinstance(o, Ty) else o.name):
            return [(st, TRUE)]
        if isinstance(o, Inst):
            f = self.method(o.cls, '__getitem__')
            if f is not None:
                return self.call_fn(Fn(f, o.cls.mod, None, o, o.cls), [k], {}, st)
        return super().getitem(o, k, st)

    def setitem(self, o, k, v, st):
        if isinstance(o, Inst):
            return [st]
        return super().setitem(o, k, v, st)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Inst):
            f = self.method(b.cls, '__contains__')
            if f is not None:
                out = []
                for s, v in self.call_fn(Fn(f, b.cls.mod, None, b, b.cls), [a], {}, st):
                    if s.exc:
                        out.append((s, None))
                    else:
                        out.extend((s2, q != isinstance(op, ast.NotIn)) for s2, q in self.truth(v, s))
                return out
        return super().compare(op, a, b, st)


def main():
    C = Check('P23', 'abstract interpretation of every Python operation that takes a path, per format, spelling of the path, place of the group and state of the container, over a model of '
                     'the container\'s tree')
    mods = pysrc.modules()
    grp = [n for n in mods['group'][1].body if isinstance(n, ast.ClassDef) and n.name == 'Group'][0]
    cls = Cls(grp, 'group')
    path = rel(mods['group'][0])
    entries = ['create_group', 'require_group', 'create_dataset', 'require_dataset', '__contains__', '__getitem__', '__delitem__', 'is_sub_group']
    for fmt, (zarr, zf) in FORMATS.items():
        for base in ((), ('g',)):
            for entry in entries:
                for name in NAMES:
                    want = base + tuple(x for x in name.split('/') if x)
                    above = [want[:i] for i in range(len(base) + 1, len(want))]
                    making = entry.startswith(('create', 'require'))
                    # states: nothing there; everything above; the object itself; a dataset in the way
                    trees = [('nothing is there', {})] if making else []
                    if above and making:
                        trees.append(('the groups above exist', {p: 'group' for p in above}))
                        trees.append(('a dataset is in the way', {above[0]: 'dataset'}))
                    for kind in ('group', 'dataset'):
                        if making and not (entry.startswith('require') and entry.endswith(kind)):
                            continue
                        t = {p: 'group' for p in above}
                        t[want] = kind
                        trees.append(('it is a %s' % kind, t))
                    for tn, tree in trees:
                        one(C, mods, cls, path, entry, fmt, zarr, zf, base, name, want, above, tn, tree)
            for entry in ('create_dataset', 'require_dataset'):
                for chunks in ((32, 32), (64, 65), (100, 32), (100, 100), None):
                    again(C, mods, cls, path, entry, fmt, zarr, zf, base, chunks)
    C.minimum('operations', 100)
    C.minimum('objects created', 20)
    C.assumptions += ['a key that starts with "/" replaces the path it is appended to (std::filesystem::path::operator/)']
    C.finish()


def one(C, mods, cls, path, entry, fmt, zarr, zf, base, name, want, above, tn, tree):
    f = pyabs.Interp.method(pyabs.Interp(mods), cls, entry)
    if f is None:
        C.notes.append('no %s' % entry)
        return
    what = '%s(%r), %s, %s, %s' % (entry.strip('_'), name, fmt, 'below the root' if not base else 'below a group', tn)
    ix = Tx(mods, zarr, zf, base)
    st = PState()
    if base:
        st.fields[('fs', base)] = 'group'
    for p, k in tree.items():
        st.fields[('fs', p)] = k
    o = Inst(cls, 'self')
    kw = {}
    if entry.endswith('_dataset'):
        kw = {'shape': ix.tup(st, [I(64), I(64)]), 'dtype': K('uint8'), 'chunks': ix.tup(st, [I(32), I(32)])}
    before = dict(st.fields)
    try:
        res = ix.run(Fn(f, 'group', None, o, cls), [K(name)], st, kw)
    except Undecided as e:
        C.notes.append('%s: not decided (%s)' % (what, e))
        C.count('undecided operations')
        return
    C.count('operations')
    normal = False
    for s, (oc, v) in res:
        C.count('paths')
        esc = [e for e in s.events if e[0] == 'escape']
        C.oblige(not esc, path, '%s: no key leaves the container' % what, 'the key %s is appended to a path as it is' % [e[1] for e in esc])
        made = [e[1] for e in s.events if e[0] == 'create']
        fmts = [e for e in s.events if e[0] == 'format']
        C.oblige(not fmts, path, '%s: groups get metadata of the container\'s format' % what, 'created with %s' % [e[1] for e in fmts])
        orphan = [p for p in made if any(ix.at(s, p[:i]) != 'group' for i in range(len(p)))]
        C.oblige(not orphan, path, '%s: everything above what is created is a group' % what, 'created below what is no group: %s' % ['/'.join(p) for p in orphan])
        if oc == 'exc':
            continue
        normal = True
        if entry.startswith(('create', 'require')):
            kind = entry.split('_')[1]
            if tn == 'a dataset is in the way':
                C.oblige(False, path, '%s: refused' % what, 'a path returns normally')
                continue
            C.count('objects created', len(made))
            C.oblige(ix.at(s, want) == kind, path, '%s: the object lies under the path given' % what, 'after it, there are %s' % sorted('/'.join(k[1]) for k in s.fields if k[0] == 'fs'))
            extra = [p for p in made if p not in above and p != want]
            C.oblige(not extra, path, '%s: nothing else is created' % what, '%s' % ['/'.join(p) for p in extra])
        elif entry == '__contains__':
            C.oblige(v == K(True), path, '%s: what exists is found' % what, 'the result is %r' % (v,))
        elif entry == 'is_sub_group':
            C.oblige(v == K(tree[want] == 'group'), path, '%s: groups are told from datasets' % what, 'the result is %r' % (v,))
        elif entry == '__delitem__':
            rm = [e[1] for e in s.events if e[0] == 'remove']
            C.oblige(rm == [want], path, '%s: exactly the object named is removed' % what, 'removed: %s' % rm)
        if isinstance(v, Inst):
            h = s.fields.get((id(v), '_handle'))
            C.oblige(h is not None and path_of(h) == want, path, '%s: the object returned stands for the path given' % what, 'it stands for %r' % (h,))
            if v.cls.node.name == 'Group' and (entry != '__getitem__' or tree[want] == 'group'):
                C.oblige(s.fields.get((id(v), '_zarr_format')) == I(zf) and s.fields.get((id(v), '_dimension_separator')) == Sym('separator of the container'), path,
                         '%s: the group returned keeps format and chunk separator of its container' % what, 'they are %r, %r' % (s.fields.get((id(v), '_zarr_format')), s.fields.get((id(v), '_dimension_separator'))))
            if entry == '__getitem__':
                C.oblige((v.cls.node.name == 'Group') == (tree[want] == 'group'), path, '%s: a group is opened as group, a dataset as dataset' % what, 'it is a %s' % v.cls.node.name)
    if tn != 'a dataset is in the way':
        C.oblige(normal, path, '%s: succeeds' % what, 'every path raises')


def again(C, mods, cls, path, entry, fmt, zarr, zf, base, chunks):
    """what was created is accepted when it is required with the same arguments"""
    f = [pyabs.Interp.method(pyabs.Interp(mods), cls, e) for e in (entry, 'require_dataset')]
    if None in f:
        C.notes.append('no %s' % entry)
        return
    what = 'require_dataset after %s, %s, %s, chunks %s' % (entry, fmt, 'below the root' if not base else 'below a group', chunks)
    ix = Tx(mods, zarr, zf, base)
    st = PState()
    if base:
        st.fields[('fs', base)] = 'group'
    o = Inst(cls, 'self')

    def kw():
        d = {'shape': ix.tup(st, [I(64), I(65)]), 'dtype': K('uint8')}
        if chunks:
            d['chunks'] = ix.tup(st, [I(x) for x in chunks])
        return d
    k1, k2 = kw(), kw()
    try:
        for s, (oc, v) in ix.run(Fn(f[0], 'group', None, o, cls), [K('d')], st, k1):
            if oc == 'exc':
                continue
            for s2, (oc2, v2) in ix.run(Fn(f[1], 'group', None, o, cls), [K('d')], s, k2):
                C.count('objects required again')
                C.oblige(oc2 != 'exc', path, '%s: the dataset is returned' % what, '%s is raised' % (v2,))
    except Undecided as e:
        C.notes.append('%s: not decided (%s)' % (what, e))
        C.count('undecided operations')


if __name__ == '__main__':
    main()
