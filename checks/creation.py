"""P19: existing data is only discarded when the mode asks for it."""
import ast
import common, pysrc, pyabs, facts, modes, perm
from common import Check, rel
from graph import Graph, trivial
from absint import Interp as CInterp, subterms, is_c, root_of
from pyabs import I, K, Sym, Fn, Ref, State as PState, NONE, TRUE, FALSE, Undecided, Inst, Cls, Ty

EXISTS = ('exists', 'pathExists')
DISCARD = {'remove', 'remove_all', 'rename', 'resize_file', 'copy', 'copy_file'}


def discards(name):
    leaf = name.rsplit('::', 1)[-1]
    if name.startswith('std::filesystem::') and name.count('::') == 2:
        return leaf in DISCARD
    if name in ('unlink', 'rmdir', 'rename', 'remove', 'truncate', 'ftruncate', 'std::remove', 'std::rename', 'unlinkat'):
        return True
    return name.startswith('Aws::S3::S3Client::') and leaf.startswith('Delete')


# ------------------------------------------------------------------ Python
class Px(pyabs.Interp):
    """file opening in one mode on one initial state of the storage"""
    def __init__(self, mods, mode, exists):
        super().__init__(mods)
        self.mode, self.exists0 = mode, exists

    def field(self, o, a, st):
        return Sym('self.' + a)

    def is_handle(self, o):
        return isinstance(o, Sym) and (o.name.startswith('handle') or o.name == 'self._handle')

    def sym_attr(self, o, a, st):
        if self.is_handle(o) or o.name == 'mode object':
            return [(st, pyabs.Bound(o, a))]
        return super().sym_attr(o, a, st)

    def modestr(self, st, v):
        """the mode a FileMode argument denotes"""
        while isinstance(v, Sym) and v.name.startswith('FileMode('):
            return v.kind
        if isinstance(v, Ty):
            return modes.ENUM.get(v.n.split('.')[-1])
        return None

    def native(self, f, args, kw, st, n):
        name = f.n if isinstance(f, Ty) else f.name if isinstance(f, Sym) else ''
        leaf = name.split('.')[-1]
        if isinstance(f, pyabs.Bound) and self.is_handle(f.o):
            m = st.fields.get(('#', 'mode'))
            if f.n == 'mode':
                return [(st, Sym('mode object'))]
            if f.n == 'exists':
                return [(st, K(st.fields.get(('#', 'exists'), self.exists0)))]
            if f.n in ('remove',):
                s = st.copy()
                s.events.append(('remove',))
                s.fields[('#', 'exists')] = False
                return [(s, NONE)]
            if f.n in ('has', 'in'):
                return None
            return [(st, Sym('handle.%s()' % f.n, None))]
        if isinstance(f, pyabs.Bound) and f.o == Sym('mode object'):
            m = st.fields.get(('#', 'mode'))
            if f.n in modes.PREDS:
                if m is None:
                    raise Undecided('mode of the handle')
                return [(st, K(bool(modes.DOC[m][modes.PREDS[f.n]])))]
            if f.n == 'mode':
                return [(st, Sym('mode text', 'str'))]
            return [(st, Sym('mode.%s' % f.n))]
        if '_z5py' in name and leaf == 'FileMode':
            m = args[0]
            mm = modes.ENUM.get(m.n.split('.')[-1]) if isinstance(m, Ty) else None
            if mm is None:
                raise Undecided('mode of the handle')
            s = st.copy()
            s.fields[('#', 'mode')] = mm
            return [(s, Sym('FileMode(%s)' % mm))]
        if '_z5py' in name and leaf in ('File', 'S3File', 'GcsFile'):
            return [(st, Sym('handle'))]
        if '_z5py' in name and leaf == 'create_file':
            s = st.copy()
            if s.fields.get(('#', 'exists'), self.exists0):
                return self.fail(s, 'ValueError')       # the native function refuses, see the C++ part
            s.events.append(('create',))
            s.fields[('#', 'exists')] = True
            return [(s, NONE)]
        if name in ('shutil.rmtree', 'os.remove', 'os.unlink', 'os.rmdir', 'os.rename', 'os.replace'):
            s = st.copy()
            s.events.append(('remove',))
            s.fields[('#', 'exists')] = False
            return [(s, NONE)]
        if name in ('os.mkdir', 'os.makedirs'):
            s = st.copy()
            s.events.append(('create',))
            s.fields[('#', 'exists')] = True
            return [(s, NONE)]
        if name in ('os.path.splitext', 'os.path.split'):
            return [(st, self.tup(st, [Sym('%s(..)[0]' % name, 'str'), Sym('%s(..)[1]' % name, 'str')]))]
        if name == 'hasattr':
            return [(st, TRUE)]
        if name.startswith(('os.', 'json.', 'errno')):
            return [(st, Sym('%s(%s)' % (name, ', '.join(map(repr, args)))))]
        return None

    def e_Call(self, n, st, fr):
        # super().__init__(...) of the file classes only stores the handle
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            cls = fr.cls
            base = None
            for b in cls.node.bases:
                x = self.glob(cls.mod, b.id, st) if isinstance(b, ast.Name) else None
                if isinstance(x, Cls):
                    base = x
            m = self.method(base, n.func.attr) if base is not None else None
            if m is not None:
                me = self.name('self', st, fr)
                out = []
                for s, args in self.evs(n.args, st, fr):
                    if s.exc:
                        out.append((s, None))
                        continue
                    for s2, kvs in self.evs([k.value for k in n.keywords], s, fr):
                        if s2.exc:
                            out.append((s2, None))
                            continue
                        out.extend(self.call_fn(Fn(m, base.mod, None, me, base), args, {k.arg: v for k, v in zip(n.keywords, kvs)}, s2))
                return out
        return super().e_Call(n, st, fr)


def python_files(C, mods):
    file_classes = []
    for m, (path, tree) in mods.items():
        for n in tree.body:
            if isinstance(n, ast.ClassDef) and any(isinstance(b, ast.FunctionDef) and b.name == '__init__' and any(a.arg == 'mode' for a in b.args.args) for b in n.body):
                file_classes.append((m, path, n))
    for m, path, node in file_classes:
        init = [b for b in node.body if isinstance(b, ast.FunctionDef) and b.name == '__init__'][0]
        where = '%s:%s.__init__' % (rel(path), node.name)
        for ms, mode in sorted(modes.PY.items()):
            for exists in (True, False):
                what = 'mode %r, %s' % (ms, 'something exists' if exists else 'nothing exists')
                ix = Px(mods, mode, exists)
                cls = Cls(node, m)
                o = Inst(cls, 'self')
                st = PState()
                kw = {'mode': K(ms)}
                args = []
                for a in init.args.args[1:]:
                    if a.arg in ('path', 'bucket_name', 'name_in_bucket'):
                        kw[a.arg] = Sym(a.arg, 'str')
                    elif a.arg in ('zarr_format',):
                        kw[a.arg] = I(2)
                try:
                    res = ix.run(Fn(init, m, None, o, cls), args, st, kw)
                except Undecided as e:
                    C.notes.append('%s, %s: not decided (%s)' % (where, what, e))
                    C.count('undecided openings')
                    continue
                C.count('openings (class, mode, state)')
                w, c, ex, tr = modes.DOC[mode]
                normal = 0
                for s, (oc, v) in res:
                    C.count('paths')
                    ev = [e[0] for e in s.events if e[0] in ('remove', 'create')]
                    if not tr:
                        C.oblige('remove' not in ev, where, '%s: nothing is removed' % what, 'a path removes the existing container')
                    if not c:
                        C.oblige('create' not in ev, where, '%s: nothing is created' % what, 'a path creates the container')
                    if oc == 'exc':
                        continue
                    normal += 1
                    if exists:
                        C.oblige(not ex, where, '%s: opening raises' % what, 'a path opens the existing container')
                        if tr:
                            C.oblige(ev[:1] == ['remove'] and ev[-1:] == ['create'], where, '%s: the old content is removed and a new container created' % what, 'on a path: %s' % (ev or 'nothing'))
                        else:
                            C.oblige('create' not in ev, where, '%s: the existing container is kept' % what, 'on a path: %s' % ev)
                    else:
                        C.oblige(c, where, '%s: opening raises' % what, 'a path opens a container that does not exist')
                        if c:
                            C.oblige('create' in ev, where, '%s: the container is created' % what, 'a path creates nothing')
                if exists and not ex or not exists and c:
                    if node.name in ('File', 'S3File'):
                        C.oblige(normal, where, '%s: the container can be opened' % what, 'every path raises')


class Gx(pyabs.Interp):
    """creation of groups and datasets below a container; `has` is whether the name is taken"""
    def __init__(self, mods, has):
        super().__init__(mods)
        self.hasv = has

    def field(self, o, a, st):
        if a == '_zarr_format':
            return I(2)
        return Sym('self.' + a)

    def native(self, f, args, kw, st, n):
        name = f.n if isinstance(f, Ty) else f.name if isinstance(f, Sym) else ''
        leaf = name.split('.')[-1]
        if isinstance(f, Sym) and leaf in ('has', 'in', 'in_'):
            return [(st, K(self.hasv))]
        if isinstance(f, Sym) and '(' in name.split('.')[-1]:
            return None
        ev = None
        if leaf.startswith(('remove', 'delete', 'rmtree', 'unlink')) and not isinstance(f, Fn) and name != 'list.remove':
            ev = 'remove'
        elif leaf.startswith(('write_subarray', 'write_scalar', 'write_chunk', 'write_attributes', 'set_attribute')) and not isinstance(f, Fn):
            ev = 'write'
        elif leaf in ('create_dataset', 'create_group') and not isinstance(f, Fn) and '_z5py' in name:
            if self.hasv:
                return self.fail(st, 'ValueError')      # refused by the native function, see the C++ part
            ev = 'create'
        if ev:
            s = st.copy()
            s.events.append((ev, name))
            return [(s, Sym('result of %s' % leaf))]
        if name == 'json.dumps':
            return [(st, args[0])]
        return None

    def getitem(self, o, k, st):
        if isinstance(o, (Ty, Sym)) and 'AVAILABLE_COMPRESSORS' in (o.n if isinstance(o, Ty) else o.name):
            return [(st, TRUE)]
        return super().getitem(o, k, st)

    def setitem(self, o, k, v, st):
        if isinstance(o, Inst):
            s = st.copy()
            s.events.append(('write', '%s[...]' % o.name))
            return [s]
        return super().setitem(o, k, v, st)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, Inst):
            f = self.method(b.cls, '__contains__')
            if f is not None:
                out = []
                for s, v in self.call_fn(Fn(f, b.cls.mod, None, b, b.cls), [a], {}, st):
                    if s.exc:
                        out.append((s, None))
                    else:
                        out.extend((s2, q != isinstance(op, ast.NotIn)) for s2, q in self.truth(v, s))
                return out
        return super().compare(op, a, b, st)


def python_groups(C, mods):
    grp = [n for n in mods['group'][1].body if isinstance(n, ast.ClassDef) and n.name == 'Group'][0]
    cls = Cls(grp, 'group')
    path = rel(mods['group'][0])
    for entry in ('create_group', 'require_group', 'create_dataset', 'require_dataset', '__getitem__'):
        f = pyabs.Interp.method(pyabs.Interp(mods), cls, entry)
        if f is None:
            C.notes.append('no %s' % entry)
            continue
        for has in (True, False):
            for data in ((False, True) if entry.endswith('dataset') else (False,)):
                what = '%s, %s%s' % (entry, 'the name is taken' if has else 'the name is free', ', data given' if data else '')
                ix = Gx(mods, has)
                st = PState()
                o = Inst(cls, 'self')
                kw = {}
                if entry.endswith('dataset'):
                    kw = {'shape': ix.tup(st, [I(64), I(64)]), 'dtype': K('uint8'), 'chunks': ix.tup(st, [I(32), I(32)])}
                    if data:
                        kw['data'] = pyabs.Arr([I(64), I(64)], 'data')
                try:
                    res = ix.run(Fn(f, 'group', None, o, cls), [K('d')], st, kw)
                except Undecided as e:
                    C.notes.append('%s: not decided (%s)' % (what, e))
                    C.count('undecided openings')
                    continue
                C.count('group operations')
                for s, (oc, v) in res:
                    C.count('paths')
                    ev = [e for e in s.events if e[0] in ('remove', 'write', 'create')]
                    C.oblige(not [e for e in ev if e[0] == 'remove'], path, '%s: nothing is removed' % what, '%s' % ev)
                    if has:
                        C.oblige(not ev, path, '%s: what exists is not written to' % what, '%s' % ev)
                    if has and entry.startswith('create') and oc != 'exc':
                        C.oblige(False, path, '%s: the creation is refused' % what, 'a path returns normally')


# ------------------------------------------------------------------ C++
class CreateInterp(CInterp):
    CAP = 32
    MAXDEPTH = 14

    def __init__(self, u, chk, relevant, entry, kind):
        super().__init__(u)
        self.chk, self.relevant, self.entry, self.kind = chk, relevant, entry, kind
        self.hits = 0

    def inline_ok(self, fn):
        return fn['fid'] in self.relevant

    def on_call(self, st, name, call, obj, args, fn):
        if not self.report_ok():
            return
        w = perm.opens_for_writing(name, call)
        if not (perm.primitive(name) or w):
            return
        self.hits += 1
        self.chk.count('mutating calls reached')
        where = self.where(call)
        src = '%s (%s:%d)' % (self.entry['qn'], rel(self.entry['file']), self.entry['l'])
        if self.kind == 'open':
            self.chk.oblige(False, where, 'opening does not change storage: %s is not reached from %s' % (name, self.entry['qn']), 'reached from ' + src)
            return
        if discards(name):
            self.chk.oblige(truncating(st), where, 'creating does not discard what exists: %s is not reached from %s' % (name, self.entry['qn']), 'reached from ' + src)
            return
        self.chk.oblige(absent(st), where, '%s is reached from %s only when nothing exists there' % (name, self.entry['qn']),
                        'a path from %s to this call never establishes that the target does not exist' % src)


def absent(st):
    for f, p in st.facts.items():
        g, q = (f[1], not p) if f[0] == 'not' else (f, p)
        if not q and isinstance(g, tuple) and any(isinstance(t, tuple) and t and t[0] == 'call' and str(t[1]).rsplit('::', 1)[-1] in EXISTS for t in subterms(g)):
            return True
        # a listing of objects below the prefix that came back empty
        if q and g[0] == '==' and any(isinstance(t, tuple) and t and t[0] == 'call' and 'KeyCount' in str(t[1]) for t in subterms(g)) and any(is_c(x) and x[1] == 0 for x in g[1:]):
            return True
        if not q and any(isinstance(t, tuple) and t and t[0] == 'call' and 'KeyCount' in str(t[1]) for t in subterms(g)):
            return True
    return False


def truncating(st):
    return any(p and any(isinstance(t, tuple) and t and t[0] == 'call' and str(t[1]).endswith('shouldTruncate') for t in subterms(f)) for f, p in st.facts.items())


def cxx(C, units):
    for un in ('core', 'core_s3'):
        u = units[un]
        g = Graph(u, virtual=False)
        direct = set()
        for fid, f in u.funcs.items():
            for root in ([f.get('body')] + [i.get('e') for i in f.get('inits') or []]):
                if root is None:
                    continue
                if any(n['k'] in ('call', 'ctor') and n.get('fn') and (perm.primitive(n['fn']) or perm.opens_for_writing(n['fn'], n)) for n in facts.walk(root)):
                    direct.add(fid)
                    break
        reach = g.reaching(lambda x: x in direct)
        relevant = {x for x in reach if not perm.big(u.funcs[x])} | perm.ctors(u)
        # functions that only raise depending on an existence test
        relevant |= {x for x, f in u.funcs.items() if f.get('body') and f['file'].startswith(facts.REPO) and f['n'] not in EXISTS and trivial(f, 40) and
                     any(n['k'] == 'call' and str(n.get('fn') or '').rsplit('::', 1)[-1] in EXISTS for n in facts.walk(f['body'])) and
                     any(n['k'] == 'throw' for n in facts.walk(f['body']))}
        for fid, f in sorted(u.funcs.items()):
            if not f.get('body') or f.get('lambda') or not f['file'].startswith(facts.REPO + '/include') or '(' in f['qn']:
                continue
            if f['n'].startswith('create') and not f.get('cls') and f['n'] != 'createDatasetMetadata' and fid in reach and any(perm.handle_like(u, u.ty(p['t'])) for p in f['params']):
                kind = 'create'
            elif (f['n'].startswith('open') and not f.get('cls')) or (f.get('ctor') and f.get('cls') and (u.derives(f['cls'], 'z5::handle::Handle'))):
                kind = 'open'
                C.count('opening functions')
                if fid not in reach:
                    C.discharge('%s:%d' % (rel(f['file']), f['l']), 'opening does not change storage: %s' % f['qn'])
                    continue
            else:
                continue
            if kind == 'create':
                C.count('creating functions')
            it = CreateInterp(u, C, relevant, f, kind)
            it.run(f)


def main():
    C = Check('P19', 'mode table; abstract interpretation of the Python opening code for every mode and storage state; path-sensitive interpretation of the creating functions: '
                     'a storage change is reached only where an existence test has failed, opening reaches none')
    units = facts.load(['core', 'core_s3', 'py_util'])
    perm.find_modefield(units['core'])
    vals = modes.check(C, units, perm.MODEFIELD[0], perm.evalmode, which=(0, 1, 2, 3))
    mods = pysrc.modules()
    python_files(C, mods)
    python_groups(C, mods)
    cxx(C, units)
    C.minimum('openings (class, mode, state)', 20)
    C.minimum('creating functions', 6)
    C.minimum('mutating calls reached', 6)
    C.assumptions += ['nothing else changes the storage between the existence test and the creation (see not_applicable P33)']
    C.finish()


if __name__ == '__main__':
    main()
