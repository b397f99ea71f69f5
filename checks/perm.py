"""P01: storage is never modified through a handle without permission."""
from common import Check, facts, rel
from graph import Graph, trivial
from absint import *
import modes

FS = {'remove', 'remove_all', 'create_directory', 'create_directories', 'rename', 'copy', 'copy_file', 'resize_file',
      'create_symlink', 'create_hard_link', 'create_directory_symlink', 'permissions', 'last_write_time'}
C_IO = {'fopen', 'open', 'creat', 'unlink', 'mkdir', 'rmdir', 'rename', 'remove', 'truncate', 'ftruncate', 'std::remove', 'std::rename', 'std::fopen', 'openat', 'unlinkat'}
S3 = {'PutObject', 'DeleteObject', 'DeleteObjects', 'CopyObject', 'CreateBucket', 'DeleteBucket', 'CreateMultipartUpload', 'UploadPart'}


def primitive(name):
    """is this a call that changes storage?"""
    if name.startswith('std::filesystem::') and name.count('::') == 2 and name.rsplit('::', 1)[-1] in FS:
        return True
    if name in C_IO:
        return True
    if name.startswith('Aws::S3::S3Client::') and name.rsplit('::', 1)[-1] in S3:
        return True
    return False


def opens_for_writing(name, n):
    """construction (with a path) or open of an output stream"""
    if name in ('std::basic_ofstream::basic_ofstream', 'std::basic_ofstream::open'):
        return bool(n['a'])
    if name in ('std::basic_fstream::basic_fstream', 'std::basic_fstream::open'):
        return bool(n['a'])
    return False


MODES = {0: 'r', 1: 'r+', 11: 'w', 7: 'w-', 3: 'a'}


def evalmode(t, m, v):
    """value of term t when the mode term m has value v; None when it depends on anything else"""
    if t == m:
        return v
    if is_c(t):
        return int(t[1]) if isinstance(t[1], (bool, int)) else None
    if t[0] == 'not':
        x = evalmode(t[1], m, v)
        return None if x is None else int(not x)
    if t[0] in ('==', '<', 'and', 'or'):
        a, b = evalmode(t[1], m, v), evalmode(t[2], m, v)
        if t[0] == 'and':
            if a == 0 or b == 0:
                return 0
            return None if a is None or b is None else 1
        if t[0] == 'or':
            if a or b:
                return 1
            return None if a is None or b is None else 0
        if a is None or b is None:
            return None
        return int(a == b) if t[0] == '==' else int(a < b)
    if t[0] == 'op' and len(t) == 4:
        a, b = evalmode(t[2], m, v), evalmode(t[3], m, v)
        if t[1] == '&' and (a == 0 or b == 0):
            return 0
        if a is None or b is None:
            return None
        try:
            return {'&': a & b, '|': a | b, '^': a ^ b, '+': a + b, '-': a - b, '>>': a >> b if 0 <= b < 64 else 0, '<<': a << b if 0 <= b < 64 else 0}.get(t[1])
        except TypeError:
            return None
    if t[0] == 'bool':
        x = evalmode(t[1], m, v)
        return None if x is None else int(bool(x))
    return None


def mode_terms(st):
    out = set()
    for f in st.facts:
        for t in subterms(f):
            if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[2] == MODEFIELD[0]:
                out.add(t)
    return out


MODEFIELD = ['mode_', 'mode_']      # of the mode class, of the handle class


def excluded(st, bad):
    """some mode term of the path cannot have any of the bad values"""
    for m in mode_terms(st):
        ok = True
        for v in bad:
            if not any((evalmode(f, m, v) is not None) and bool(evalmode(f, m, v)) != p for f, p in st.facts.items()):
                ok = False
        if ok:
            return True
    return False


class PermInterp(Interp):
    CAP = 32
    MAXDEPTH = 14

    def __init__(self, unit, chk, relevant, bad, entry):
        super().__init__(unit)
        self.chk, self.relevant, self.bad, self.entry = chk, relevant, bad, entry
        self.hits = 0

    def inline_ok(self, fn):
        return fn['fid'] in self.relevant

    def on_call(self, st, name, call, obj, args, fn):
        self.prim(st, name, call)

    def prim(self, st, name, call):
        if not self.report_ok():
            return
        if primitive(name) or opens_for_writing(name, call):
            self.hits += 1
            self.chk.count('mutating calls reached')
            w = self.where(call)
            what = '%s is reached from %s only with permission' % (name, self.entry['qn'])
            self.chk.oblige(excluded(st, self.bad), w, what,
                            'a path from %s (%s:%d) to this call never establishes that the open mode is not %s' %
                            (self.entry['qn'], rel(self.entry['file']), self.entry['l'], ' or '.join(MODES[b] for b in self.bad)))


def entries(u, g, reach):
    """public entry points of this unit that can reach a mutating call"""
    for fid in sorted(reach):
        f = u.funcs[fid]
        if f.get('body') is None or f.get('lambda') or not f['file'].startswith(facts.REPO + '/'):
            continue
        ns = f['qn'].rsplit('::', 1)[0]
        if '(' in ns:
            continue
        if f.get('cls'):
            if f.get('acc', 0) != 0 or f.get('ctor') or f['n'].startswith('~'):
                continue
            if u.derives(f['cls'], 'z5::Dataset') or u.derives(f['cls'], 'z5::handle::Handle'):
                yield f
        elif ns in ('z5', 'z5::multiarray', 'z5::util'):
            if '/include/z5/' in f['file']:
                yield f
        elif '/src/python/lib/' in f['file']:
            yield f


def py_lambdas(u, reach):
    for fid in sorted(reach):
        f = u.funcs[fid]
        if f.get('lambda') and '/src/python/lib/' in f['file'] and f.get('body') is not None:
            yield f


def find_modefield(u):
    r = u.rec.get('z5::FileMode')
    if r:
        ens = [x['n'] for x in r['fields'] if not x.get('static')]
        if ens:
            MODEFIELD[0] = ens[0]
    r = u.rec.get('z5::handle::Handle')
    if r:
        ms = [x['n'] for x in r['fields'] if 'FileMode' in u.ty(x['t'])]
        if ms:
            MODEFIELD[1] = ms[0]


def bad_modes(u, f):
    cls = f.get('pcls', '')
    if f['n'] == 'createFile' or (f['n'] == 'create' and cls.endswith('::handle::File')):
        return (RO['r'], RO['rp'])       # a new file needs the right to create
    return (RO['r'],)


def handle_like(u, t):
    t = t.replace('const ', '').rstrip(' &*')
    return u.derives(t, 'z5::handle::Handle') or u.derives(t, 'z5::Dataset') or t.startswith('z5::handle::')


RO = {}


def propagation(chk, u):
    """a handle made from another handle, or from a mode, has exactly that mode"""
    for f in u.funcs.values():
        if not (f.get('ctor') and f.get('cls') and u.derives(f['cls'], 'z5::handle::Handle')) or f.get('implicit') or '/include/z5/' not in f['file']:
            continue
        if f.get('inits') is None and f.get('body') is None:
            continue
        src = None
        for i, p in enumerate(f['params']):
            t = u.ty(p['t']).replace('const ', '').rstrip(' &')
            l = ('par', p['n'] or str(i), i)
            if t == 'z5::FileMode':
                src = l
            elif t == 'z5::FileMode::modes':
                src = l
            elif u.derives(t, 'z5::handle::Handle'):
                src = ('f', l, '@mode')
        if src is None:
            continue
        it = PropInterp(u)
        r = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        chk.count('handle constructors')
        for st, _ in r['ret']:
            got = mode_of(it, st, ('this',))
            ok = got is not None and (got == src or (src[0] == 'f' and root_of(got) == src[1]) or root_of(got) == src)
            chk.oblige(ok, where, '%s gives the new handle the mode of %s' % (f['qn'], 'the handle it is made from' if src[0] == 'f' else 'its argument'), 'its mode is %r' % (got,))


def mode_of(it, st, this):
    for k in st.store:
        if isinstance(k, tuple) and k[0] == 'f' and k[2] == MODEFIELD[1]:
            return it.rd(st, k)
    return None


class PropInterp(Interp):
    def inline_ok(self, fn):
        return (fn.get('ctor') and self.u.derives(fn.get('cls') or '', 'z5::handle::Handle')) or 'FileMode' in self.u.ty(fn.get('rt', -1))

    def model(self, st, name, n, obj, vs):
        if name == 'z5::FileMode::FileMode' and n.get('cm') is None and len(vs) == 1 and n['k'] == 'ctor':
            return None
        return None


def main():
    chk = Check('P01', 'every call that changes storage is dominated, on every path from every public entry point, by a test that excludes the read-only mode '
                       '(path-sensitive abstract interpretation with helper inlining; the recorded branch conditions are evaluated for each open mode)')
    units = facts.load(['core', 'core_s3', 'py_attributes', 'py_dataset', 'py_factory', 'py_handles', 'py_util'] +
                       ['pys3_attributes', 'pys3_factory', 'pys3_handles'])
    find_modefield(units['core'])
    vals = modes.check(chk, units, MODEFIELD[0], evalmode, which=(0, 1))
    MODES.clear()
    MODES.update({v: k for k, v in vals.items()})
    RO.update(r=vals['r'], rp=vals['r+'])
    for un, u in units.items():
        propagation(chk, u)
        g = Graph(u, virtual=False)
        direct = set()
        for fid, f in u.funcs.items():
            for root in ([f.get('body')] + [i.get('e') for i in f.get('inits') or []]):
                if root is None:
                    continue
                for n in facts.walk(root):
                    if n['k'] in ('call', 'ctor') and n.get('fn') and (primitive(n['fn']) or opens_for_writing(n['fn'], n)):
                        direct.add(fid)
                        break
        reach = g.reaching(lambda x: x in direct)
        modal = g.reaching(lambda x: u.funcs[x].get('pcls') == 'z5::FileMode')
        relevant = reach | {x for x in modal if not big(u.funcs[x])} | accessors(u) | ctors(u)
        todo = list(entries(u, g, reach))
        if un.startswith('py'):
            # the bindings: only what they add themselves is new, the library functions are covered by 'core'
            todo = [f for f in todo if '/src/python/lib/' in f['file']] + \
                   [f for f in py_lambdas(u, reach)]
        for f in todo:
            if not any(handle_like(u, u.ty(p['t'])) for p in f['params']) and not f.get('cls') and not f.get('lambda'):
                continue
            it = PermInterp(u, chk, relevant, bad_modes(u, f), f)
            it.run(f)
            chk.count('entry points analysed')
            if it.hits:
                chk.count('entry points that reach a mutating call')
            chk.count('paths', it.stats['paths'])
    chk.minimum('entry points that reach a mutating call', 25)
    chk.minimum('mutating calls reached', 60)
    chk.assumptions += ['the backend and detail namespaces below the public ones are not called directly by users',
                        'the GCS backend contains no implementation and is not compiled']
    chk.finish()


def accessors(u):
    """small functions that hand out a mode or a handle"""
    out = set()
    for x, f in u.funcs.items():
        rt = u.ty(f.get('rt', -1))
        if ('FileMode' in rt or 'z5::' in rt and 'handle::' in rt) and trivial(f):
            out.add(x)
    return out


def big(f):
    return f['le'] - f['l'] > 60


def ctors(u):
    """constructors of handles (they carry the mode)"""
    return {x for x, f in u.funcs.items() if f.get('ctor') and f.get('cls') and (u.derives(f['cls'], 'z5::handle::Handle') or f.get('pcls') == 'z5::FileMode')}


if __name__ == '__main__':
    main()
