"""P20: no Python object is touched while the interpreter lock is released, and native work that can take long releases it.

Regions that run without the lock: functions bound with a releasing call guard, whatever follows a releasing guard object in
its scope, tasks of worker threads, and everything these call. They are walked statement by statement with the state of the
lock; functions are visited once per state they are called in."""
import re
import facts
from facts import walk
from common import Check
from graph import Graph
import ioerrors

UNITS = ['py_attributes', 'py_dataset', 'py_factory', 'py_handles', 'py_util', 'py_z5py',
         'pys3_attributes', 'pys3_dataset', 'pys3_factory', 'pys3_handles', 'pys3_util', 'pys3_z5py']
RELEASE, ACQUIRE = 'nanobind::gil_scoped_release', 'nanobind::gil_scoped_acquire'
# plain C++ exceptions, annotations and views that own no reference of their own
PLAIN = re.compile(r'^nanobind::(gil_scoped_\w+|builtin_exception|\w*_error|stop_iteration|next_overload|call_guard|arg\w*|handle|'
                   r'init|ndarray|ndarray_view|numpy|c_contig|f_contig|device|dlpack|shape|ndim|ro|any_contig|'
                   r'detail::(dtype_\w+|ndarray_\w+|shape_\w+))\b')
ERRORS_TOUCHING = re.compile(r'^nanobind::python_error')
VIEWS = re.compile(r'^nanobind::(ndarray|ndarray_view)::(data|shape|stride|stride_ptr|shape_ptr|ndim|size|nbytes|itemsize|is_valid|'
                   r'operator\(\)|view|device_type|device_id|dtype|ndarray|~ndarray|operator=|operator bool)$')
OBJ = re.compile(r'\bnanobind::(?!gil_scoped|ndarray\b|handle\b|detail::|arg|call_guard|init\b|numpy\b|c_contig|f_contig|device\b)(\w+)')
HOLD = re.compile(r'\b(PyObject|_object)\b')
RUNNERS = re.compile(r'(^|::)(parallel_foreach\w*|enqueue\w*|async)$|^std::(thread|jthread)(::|$)')
PATHS_ONLY = {'relative', 'absolute', 'canonical', 'weakly_canonical', 'current_path', 'proximate', 'u8path', 'hash_value', 'swap',
              'temp_directory_path', 'operator==', 'operator!=', 'operator/', 'operator<<', 'operator>>'}


def bare(t):
    return re.sub(r'^(const )+', '', t or '').replace('&', '').replace('*', '').strip()


def by_value(t):
    return not (t or '').rstrip().endswith(('&', '*'))


def is_object(t):
    """a type that owns references to Python objects"""
    t = t or ''
    if re.search(r'\bnanobind::ndarray\b', t) and not re.match(r'^(const )?nanobind::(?!ndarray)', t):
        t = re.sub(r'nanobind::ndarray<.*', '', t)
    elif re.match(r'^(const )?nanobind::ndarray\b', t):
        return False
    m = OBJ.search(t)
    return bool(m) and not m.group(1).endswith('_error') and m.group(1) not in ('builtin_exception', 'module_def', 'scope_guard')


def touches(n):
    """what a call or construction does to Python, or None"""
    fn = n.get('fn') or ''
    if re.match(r'^_?Py[A-Z_]', fn):
        return 'calls %s' % fn
    if not fn.startswith('nanobind::'):
        return None
    if VIEWS.match(fn):
        return None
    if ERRORS_TOUCHING.match(fn):
        return 'uses %s' % fn
    if n['k'] == 'ctor' and PLAIN.match(fn):
        return None
    if fn.startswith((RELEASE, ACQUIRE)):
        return None
    if PLAIN.match(fn) and re.search(r'_error::|builtin_exception::|::handle::(ptr|handle|is_valid)$', fn):
        return None
    return 'calls %s' % fn


SLOW = set()           # virtual functions with an implementation that accesses the storage: (class, name)


def basename(u, base, r):
    return u.mclass.get(base, '?'), u.funcs[r]['n'].split('<')[0]


def long_running(u, n):
    fn = n.get('fn') or ''
    if n['k'] == 'call' and n.get('virt') and n.get('fid') is not None and (u.mclass.get(n['fid']), fn.split('::')[-1]) in SLOW:
        return True
    if n['k'] not in ('call', 'ctor'):
        return False
    if fn.startswith('std::filesystem::') and fn.count('::') == 2:
        return fn.split('::')[-1] not in PATHS_ONLY
    if re.match(r'^std::filesystem::(recursive_)?directory_iterator::', fn):
        return True
    if re.match(r'^Aws::S3::S3Client::(?!S3Client|~)', fn):
        return True
    if re.match(r'^std::(basic_[io]?fstream)::', fn):
        return True
    return bool(RUNNERS.search(fn)) or (n['k'] in ('call', 'ctor') and ioerrors.primitive(u, n))


class Walk:
    def __init__(self, C, u, G, longs):
        self.C, self.u, self.G, self.longs = C, u, G, longs
        self.seen = set()
        self.work = []
        self.held_long = []

    def run(self, fid, released, root, why):
        self.work.append((fid, released, root, why))
        while self.work:
            fid, rel, root, why = self.work.pop()
            if (fid, rel, root if not rel else '') in self.seen:
                continue
            self.seen.add((fid, rel, root if not rel else ''))
            f = self.u.funcs.get(fid)
            if not f or f.get('body') is None:
                continue
            self.C.count('functions walked without the lock' if rel else 'functions walked with the lock')
            self.f, self.root, self.why = f, root, why
            for i in f.get('inits') or []:
                self.node(i.get('e') if isinstance(i, dict) else i, rel)
            self.node(f['body'], rel)

    def report(self, n, what):
        self.C.violate(facts.loc(self.f, n), '%s %s while the interpreter lock is released' % (self.f['qn'], what), 'released by: %s' % self.why)

    def seq(self, items, rel):
        for x in items or []:
            rel = self.node(x, rel)

    def node(self, n, rel):
        """walks n; returns the state of the lock for what follows in the same scope"""
        if n is None:
            return rel
        if isinstance(n, list):
            for x in n:
                rel = self.node(x, rel)
            return rel
        if not isinstance(n, dict):
            return rel
        if 'k' not in n:
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.node(v, rel)
            return rel
        k = n['k']
        if k == 'seq':
            self.seq(n.get('b'), rel)
            return rel
        if k == 'decl':
            for v in n['v']:
                t = bare(self.u.ty(v['t'])) if isinstance(v.get('t'), int) else ''
                if t == RELEASE:
                    if rel:
                        self.report(n, 'releases the lock a second time')
                    self.C.count('released scopes')
                    rel = True
                    continue
                if t == ACQUIRE:
                    rel = False
                    continue
                if RELEASE in t or ACQUIRE in t:
                    self.C.notes.append('%s: guard held in %s is not followed' % (facts.loc(self.f, n), t))
                if rel and by_value(self.u.ty(v['t'])) and (is_object(t)):
                    self.report(n, 'has a Python object (%s)' % v.get('n'))
                self.node(v.get('init'), rel)
            return rel
        if k in ('call', 'ctor'):
            fn = n.get('fn') or ''
            if rel:
                t = touches(n)
                self.C.count('calls without the lock')
                if t:
                    self.report(n, t)
                elif k == 'call' and isinstance(n.get('t'), int) and by_value(self.u.ty(n['t'])) and is_object(bare(self.u.ty(n['t']))):
                    self.report(n, 'receives a Python object from %s' % fn)
            elif long_running(self.u, n) or n.get('fid') in self.longs and not self.enter(n):
                self.held_long.append((self.f, n, self.root))
            runner = RUNNERS.search(fn)
            for x in [n.get('o')] + (n.get('a') or []):
                y = x
                while isinstance(y, dict) and y.get('k') in ('cast', 'ctor') and not y.get('fids') and (y.get('e') or len(y.get('a') or []) == 1):
                    y = y.get('e') or y['a'][0]
                if isinstance(y, dict) and y.get('k') == 'lambda' and runner:
                    for g in y['fids']:
                        self.work.append((g, True, self.root, 'runs in a worker thread'))
                    continue
                self.node(x, rel)
            t = n.get('fid')
            if t is not None:
                for g in {t} | (self.u.over.get(t, set()) if n.get('virt') and not n.get('nonvirt') else set()):
                    if g in self.u.funcs:
                        self.work.append((g, rel, self.root, self.why))
            return rel
        if k == 'lambda':
            if rel:
                for g in n['fids']:
                    self.work.append((g, True, self.root, self.why))
            else:
                for g in n['fids']:
                    self.work.append((g, False, self.root, self.why))
            for c in n.get('caps') or []:
                self.node(c, rel)
            return rel
        if k == 'ret' and rel:
            pass
        for key, v in n.items():
            if isinstance(v, (dict, list)):
                if k in ('if', 'for', 'while', 'do', 'rfor', 'switch', 'case', 'default', 'try'):
                    self.node(v, rel)
                else:
                    self.node(v, rel)
        return rel

    def enter(self, n):
        """the callee is walked itself (with the lock), what is long in it is reported there"""
        t = n.get('fid')
        return t in self.u.funcs


def binding(n):
    fn = n.get('fn') or ''
    return n['k'] == 'call' and fn.startswith('nanobind::') and re.match(r'^def(_\w+)?$', fn.split('::')[-1])


def bodies(n):
    """functions bound by a call of def*"""
    for a in n.get('a') or []:
        st = [a]
        while st:
            x = st.pop()
            if not isinstance(x, dict):
                continue
            if x.get('k') == 'lambda':
                for g in x['fids']:
                    yield g, 'lambda'
                continue
            if x.get('k') in ('ref', 'mem') and x.get('fid') is not None and x.get('fn'):
                yield x['fid'], x['fn']
                continue
            if x.get('k') in ('cast', 'un'):
                st.append(x.get('e'))
            elif x.get('k') == 'ctor' and not (x.get('fn') or '').startswith('nanobind::arg'):
                st += x.get('a') or []


def main():
    C = Check('P20', 'regions that run without the interpreter lock (guarded bindings, released scopes, worker tasks, and all they call) are walked with the state of '
                     'the lock: no call into Python, no Python object made, copied, received or destroyed; storage accesses and parallel work reached from a binding '
                     'are reached with the lock released')
    us = facts.load(UNITS)
    graphs = {}
    for name, u in us.items():
        G = Graph(u)
        longs = G.reaching(lambda x: any(long_running(u, n) for n in walk(u.funcs[x].get('body')) if n['k'] in ('call', 'ctor')))
        graphs[name] = G, longs
        # virtual functions of interfaces: long if an implementation is, wherever it is seen
        for base, ov in u.over.items():
            for r in ov & longs:
                SLOW.add(basename(u, base, r))
    for name, u in us.items():
        G, longs = graphs[name]
        W = Walk(C, u, G, longs)
        for fid, f in list(u.funcs.items()):
            if 'src/python' not in (f.get('file') or ''):
                continue
            for n in walk(f.get('body')):
                if not binding(n):
                    continue
                what = next((a.get('v') for a in n.get('a') or [] if isinstance(a, dict) and a.get('k') == 'str'), None) or \
                    next((b for _, b in bodies(n)), '?')
                guarded = any(RELEASE in str(t) for t in n.get('ta') or []) or any('call_guard' in str(t) and RELEASE in str(t) for t in n.get('ta') or [])
                for g, _ in bodies(n):
                    targets = {g} | u.over.get(g, set())
                    for t in targets:
                        b = u.funcs.get(t)
                        if b is None:
                            continue
                        C.count('bound functions')
                        where = facts.loc(f, n)
                        before = len(C.viol)
                        if guarded:
                            C.count('bindings that release the lock')
                            for p in b.get('params') or []:
                                ty = u.ty(p['t'])
                                if by_value(ty) and is_object(bare(ty)):
                                    C.violate(where, 'parameter %s of %s (%s) is a Python object destroyed while the lock is released' % (p['n'], what, b['qn']))
                            rt = u.ty(b['rt']) if isinstance(b['rt'], int) else (b['rt'] or '')
                            if by_value(rt) and is_object(bare(rt)):
                                C.violate(where, '%s (%s) makes the Python object it returns while the lock is released' % (what, b['qn']))
                            W.run(t, True, what, 'call guard of %s' % what)
                        else:
                            W.held_long = []
                            W.run(t, False, what + '@%d' % t, what)
                            for hf, hn, root in W.held_long:
                                C.violate(facts.loc(hf, hn), '%s: %s is reached with the interpreter lock held' % (what, hn.get('fn')), 'binding at %s' % where)
                        if len(C.viol) == before:
                            C.discharge(where, '%s: %s' % (what, 'nothing of Python is touched' if guarded else 'no storage access or parallel work with the lock held'))
    C.minimum('bound functions', 90)
    C.minimum('bindings that release the lock', 45)
    C.minimum('released scopes', 2)
    C.minimum('calls without the lock', 10000)
    C.assumptions += ['nanobind\'s ndarray takes the lock itself when its last reference goes (documented), its accessors do not touch Python',
                      'nanobind converts arguments before and results after the guard it puts around a bound function',
                      'resolving a path (fs::relative and the like) is not a long-running operation',
                      'constructors bound with nb::init only store their arguments']
    C.finish()


if __name__ == '__main__':
    main()
