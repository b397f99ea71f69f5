"""Fact base: runs the clang front end (tool/z5facts) over the probe and binding
translation units of /repo's current tree and loads the resolved trees."""
import hashlib, json, os, subprocess, sys, tempfile, shutil, re, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('Z5_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'z5facts')
PYINC = ['-I/usr/include/python3.12', '-I/opt/z5env/lib/python3.12/site-packages/nanobind/include']
CODECS = ['-DWITH_BLOSC', '-DWITH_BZIP2', '-DWITH_LZ4', '-DWITH_XZ', '-DWITH_ZLIB', '-DWITH_ZSTD']
BASE = ['-w', '-DNDEBUG', '-std=c++20', '-I%s/include' % REPO]
SHIP = BASE + CODECS + ['-DWITH_LIBDEFLATE', '-DLIBDEFLATE_DLL'] + PYINC
ALT = BASE + CODECS + ['-DWITH_S3', '-I%s/probe/stubs' % VERIF] + PYINC      # stock zlib + S3
PYLIB = ['attributes', 'dataset', 'factory', 'handles', 'util', 'z5py']

# name -> (source, flags)
UNITS = {'core': (VERIF + '/probe/core.cxx', SHIP),
         'core_s3': (VERIF + '/probe/core.cxx', ALT)}
for _n in PYLIB:
    UNITS['py_' + _n] = ('%s/src/python/lib/%s.cxx' % (REPO, _n), SHIP)
    UNITS['pys3_' + _n] = ('%s/src/python/lib/%s.cxx' % (REPO, _n), ALT)

OPTIONAL = {'core_s3'} | {'pys3_' + n for n in PYLIB}


class FactError(Exception):
    pass


def ensure_tool():
    src = os.path.join(VERIF, 'tool', 'z5facts.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    cmd = ['g++', '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-w',
           '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18']
    subprocess.run(cmd, check=True)
    os.replace(tmp, TOOL)


_INLINE = re.compile(r'\b(__cxx11|json_abi_v[0-9_]+|__gnu_cxx|_V2|__8)::')


def clean(s):
    return _INLINE.sub('', s)


_SKEL = {}


def skel(s):
    """qualified name without template arguments"""
    r = _SKEL.get(s)
    if r is not None:
        return r
    t = clean(s)
    tail = ''
    i = t.find('operator')
    while i > 0 and (t[i - 1].isalnum() or t[i - 1] == '_'):
        i = t.find('operator', i + 1)
    if i >= 0 and t.count('<', 0, i) == t.count('>', 0, i):
        t, tail = t[:i], t[i:]
    out, depth = [], 0
    for ch in t:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    r = ''.join(out) + tail
    _SKEL[s] = r
    return r


class Unit:
    """One parsed translation unit."""
    def __init__(self, name, data):
        self.name = name
        self.types = [clean(t) for t in data['types']]
        self.funcs = {}
        for f in data['functions'] + data['functions2']:
            self.funcs[f['fid']] = f
        self.records = data['records']
        self.enums = data['enums']
        self.globals = data['globals']
        self.uninst = data['uninstantiated']
        for f in self.funcs.values():
            self._norm(f)
        for r in self.records:
            self._norm(r)
        for g in self.globals:
            self._norm(g)
        self.byqn = {}
        for f in self.funcs.values():
            self.byqn.setdefault(f['qn'], []).append(f)
        # virtual dispatch: method fid -> overriding fids (transitively)
        self.over = {}
        self.mclass = {}
        direct = {}
        for r in self.records:
            for m in r['methods']:
                self.mclass[m['fid']] = r['n']
                for o in m.get('ovr', []):
                    direct.setdefault(o, set()).add(m['fid'])
        def rec(x, acc):
            for y in direct.get(x, ()):
                if y not in acc:
                    acc.add(y)
                    rec(y, acc)
        for k in list(direct):
            acc = set()
            rec(k, acc)
            self.over[k] = acc
        self.rec = {r['n']: r for r in self.records}
        self.bases = {}
        for r in self.records:
            self.bases[r['n']] = [self.types[b] for b in r['bases']]

    def _norm(self, n):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                for k in ('fn', 'qn', 'pcls', 'f'):
                    v = x.get(k)
                    if v and isinstance(v, str):
                        x[k] = skel(v)
                for k in ('cls', 'n'):
                    v = x.get(k)
                    if v and isinstance(v, str) and '::' in v:
                        x[k] = clean(v)
                for k, v in x.items():
                    if isinstance(v, (dict, list)):
                        st.append(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        st.append(v)

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else ''

    def derives(self, cls, base):
        """cls == base or cls derives from it (template arguments of base ignored when it has none)"""
        seen = set()
        st = [cls]
        while st:
            c = st.pop()
            if c in seen:
                continue
            seen.add(c)
            if c == base or c.split('<')[0] == base:
                return True
            st.extend(self.bases.get(c, ()))
        return False

    def find(self, pred):
        return [f for f in self.funcs.values() if pred(f)]


def _run_unit(name, outdir):
    src, flags = UNITS[name]
    out = os.path.join(outdir, name + '.json')
    cmd = [TOOL, '-o', out, '-root', REPO + '/', '-root', VERIF + '/probe/', src, '--'] + flags
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=VERIF)
    if r.returncode != 0 or not os.path.exists(out) or os.path.getsize(out) == 0:
        return name, None, r.stdout.decode('utf8', 'replace')
    with open(out, 'rb') as f:
        data = json.load(f)
    os.unlink(out)
    return name, data, ''


def _tree_key():
    h = hashlib.sha256()
    files = []
    for top in (VERIF + '/checks/facts.py', REPO + '/include', REPO + '/src/python/lib', VERIF + '/probe', VERIF + '/tool'):
        if os.path.isfile(top):
            files.append(top)
        for d, _, fs in os.walk(top):
            for f in fs:
                files.append(os.path.join(d, f))
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def load(names, verbose=True):
    """Parse the given units from the current tree; returns {name: Unit}.

    The parsed trees are kept (pickled) under build/cache, keyed by a hash of every
    source byte that goes into them, purely so that the checks of one run on the same
    tree do not parse it again."""
    import pickle
    ensure_tool()
    only = os.environ.get('Z5_UNITS_ONLY')       # development aid: restrict the units
    if only:
        names = [n for n in names if n in only.split(',')]
    key = _tree_key()
    cdir = os.path.join(VERIF, 'build', 'cache')
    os.makedirs(cdir, exist_ok=True)
    for f in os.listdir(cdir):
        if not f.startswith(key):
            try:
                if time.time() - os.path.getmtime(os.path.join(cdir, f)) > 600:
                    os.unlink(os.path.join(cdir, f))
            except OSError:
                pass
    res, missing = {}, []
    for n in names:
        p = os.path.join(cdir, '%s.%s.pkl' % (key, n))
        try:
            with open(p, 'rb') as fh:
                res[n] = pickle.load(fh)
        except Exception:
            missing.append(n)
    if missing:
        tmp = tempfile.mkdtemp(prefix='z5facts.')
        try:
            with ThreadPoolExecutor(8) as ex:
                outs = list(ex.map(lambda n: _run_unit(n, tmp), missing))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for n, data, err in outs:
            if data is None:
                if n in OPTIONAL:
                    if verbose:
                        print('note: unit %s does not parse with the stub configuration and is not covered:\n%s'
                              % (n, '\n'.join(l for l in err.splitlines() if 'error' in l)[:800]))
                    continue
                raise FactError('front end failed on %s:\n%s' % (n, err[-3000:]))
            u = Unit(n, data)
            res[n] = u
            p = os.path.join(cdir, '%s.%s.pkl' % (key, n))
            try:
                with open(p + '.%d' % os.getpid(), 'wb') as fh:
                    pickle.dump(u, fh, protocol=4)
                os.replace(p + '.%d' % os.getpid(), p)
            except OSError:
                pass
    return res


def walk(n):
    """all dict nodes below n, pre-order"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            for v in reversed(list(x.values())):
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    st.append(v)


def loc(f, node=None):
    return '%s:%d' % (f['file'], (node or f).get('l', f['l']))
