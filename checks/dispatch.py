"""P15: each data type is served by its own element type and each codec by its own implementation, wherever one is chosen. Every function that
chooses is interpreted once per enumerator; what it constructs or calls on the way must belong to that enumerator."""
import ast
import glob
import re
from absint import *
from common import Check, facts, rel
from facts import walk
from graph import Graph, trivial

ELEM = {'int8': 'signed char', 'int16': 'short', 'int32': 'int', 'int64': 'long', 'uint8': 'unsigned char', 'uint16': 'unsigned short', 'uint32': 'unsigned int', 'uint64': 'unsigned long',
        'float32': 'float', 'float64': 'double', 'complex64': 'std::complex<float>', 'complex128': 'std::complex<double>', 'complex256': 'std::complex<long double>'}
SAME = {'long long': 'long', 'unsigned long long': 'unsigned long', 'long int': 'long', 'int8_t': 'signed char', 'uint8_t': 'unsigned char', 'int16_t': 'short', 'uint16_t': 'unsigned short',
        'int32_t': 'int', 'uint32_t': 'unsigned int', 'int64_t': 'long', 'uint64_t': 'unsigned long'}
SIZE = {'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8,
        'std::complex<float>': 8, 'std::complex<double>': 16, 'std::complex<long double>': 32}
ZARR = {'int8': '|i1', 'int16': '<i2', 'int32': '<i4', 'int64': '<i8', 'uint8': '|u1', 'uint16': '<u2', 'uint32': '<u4', 'uint64': '<u8', 'float32': '<f4', 'float64': '<f8',
        'complex64': '<c8', 'complex128': '<c16', 'complex256': '<c32'}
CODEC = {'raw': 'raw', 'blosc': 'blosc', 'zlib': 'zlib', 'gzip': 'zlib', 'bzip2': 'bzip2', 'bz2': 'bzip2', 'lz4': 'lz4', 'xz': 'xz', 'lzma': 'xz', 'zstd': 'zstd'}
ELEMS = set(ELEM.values())


def first_arg(t):
    """the first template argument of a class name"""
    i = t.find('<')
    if i < 0:
        return None
    d = 0
    for j in range(i + 1, len(t)):
        if t[j] == '<':
            d += 1
        elif t[j] == '>' and d:
            d -= 1
        elif t[j] in ',>' and not d:
            a = t[i + 1:j].strip()
            return SAME.get(a, a)
    return None


def enum(t):
    return t.replace('const ', '').rstrip(' &').rsplit('::', 1)[-1]


def enumerators(u):
    out = {'Datatype': {}, 'Compressor': {}}
    for f in u.funcs.values():
        if f.get('body') is None:
            continue
        for n in walk(f['body']):
            if n.get('k') == 'ref' and n.get('dk') == 'enum' and n.get('qn', '').startswith('z5::types::'):
                e = enum(u.ty(n['t']))
                if e in out:
                    out[e][n['n']] = n['v']
    return out


class Choice(Interp):
    """the choice is made for one enumerator"""
    CAP = 400
    MAXDEPTH = 14
    implicit_exc = False

    def __init__(self, u, kind, value, inl):
        super().__init__(u)
        self.kind, self.value, self.inl = kind, value, inl
        self.made = []

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    def ev(self, n, st, *a, **k):
        if n is not None and n.get('k') in ('ref', 'mem', 'call') and n.get('dk') != 'enum' and enum(self.u.ty(n.get('t', -1))) == self.kind:
            if n['k'] != 'call' or n.get('fid') not in self.inl:
                return [(st, ('c', self.value))]
        return super().ev(n, st, *a, **k)

    def e_new(self, n, st):
        r = super().e_new(n, st)
        for s, v in r:
            s.tags[('made', n.get('l'), self.u.ty(n.get('nt', -1)))] = (self.u.ty(n.get('nt', -1)), '%s:%d' % (self.frame.fn['file'], n.get('l') or self.frame.fn['l']))
        return r

    def on_call(self, s, name, n, obj, vs, fn):
        ta = n.get('ta') or []
        base = name.rsplit('::', 1)[-1]
        if base in ('make_unique', 'make_shared') and ta:
            s.tags[('made', n.get('l'), ta[0])] = (ta[0], '%s:%d' % (self.frame.fn['file'], n.get('l') or self.frame.fn['l']))
        elif ta and n.get('fid') not in self.inl and n.get('op') is None and not name.startswith(('std::', 'nlohmann::', 'nanobind::')):
            t = SAME.get(ta[0], ta[0])
            ds = any('z5::Dataset' in self.u.ty(a.get('t', -1)) for a in n.get('a') or [])
            if t in ELEMS and ds:
                s.tags[('called', n.get('l'), t)] = ('%s<%s>' % (base, t), '%s:%d' % (self.frame.fn['file'], n.get('l') or self.frame.fn['l']))
        return super().on_call(s, name, n, obj, vs, fn)


def choosers(u, kind):
    """functions that look at enumerators of a kind, and those that pass a value of that kind to one of them"""
    direct = set()
    for x, f in u.funcs.items():
        if not f['file'].startswith(facts.REPO) or f.get('body') is None:
            continue
        for n in walk(f['body']):
            if n.get('k') == 'case' or n.get('k') == 'bin' and n.get('op') in ('==', '!='):
                if any(m.get('k') == 'ref' and m.get('dk') == 'enum' and enum(u.ty(m['t'])) == kind for m in walk(n.get('v') if n['k'] == 'case' else n)):
                    direct.add(x)
                    break
    return direct


def lambdas_of(u, f):
    return [x for n in walk(f['body']) if n.get('k') == 'lambda' for x in n['fids'] if x in u.funcs]


def datatypes(C, u, en):
    g = Graph(u, virtual=False)
    direct = choosers(u, 'Datatype')
    inl = set(direct)
    # lambdas and small helpers handed to a chooser or called by it
    for x, f in u.funcs.items():
        if f['file'].startswith(facts.REPO) and f.get('body') is not None and (trivial(f) or f.get('lambda')):
            inl.add(x)
    # callers that hand the choice to another function, and helpers which do what was chosen
    def makes(f):
        return any(n.get('k') == 'new' and 'Dataset<' in u.ty(n.get('nt', -1)) or n.get('k') == 'call' and 'make_unique' in n.get('fn', '') and any('Dataset<' in t for t in n.get('ta') or []) for n in walk(f['body']))
    helpers = {x for x, f in u.funcs.items() if f['file'].startswith(facts.REPO) and f.get('body') is not None and makes(f)}
    inl |= helpers
    roots = set(direct)
    for x in list(direct) + list(helpers):
        for c in g.callers.get(x, ()):
            if c in u.funcs and u.funcs[c]['file'].startswith(facts.REPO) and 'Dataset>' in u.ty(u.funcs[c].get('rt', -1)) and 'ptr' in u.ty(u.funcs[c].get('rt', -1)):
                roots.add(c)
    roots = {x for x in roots if not (u.funcs[x].get('lambda') and any(x in lambdas_of(u, u.funcs[r]) for r in roots if r != x))}
    for x in sorted(roots):
        f = u.funcs[x]
        size = u.ty(f.get('rt', -1)) in ('unsigned long', 'int', 'unsigned int', 'std::size_t')
        gives = 'Dataset>' in u.ty(f.get('rt', -1)) and 'ptr' in u.ty(f.get('rt', -1))
        res = {}
        where = '%s:%d' % (f['file'], f['l'])
        for e, v in sorted((e, v) for e, v in en['Datatype'].items() if e in ELEM):
            it = Choice(u, 'Datatype', v, inl)
            r = it.run(f)
            for s, val in r['ret']:
                acts = [t for k, t in s.tags.items() if isinstance(k, tuple) and k and k[0] in ('made', 'called')]
                res.setdefault(e, []).append((acts, val))
                for t, w in acts:
                    el = first_arg(t)
                    if el not in ELEMS:
                        continue
                    C.count('choices by data type')
                    C.oblige(el == ELEM.get(e), w, '%s is handled with its own element type' % e, '%s uses %s' % (f['qn'].split('(')[0], t))
                if size and is_c(val) and f['n'] and 'size' in f['n'].lower():
                    C.count('sizes of data types')
                    C.oblige(val[1] == SIZE[ELEM[e]], where, 'the size of %s is that of its elements' % e, '%s returns %s' % (f['n'], val[1]))
        used = {e for e, rs in res.items() if any(a for a, _ in rs)}
        if not used:
            continue
        for e, rs in sorted(res.items()):
            for acts, val in rs:
                C.oblige(bool(acts), where, '%s: %s is either handled or refused' % (f['qn'].split('(')[0], e), 'it does nothing%s' % (' and returns nothing' if gives else ''))


def codecs(C, u, en):
    inl0 = {x for x, f in u.funcs.items() if f['file'].startswith(facts.REPO) and f.get('body') is not None and trivial(f)}
    for x in sorted(choosers(u, 'Compressor')):
        f = u.funcs[x]
        if not any(n.get('k') == 'new' or n.get('k') == 'call' and 'make_unique' in n.get('fn', '') for n in walk(f['body'])):
            continue
        own = first_arg(f.get('cls') or '')
        res = {}
        for e, v in sorted(en['Compressor'].items()):
            it = Choice(u, 'Compressor', v, inl0)
            for s, val in it.run(f)['ret']:
                acts = [t for k, t in s.tags.items() if isinstance(k, tuple) and k and k[0] == 'made']
                res.setdefault(e, []).append(acts)
                for t, w in acts:
                    if 'Compressor<' not in t:
                        continue
                    nm = t.split('<')[0].rsplit('::', 1)[-1].lower().replace('compressor', '')
                    C.count('choices by codec')
                    C.oblige(nm == e, w, 'the codec %s is served by its own implementation' % e, 'it is served by %s' % t)
                    if own:
                        C.oblige(first_arg(t) == own, w, 'the codec works on the elements of its dataset', '%s in a dataset of %s' % (t, own))
        if any(a for rs in res.values() for a in rs):
            for e, rs in sorted(res.items()):
                C.oblige(all(rs), '%s:%d' % (f['file'], f['l']), 'the codec %s is either constructed or refused' % e, 'nothing is constructed for it')
    # an implementation says which codec it is
    for x, f in sorted(u.funcs.items()):
        if f['n'] == 'type' and enum(u.ty(f.get('rt', -1))) == 'Compressor' and f.get('body') and f.get('cls'):
            nm = f['cls'].split('<')[0].rsplit('::', 1)[-1].lower().replace('compressor', '')
            refs = {n['n'] for n in walk(f['body']) if n.get('k') == 'ref' and n.get('dk') == 'enum'}
            if nm in en['Compressor'] and refs:
                C.count('codec implementations')
                C.oblige(refs == {nm}, '%s:%d' % (f['file'], f['l']), 'the implementation of %s names itself' % nm, 'it says %s' % ', '.join(sorted(refs)))


def const(e):
    while e and e.get('k') in ('cast', 'ctor') and (e.get('e') or e.get('a')):
        e = e['e'] if e['k'] == 'cast' else e['a'][0]
    if e and e.get('k') == 'str':
        return 's', e['v']
    if e and e.get('k') == 'ref' and e.get('dk') == 'enum':
        return 'e', e['n']
    return None


def names(C, u):
    """the tables between names and enumerators"""
    for x, f in sorted(u.funcs.items()):
        if not f['file'].startswith(facts.REPO) or f.get('body') is None or f['params'] or 'map<' not in u.ty(f.get('rt', -1)):
            continue
        for n in walk(f['body']):
            if n.get('k') == 'ctor' and (n.get('cls') or '').startswith('std::pair<') and len(n['a']) == 2:
                a, b = const(n['a'][0]), const(n['a'][1])
                if not a or not b or {a[0], b[0]} != {'s', 'e'}:
                    continue
                s, e = (a[1], b[1]) if a[0] == 's' else (b[1], a[1])
                w = '%s:%d' % (f['file'], n.get('l') or f['l'])
                if e in ELEM:
                    C.count('names in tables')
                    C.oblige(s in (e, ZARR[e]), w, 'the name %s means the data type it says' % s, '%s maps it to %s' % (f['n'], e))
                elif s in CODEC:
                    C.count('names in tables')
                    C.oblige(CODEC[s] == e, w, 'the name %s means the codec it says' % s, '%s maps it to %s' % (f['n'], e))


def requests(C, u):
    """a typed dataset only takes requests for its own element type"""
    for x, f in sorted(u.funcs.items()):
        own = first_arg(f.get('cls') or '')
        if f['n'] != 'checkRequestType' or f.get('body') is None or own not in ELEMS or len(f['params']) != 1:
            continue
        it = Interp(u)
        it.implicit_exc = False
        r = it.run(f)
        p = ('par', f['params'][0]['n'], 0)
        ok = bool(r['ret'])
        for s, v in r['ret']:
            t = [c[2] if c[1] == p else c[1] for c, pol in s.facts.items() if pol and c[0] == '==' and p in c[1:]]
            ok = ok and any(isinstance(y, tuple) and y[0] == 'typeid' and SAME.get(y[1], y[1]) == own for y in t)
        C.count('typed datasets')
        C.oblige(ok, '%s:%d' % (f['file'], f['l']), 'a dataset of %s only accepts requests for that type' % own)


def bindings(C, u):
    """functions exported for a data type under its name"""
    for x, f in sorted(u.funcs.items()):
        if not f['file'].startswith(facts.REPO) or f.get('body') is None:
            continue
        for n in walk(f['body']):
            if n.get('k') != 'call' or not n.get('ta') or not n.get('a'):
                continue
            t = SAME.get(n['ta'][0], n['ta'][0])
            ss = [const(a) for a in n['a']]
            ss = [c[1] for c in ss if c and c[0] == 's']
            if t not in ELEMS:
                continue
            for s in ss:
                m = [e for e in ELEM if s == e or s.endswith('_' + e) or s.endswith(e) and not s[:-len(e)].endswith('u')]
                if m:
                    C.count('typed exports')
                    C.oblige(ELEM[m[0]] == t, '%s:%d' % (f['file'], n.get('l') or f['l']), 'what is exported for %s works on its elements' % m[0], '%s<%s> is exported as "%s"' % (n.get('fn'), n['ta'][0], s))


def python(C):
    for p in sorted(glob.glob(facts.REPO + '/src/python/module/z5py/**/*.py', recursive=True)):
        for n in ast.walk(ast.parse(open(p).read())):
            if not isinstance(n, ast.Dict):
                continue
            for k, v in zip(n.keys, n.values):
                def nm(e):
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'dtype' and e.args:
                        e = e.args[0]
                    if isinstance(e, ast.Constant) and isinstance(e.value, str):
                        return e.value
                    if isinstance(e, ast.Attribute):
                        return e.attr
                a, b = nm(k), nm(v)
                if a in ELEM and (b in ELEM or b in ZARR.values()):
                    C.count('names in tables')
                    C.oblige(b in (a, ZARR[a]), '%s:%d' % (p, k.lineno), 'the name %s means the data type it says' % a, 'it is mapped to %s' % b)


def main():
    C = Check('P15', 'every function that chooses by data type or codec is interpreted once per enumerator and must construct or call the implementation of that enumerator or raise; '
                     'name tables, request type tests, typed exports and sizes agree with the enumerators')
    U = facts.load(['core', 'core_s3'] + [x for x in facts.UNITS if x.startswith('py_')])
    en = {'Datatype': {}, 'Compressor': {}}
    for u in U.values():
        for k, d in enumerators(u).items():
            en[k].update(d)
    for e in sorted(en['Datatype']):
        if e not in ELEM:
            C.notes.append('the element type of %s is not known' % e)
    for nm in sorted(U):
        u = U[nm]
        datatypes(C, u, en)
        names(C, u)
        if nm.startswith('core'):
            codecs(C, u, en)
            requests(C, u)
        else:
            bindings(C, u)
    python(C)
    C.minimum('choices by data type', 20)
    C.minimum('choices by codec', 7)
    C.minimum('names in tables', 30)
    C.finish()


if __name__ == '__main__':
    main()
