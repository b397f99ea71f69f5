"""P03: the failure of a storage operation is tested before the operation that asked for it returns normally."""
import ast
from common import Check, facts, rel
from graph import Graph, trivial
from absint import *
import pysrc

STREAMS = ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_fstream')
C_IO = {'fopen', 'fread', 'fwrite', 'fclose', 'fflush', 'fseek', 'open', 'read', 'write', 'pread', 'pwrite', 'close', 'unlink', 'mkdir', 'rmdir',
        'rename', 'remove', 'truncate', 'ftruncate', 'std::remove', 'std::rename', 'std::fopen', 'std::fread', 'std::fwrite', 'std::fclose',
        'std::fflush', 'std::fseek', 'openat', 'unlinkat', 'fsync', 'creat', 'stat', 'access'}
CREATE_DIR = {'std::filesystem::create_directory', 'std::filesystem::create_directories'}
NOTFOUND = ('NO_SUCH_KEY', 'RESOURCE_NOT_FOUND', 'NOT_FOUND', 'NO_SUCH_BUCKET')
OPENERS = {s + '::' + s.split('::')[1] for s in STREAMS} | {s + '::open' for s in STREAMS}
IN_OPS = {'read', 'get', 'getline', 'ignore', 'seekg', 'readsome', 'peek', 'sync', 'operator>>', 'unget', 'putback'}
OUT_OPS = {'write', 'put', 'seekp', 'operator<<'}
CATCHES = {'std::exception', 'std::runtime_error', 'std::system_error', 'std::filesystem::filesystem_error', 'std::ios_base::failure', 'nlohmann::basic_json::exception'}


def is_stream(t):
    t = t.replace('const ', '').rstrip(' &*')
    return t.startswith(('std::basic_ifstream<', 'std::basic_ofstream<', 'std::basic_fstream<', 'std::basic_istream<', 'std::basic_iostream<', 'std::basic_ostream<')) \
        or t in ('std::ifstream', 'std::ofstream', 'std::fstream', 'std::istream', 'std::ostream', 'std::iostream')


def s3call(name):
    return name.startswith('Aws::S3::S3Client::') and name.count('::') == 3 and name.rsplit('::', 1)[-1] not in ('S3Client', '~S3Client')


def primitive(u, n):
    name = n.get('fn') or ''
    if name in OPENERS and n.get('a'):
        return True
    if s3call(name) or name in C_IO:
        return True
    if name.startswith('std::filesystem::') and any('error_code' in u.ty(a.get('t', -1)) for a in n.get('a') or [] if a):
        return True
    return False


class IO(Interp):
    CAP = 40
    MAXDEPTH = 10

    def __init__(self, u, chk, inl):
        super().__init__(u)
        self.chk, self.inl = chk, inl
        self.mods = []
        self.iter_ends = {}

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    # ---- streams
    def stream_ok(self, s, obj):
        t = s.tags.get(('io', obj))
        return ('okstream', t[2]) if t else ('okstream', self.rd(s, obj))

    def touch(self, s, obj, kind, status, what, node, extra=None):
        ver = ('ver', obj, next(self.uid))
        s.tags[('io', obj)] = (kind, status, ver, self.where(node), what, extra)
        for m in self.mods:
            m.add(obj)

    def settled(self, s, t):
        """is the last operation on this stream known to have succeeded?"""
        kind, status, ver, _, what, extra = t
        if status == 'self':
            return True
        ok = s.known(('okstream', ver)) is True
        if status == 'unflushed':
            return False
        if ok:
            return True
        if what == 'read':
            g = ('gcount', ver)
            for f, p in s.facts.items():
                if p and f[0] == '==' and g in f[1:]:
                    other = f[2] if f[1] == g else f[1]
                    if other == extra or lin(other) == lin(extra):
                        return True
            if s.known(('badstream', ver)) is False and (s.known(('<', ('c', 0), g)) is False or s.known(('==', g, ('c', 0)))):
                return True          # read until nothing more came, and nothing went wrong
        return False

    def model(self, s, name, n, obj, vs):
        base = name.rsplit('::', 1)[-1]
        at = [self.u.ty(a.get('t', -1)) if a else '' for a in n.get('a') or []]
        if name in OPENERS:
            if n.get('cm') and n['k'] == 'ctor':
                return None
            if n.get('a') and at and 'fstream' not in at[0]:
                if self.report_ok():
                    self.chk.count('streams opened')
                kind = 'out' if 'ofstream' in name else 'in'
                self.touch(s, obj, kind, 'dirty', 'open', n)
                if n['k'] == 'ctor':
                    return [(s, ('inplace', obj) if obj[0] == 'v' else obj)]
                return [(s, VOID)]
        ot = self.u.ty(n.get('ot', -1)) if n.get('ot') is not None else ''
        target = None
        if obj is not None and n['k'] == 'call' and (name.startswith(('std::basic_istream::', 'std::basic_ostream::', 'std::basic_ios::', 'std::basic_iostream::')) or
                                                     name.startswith(tuple(x + '::' for x in STREAMS))):
            target = obj
        elif obj is None and base in ('operator>>', 'operator<<') and at and is_stream(at[0]):
            target = vs[0]
        if target is not None:
            t = s.tags.get(('io', target))
            if base == 'is_open':
                if t and t[4] == 'open':
                    return [(s, ('okstream', t[2]))]
                return [(s, self.fresh('is_open'))]
            if base == 'good' or base == 'fail' or base == 'bad' or base == 'eof':
                v = self.stream_ok(s, target)
                if base == 'good':
                    return [(s, v)]
                if base == 'fail':
                    return [(s, mk_not(v))]
                return [(s, (base + 'stream', v[1]))]
            if base == 'gcount':
                return [(s, ('gcount', t[2] if t else self.rd(s, target)))]
            if base == 'close':
                if t and t[0] == 'out':
                    if t[1] != 'self':
                        self.touch(s, target, 'out', 'dirty', 'close', n)
                return [(s, VOID)]
            if base == 'flush':
                if t and t[0] == 'out' and t[1] != 'self':
                    # flush reports what was written so far; nothing is left for the destructor
                    self.touch(s, target, 'out', 'dirty', 'flush', n)
                return [(s, target)]
            if base == 'exceptions' and vs:
                self.touch(s, target, t[0] if t else 'in', 'self', 'exceptions', n)
                return [(s, VOID)]
            if base == 'clear' or base == 'setstate':
                if t:
                    s.tags[('io', target)] = t[:1] + ('dirty',) + (('ver', target, next(self.uid)),) + t[3:4] + ('cleared', None)
                return [(s, VOID)]
            if t is not None or is_stream(ot) or (at and is_stream(at[0])):
                if t and t[1] == 'self':
                    return None
                if base in IN_OPS or base in OUT_OPS:
                    if self.report_ok():
                        self.chk.count('stream operations')
                    if base in OUT_OPS:
                        if t is None:
                            return None       # a string or body stream: not storage
                        self.touch(s, target, 'out', 'unflushed', 'write', n)
                    elif name.startswith('nlohmann::'):
                        self.havoc_args(s, n, [None] + list(vs[1:]))
                        self.touch(s, target, 'in', 'self', 'json', n)
                        t2 = s.tags[('io', target)]
                        s.tags[('io', target)] = t2[:1] + ('self',) + t2[2:]
                    else:
                        what = 'read' if base == 'read' else base
                        self.havoc_args(s, n, list(vs))
                        self.touch(s, target, 'in', 'dirty', what, n, self.val(s, vs[1]) if base == 'read' and len(vs) > 1 else None)
                    return [(s, target)]
        # other users of a stream: parsers and buffer iterators
        for v, ty in zip(vs, at):
            if isinstance(v, tuple) and is_stream(ty) and ('io', v) in s.tags and n.get('fid') not in self.u.funcs:
                if name.startswith('nlohmann::') and not (len(vs) > 2 and self.val(s, vs[2]) == FALSE):
                    t2 = s.tags[('io', v)]
                    s.tags[('io', v)] = t2[:1] + ('self',) + t2[2:]
                else:
                    t2 = s.tags[('io', v)]
                    if t2[1] != 'self':
                        self.touch(s, v, t2[0], 'dirty', 'use', n)
        # error codes
        if name.startswith('std::filesystem::') and any('error_code' in x for x in at):
            i = [k for k, x in enumerate(at) if 'error_code' in x][-1]
            l = vs[i]
            ver = ('ver', l, next(self.uid))
            s.store[l] = ver
            s.tags[('ec', l)] = (ver, self.where(n), name)
            if self.report_ok():
                self.chk.count('calls with an error code')
            for m in self.mods:
                m.add(('ec', l))
            return [(s, self.fresh('fs', name))]
        if name.startswith('std::error_code::') and obj is not None:
            v = self.rd(s, obj)
            if base == 'operator bool':
                return [(s, ('bool', ('ecval', v)))]
            if base == 'value':
                return [(s, ('ecval', v))]
        if base in ('operator==', 'operator!=') and any('error_co' in x for x in at):
            return None
        # S3
        if s3call(name):
            if self.report_ok():
                self.chk.count('S3 requests')
            o = ('outcome', base, next(self.uid))
            s.tags[('s3', o)] = (self.where(n), base)
            for m in self.mods:
                m.add(('s3', o))
            return [(s, o)]
        if name.startswith('Aws::Utils::Outcome::') and obj is not None:
            o = self.rd(s, obj)
            if base == 'IsSuccess':
                return [(s, ('bool', ('success', o)))]
            if base in ('GetResult', 'GetResultWithOwnership'):
                return [(s, ('result', o))]
            if base == 'GetError':
                return [(s, ('error', o))]
        if obj is not None and name.startswith('Aws::') and base in ('GetErrors', 'GetIsTruncated', 'GetContents', 'GetCommonPrefixes', 'GetErrorType', 'GetResponseCode', 'ShouldRetry'):
            o = self.rd(s, obj)
            if base in ('GetContents', 'GetCommonPrefixes') and o[0] == 'result':
                s.tags[('list', o)] = (self.where(n), base)
            v = (base, o)
            return [(s, ('bool', v) if base == 'GetIsTruncated' else v)]
        # C library
        if name in C_IO and n.get('fid') not in self.u.funcs:
            if self.report_ok():
                self.chk.count('C library calls')
            r = ('cio', name, next(self.uid))
            s.tags[('c', r)] = (self.where(n), name)
            return [(s, r)]
        return None

    def e_ref(self, n, st):
        if n.get('dk') == 'enum' and (n.get('qn') or '').startswith('Aws::'):
            return [(st, ('enum', n['qn'].rsplit('::', 1)[-1]))]
        if n.get('dk') == 'enum' and (n.get('qn') or '').endswith('skip_permission_denied') and self.report_ok():
            self.chk.violate(self.where(n), 'a listing skips directories it has no permission to read')
        return super().e_ref(n, st)

    def one_iter(self, st, cond, body, inc, pre, post_cond):
        d = len(self.mods)
        r = super().one_iter(st, cond, body, inc, pre, post_cond)
        self.iter_ends[d] = r[0]
        return r

    def loop(self, st, cond, body, inc, node, pre=None, post_cond=False, quant=None):
        self.mods.append(set())
        tags0 = dict(st.tags)
        outs = super().loop(st, cond, body, inc, node, pre, post_cond, quant)
        ends = self.iter_ends.get(len(self.mods), [])
        mods = self.mods.pop()
        for m in self.mods:
            m |= mods
        for kind, s, v in outs:
            if kind != 'norm':
                continue
            for o in mods:
                t = s.tags.get(('io', o))
                if t is not None and t == tags0.get(('io', o)) and t[1] != 'self':
                    if all(self.settled(e, e.tags[('io', o)]) for e in ends if isinstance(e.tags.get(('io', o)), tuple)):
                        continue         # every pass checks for itself
                    self_status = 'unflushed' if t[0] == 'out' else 'dirty'
                    s.tags[('io', o)] = (t[0], self_status, ('ver', o, next(self.uid)), t[3], 'loop', None)
        return outs

    def problems(self, s):
        out = []
        for k, t in s.tags.items():
            if not isinstance(k, tuple) or not isinstance(t, tuple):
                continue
            if k[0] == 'io':
                if not self.settled(s, t):
                    what = {'open': 'opening a file', 'read': 'reading from a file', 'write': 'writing a file', 'close': 'closing a written file',
                            'flush': 'flushing a written file'}.get(t[4], 'an operation on a file stream (%s)' % t[4])
                    if t[1] == 'unflushed':
                        what = 'writing a file (the data is only written out when it is flushed or closed)'
                    out.append((t[3], what + ' may fail without being reported'))
            elif k[0] == 'ec':
                c = ('bool', ('ecval', t[0]))
                e = ('ecval', t[0])
                if s.known(c) is not False and s.known(('==', e, ('c', 0))) is not True:
                    out.append((t[1], '%s reports its failure in an error code that is not tested' % t[2]))
            elif k[0] == 'c':
                if not any(mentions(f, k[1]) for f in s.facts):
                    out.append((t[0], 'the result of %s is not tested' % t[1]))
            elif k[0] == 's3':
                c = ('bool', ('success', k[1]))
                if s.known(c) is True:
                    if t[1] == 'DeleteObjects':
                        e = ('GetErrors', ('result', k[1]))
                        if not any(('size' in repr(f) or 'empty' in repr(f)) and mentions(f, e) for f in s.facts):
                            out.append((t[0], 'per-object errors of DeleteObjects are not tested'))
                elif not self.notfound(s, k[1]):
                    out.append((t[0], 'a failed S3 %s request may be taken for success or absence' % t[1]))
            elif k[0] == 'list':
                if s.known(('bool', ('GetIsTruncated', k[1]))) is not False and self.paged(s, k[1]):
                    out.append((t[0], 'only the first part of an S3 listing is used'))
        return out

    def paged(self, s, res):
        return True

    def notfound(self, s, o):
        e = ('error', o)

        def nf(f):
            if f[0] == 'or':
                return nf(f[1]) and nf(f[2])
            if f[0] == 'and':
                return nf(f[1]) or nf(f[2])
            if f[0] == '==':
                return mentions(f, e) and any(isinstance(x, tuple) and x[0] == 'enum' and x[1] in NOTFOUND for x in f[1:])
            return False
        return any(p and nf(f) for f, p in s.facts.items())


def rootfns(u, g):
    out = []
    for fid, f in u.funcs.items():
        if f.get('body') is None or f.get('uninst'):
            continue
        for root in [f['body']] + [i.get('e') for i in f.get('inits') or []]:
            if root is None:
                continue
            if any(n['k'] in ('call', 'ctor') and primitive(u, n) for n in facts.walk(root)):
                out.append(fid)
                break
    return out


def tells(u, f):
    """the result of this function can tell its caller about a failure"""
    t = u.ty(f.get('rt', -1))
    return t in ('bool', 'int') or 'stream' in t or 'optional' in t or 'error_code' in t or 'Outcome' in t or 'pair<' in t


def public(f):
    ns = f['qn'].split('::')
    return len(ns) >= 2 and 'detail' not in f['qn']


def handlers(chk, u, g, prims):
    """a handler that swallows what a storage operation raised"""
    reach = g.reaching(lambda x: x in prims)
    for fid, f in u.funcs.items():
        if f.get('body') is None:
            continue
        for t in facts.walk(f['body']):
            if t['k'] != 'try':
                continue
            names, hits = set(), False
            for n in facts.walk(t['body']):
                if n['k'] in ('call', 'ctor') and n.get('fn'):
                    if n.get('fid') in reach or primitive(u, n) or (n['fn'].startswith('std::filesystem::') and n['fn'].count('::') == 2):
                        names.add(n['fn'])
                    if n.get('fn', '').startswith(('std::basic_ifstream', 'std::basic_ofstream')):
                        names.add(n['fn'])
            names = {x for x in names if x not in CREATE_DIR and not x.startswith('std::filesystem::path')}
            if not names:
                continue
            for h in t['h']:
                ht = u.ty(h['t']).replace('const ', '').rstrip(' &') if 't' in h else None
                chk.count('exception handlers around storage operations')
                if ht is not None and ht not in CATCHES and not ht.startswith('nlohmann::'):
                    continue
                chk.oblige(raises(h['body']), '%s:%d' % (f['file'], h['l']), 'the handler in %s raises again what %s reported' % (f['qn'], sorted(names)[0]))


def raises(n):
    """every way through the statement ends in a throw (or keeps the exception)"""
    if n is None:
        return False
    k = n['k']
    if k == 'seq':
        return any(raises(x) for x in n['b'])
    if k == 'if':
        return raises(n.get('then')) and raises(n.get('else'))
    if k == 'throw':
        return True
    if k in ('call', 'asg', 'ret', 'cast', 'ctor'):
        for x in facts.walk(n):
            if x['k'] == 'call' and (x.get('noret') or (x.get('fn') or '') in ('std::rethrow_exception', 'std::current_exception', 'std::terminate', 'abort')):
                return True
            if x['k'] == 'throw':
                return True
    return False


def python(chk):
    """no handler of the Python layer swallows an error of the native layer"""
    broad = {None, 'Exception', 'BaseException', 'RuntimeError', 'OSError', 'IOError', 'SystemError'}
    for m, (path, tree) in pysrc.modules().items():
        native = native_names(tree)
        for t in ast.walk(tree):
            if not isinstance(t, ast.Try):
                continue
            calls = [c for b in t.body for c in ast.walk(b) if isinstance(c, ast.Call)]
            if not calls:
                continue
            for h in t.handlers:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = {None if x is None else pysrc.dotted(x) for x in ts}
                if not (names & broad):
                    continue
                chk.count('Python exception handlers')
                ok = py_raises(h.body)
                chk.oblige(ok, '%s:%d' % (path, h.lineno), 'the handler raises again what the native layer reported')


def native_names(tree):
    return set()


def py_raises(body):
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and py_raises(s.body) and py_raises(s.orelse):
            return True
        if isinstance(s, (ast.With,)) and py_raises(s.body):
            return True
    return False


def main():
    chk = Check('P03', 'typestate of every stream, S3 request, error code and C call: no path returns normally from the operation that used it unless the last operation on it '
                       'is known to have succeeded (or, for S3, to have found nothing); output streams must be closed or flushed before the test; no handler swallows a storage error')
    units = facts.load(['core', 'core_s3', 'py_handles', 'py_attributes', 'py_factory', 'py_dataset', 'py_util', 'pys3_handles', 'pys3_attributes', 'pys3_factory'])
    for un, u in units.items():
        g = Graph(u, virtual=False)
        prims = set(rootfns(u, g))
        reach = g.reaching(lambda x: x in prims)
        takes = {x for x, f in u.funcs.items() if any(is_stream(u.ty(p['t'])) or 'error_code' in u.ty(p['t']) or 'Aws::' in u.ty(p['t']) for p in f['params'])}
        inl = reach | takes | {x for x, f in u.funcs.items() if trivial(f)}
        todo = [(x, 0, x, None) for x in prims if u.funcs[x]['file'].startswith(facts.REPO + '/')]
        seen = set()
        failed = {}
        while todo:
            x, depth, origin, want = todo.pop()
            f = u.funcs[x]
            sig = (f['file'], f['l'], u.funcs[origin]['file'], u.funcs[origin]['l']) if depth else (x, origin)
            if sig in seen or (depth and sig[2:] in failed):
                continue
            seen.add(sig)
            if depth:
                to = g.reaching(lambda y: y == origin)
                it = IO(u, chk, to | {y for y in takes if y in reach or trivial(u.funcs[y])})
                it.CAP = 12
            else:
                it = IO(u, chk, inl)
            r = it.run(f)
            chk.count('functions analysed')
            chk.count('paths', len(r['ret']))
            bad = {}
            for s, v in r['ret']:
                for w, what in it.problems(s):
                    if want is None or (w, what) in want:
                        bad.setdefault((w, what), (s, v))
            if not bad:
                chk.discharge('%s:%d' % (rel(f['file']), f['l']), '%s returns normally only when every storage operation in it succeeded' % f['qn'])
                continue
            callers = [c for c in g.callers.get(x, ()) if c != x and u.funcs[c].get('body') is not None]
            if depth < 2 and callers and tells(u, f):
                # the failure may be handed to the caller (a returned flag or stream): judge it there
                todo.extend((c, depth + 1, origin, set(bad)) for c in callers)
                continue
            failed[(u.funcs[origin]['file'], u.funcs[origin]['l'])] = 1
            for (w, what), _ in bad.items():
                chk.violate(rel(w), what, 'on a path through %s that returns normally' % f['qn'])
        handlers(chk, u, g, prims)
    python(chk)
    chk.minimum('streams opened', 8)
    chk.minimum('functions analysed', 15)
    chk.assumptions += ['iostreams report a failed operation in their state, the throwing std::filesystem functions throw, and nlohmann::json throws when it cannot parse what a failed stream gives it',
                        'directory creation that fails is reported by the write into the directory that follows',
                        'AWS outcomes report failures through IsSuccess, GetError and, for DeleteObjects, GetErrors; the AWS SDK is represented by declarations only']
    chk.finish()


if __name__ == '__main__':
    main()
