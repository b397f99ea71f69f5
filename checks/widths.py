"""P18: sizes, offsets, counts and positions keep their 64 bit value.

Every conversion from a 64 bit integer to a narrower type (and every arithmetic in a narrower type that is
widened afterwards) needs a reason why the value fits: a constant, the rank of an array, a byte cut out on
purpose, or a comparison that dominates it on every path."""
import re, sys, ast
import facts, pysrc
from facts import walk
from common import Check
from absint import *
from stored import representatives

BITS = {'unsigned long': 64, 'long': 64, 'unsigned long long': 64, 'long long': 64, 'int': 32, 'unsigned int': 32, 'short': 16,
        'unsigned short': 16, 'char': 8, 'unsigned char': 8, 'signed char': 8, 'float': 24, 'double': 53, 'long double': 64}
MAXV = {'int': 2**31 - 1, 'unsigned int': 2**32 - 1, 'short': 2**15 - 1, 'unsigned short': 2**16 - 1, 'char': 127, 'signed char': 127,
        'unsigned char': 255, 'float': 2**24, 'double': 2**53}
FLOAT = {'float', 'double', 'long double'}
# classes that only handle threads and tasks: their numbers are thread numbers
THREADS = {'z5::util::ThreadPool', 'z5::util::ParallelOptions'}
RANKCALLS = {'dimension', 'ndim', 'getDimension'}
ELEMCAST = ('nanobind::cast', 'nanobind::detail::cast', 'nanobind::type_caster')


def base(t):
    t = t.replace('const ', '').replace('volatile ', '').strip()
    if t.endswith('&'):
        t = t.rstrip('& ')
    return t


def bits(t):
    return BITS.get(base(t))


def strip(n):
    while isinstance(n, dict) and n.get('k') == 'cast':
        n = n['e']
    return n


def mine(f):
    return f['file'].startswith((facts.REPO + '/include/', facts.REPO + '/src/')) and '/z5/' in f['file'] or '/src/python/lib/' in f['file']


def roots(f):
    out = []
    if f.get('body') is not None:
        out.append(f['body'])
    for i in f.get('inits') or ():
        if i.get('e'):
            out.append(i['e'])
    return out


class Origins:
    """where a value comes from: a flow-insensitive, interprocedural backward walk"""

    def __init__(self, u):
        self.u = u
        self.defs = {}       # decl id -> [(expr, fn)]  (None: unknown)
        self.params = {}     # decl id -> (fid, index)
        self.calls = {}      # fid -> [call nodes]
        self.fields = {}     # field qn -> [expr]
        self.rets = {}
        self.bounds = {}     # decl id -> what a loop condition compares it with
        self.counters = set()
        for f in u.funcs.values():
            for i, p in enumerate(f['params']):
                if 'd' in p:
                    self.params[p['d']] = (f['fid'], i)
            for i in f.get('inits') or ():
                fld = i.get('f') or i.get('n')
                if fld and i.get('e'):
                    self.fields.setdefault((f.get('pcls'), fld.rsplit('::', 1)[-1]), []).append(i['e'])
            for r in roots(f):
                for n in walk(r):
                    k = n['k']
                    if k == 'var' and n.get('init') is not None:
                        self.defs.setdefault(n['d'], []).append(n['init'])
                    elif k == 'asg':
                        # x += y and the like may grow without limit
                        self.assign(n['a'], n['b'] if n['op'] in ('=', '/=', '>>=', '&=', '%=') else None)
                    elif k in ('for', 'while', 'do') and n.get('c'):
                        for c in walk(n['c']):
                            if c['k'] == 'bin' and c['op'] in ('<', '<=', '!=', '>', '>='):
                                for a, b in ((c['a'], c['b']), (c['b'], c['a'])):
                                    a = strip(a)
                                    if a['k'] == 'ref' and 'd' in a:
                                        self.bounds.setdefault(a['d'], []).append(b)
                    elif k == 'un' and '++' in n['op']:
                        x = strip(n['e'])
                        if x['k'] == 'ref' and 'd' in x:
                            self.counters.add(x['d'])
                        elif x['k'] == 'mem':
                            self.fields.setdefault(self.fkey(x), []).append(None)
                    elif k == 'un' and n['op'] == '&':
                        x = n['e']
                        if x['k'] == 'ref' and 'd' in x:
                            self.defs.setdefault(x['d'], []).append(None)
                    elif k in ('call', 'ctor'):
                        if n.get('fid') is not None:
                            self.calls.setdefault(n['fid'], []).append(n)
                        pm = n.get('pm') or ''
                        for j, a in enumerate(n.get('a') or ()):
                            if j < len(pm) and pm[j] not in 'vc' and a['k'] == 'ref' and 'd' in a:
                                self.defs.setdefault(a['d'], []).append(None)
                    elif k == 'ret' and n.get('e') is not None:
                        self.rets.setdefault(f['fid'], []).append(n['e'])

    def assign(self, l, r):
        if l['k'] == 'ref' and 'd' in l:
            self.defs.setdefault(l['d'], []).append(r)
        elif l['k'] == 'mem':
            self.fields.setdefault(self.fkey(l), []).append(r)

    def fkey(self, m):
        q = m.get('f') or m['n']
        if '::' in q:
            return tuple(q.rsplit('::', 1))
        return (None, q)

    def fits(self, n, limit, w, seen=None):
        """is the value of the expression certain to be at most `limit` (width w)?"""
        seen = seen if seen is not None else set()
        k = n['k']
        if 'v' in n and k in ('cast', 'int', 'sizeof', 'ref', 'bin', 'un', 'call'):
            try:
                return abs(int(n['v'])) <= limit
            except (TypeError, ValueError):
                return False
        t = base(self.u.ty(n.get('t'))) if n.get('t') is not None else ''
        if t in BITS and BITS[t] < 64 and MAXV[t] <= limit:
            return True
        if t == 'bool' or k in ('bool', 'zero', 'sizeof'):
            return True
        if k == 'cast':
            return self.fits(n['e'], limit, w, seen)
        if k == 'bin':
            op = n['op']
            if op == '&':
                return self.fits(n['a'], limit, w, seen) or self.fits(n['b'], limit, w, seen)
            if op in ('/', '>>', '-'):
                if op == '>>' and 'v' in strip(n['b']) and 64 - int(strip(n['b'])['v']) <= w:
                    return True
                return self.fits(n['a'], limit, w, seen)
            if op == '%':
                return self.fits(n['b'], limit, w, seen) or self.fits(n['a'], limit, w, seen)
            if op in ('+', '*'):
                return self.fits(n['a'], limit, w, seen) and self.fits(n['b'], limit, w, seen) and self.small(n['a']) and self.small(n['b'])
            return op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||')
        if k == 'cond':
            return self.fits(n['a'], limit, w, seen) and self.fits(n['b'], limit, w, seen)
        if k == 'call':
            fn = n.get('fn') or ''
            leaf = fn.rsplit('::', 1)[-1]
            if leaf in ('size', 'length') and fn.startswith(('std::', 'xt::', 'nanobind::')):
                return self.rank(n)
            if leaf in RANKCALLS:
                return True
            if fn == 'std::size' and n.get('a'):
                return self.rank({'cls': self.u.ty(n['a'][0].get('t'))})
            if fn in ('std::distance',) and n.get('a'):
                return self.rank({'cls': self.u.ty(n['a'][0].get('t'))})
            if fn in ('std::min',):
                return any(self.fits(a, limit, w, seen) for a in n['a'])
            if fn in ('std::max',):
                return all(self.fits(a, limit, w, seen) for a in n['a'])
            if fn in ('std::clamp',):
                return self.fits(n['a'][2], limit, w, seen)
            if fn.startswith('std::numeric_limits'):
                return base(self.u.ty(n['t'])) in MAXV and MAXV[base(self.u.ty(n['t']))] <= limit
            if n.get('cls') in THREADS and leaf in ('nThreads', 'getNumThreads', 'getActualNumThreads') or fn == 'std::thread::hardware_concurrency':
                return True
            if n.get('fid') in self.u.funcs:
                key = ('fn', n['fid'])
                if key in seen:
                    return True
                rs = self.rets.get(n['fid'])
                f = self.u.funcs[n['fid']]
                if f.get('virtual') or not rs:
                    return False
                return all(self.fits(r, limit, w, seen | {key}) for r in rs)
            return False
        if k == 'ref':
            d = n.get('d')
            key = ('d', d)
            if key in seen:
                return True
            s2 = seen | {key}
            if d in self.params:
                fid, i = self.params[d]
                cs = self.calls.get(fid)
                if not cs:
                    return False
                args = [c['a'][i] if i < len(c.get('a') or ()) else None for c in cs]
                if any(a is None for a in args) or self.defs.get(d) and any(x is None or not self.fits(x, limit, w, s2) for x in self.defs[d]):
                    return False
                return all(self.fits(a, limit, w, s2) for a in args)
            ds = self.defs.get(d)
            if d in self.counters:
                # counted up: at most what the loop compares it with
                bs = self.bounds.get(d)
                if not bs or not all(self.fits(b, limit, w, s2) for b in bs):
                    return False
            return bool(ds) and all(x is not None and self.fits(x, limit, w, s2) for x in ds)
        if k == 'mem':
            fk = self.fkey(n)
            key = ('f', fk)
            if key in seen:
                return True
            es = self.fields.get(fk) or self.fields.get((None, fk[1]))
            return bool(es) and all(e is not None and self.fits(e, limit, w, seen | {key}) for e in es)
        return False

    def small(self, n):
        """a value so small that sums and products of a few of them still fit: a rank or a constant"""
        n = strip(n)
        if 'v' in n:
            return True
        return self.fits(n, 65535, 16)

    def rank(self, call):
        """the size of a list of extents is the rank of an array"""
        c = call.get('cls') or ''
        if any(x in c for x in ('xt::', 'nanobind::')):
            return 'shape' in c or 'svector' in c or 'std::array' in c or 'uvector' in c
        m = re.match(r'(?:const )?std::(?:vector|array|initializer_list)<(?:const )?([\w ]+?)[,>]', c)
        return bool(m) and m.group(1) in ('unsigned long', 'long', 'int', 'unsigned int', 'bool')


class Guards(Interp):
    """what the paths to a conversion say about the value"""

    def __init__(self, u, sites, report):
        Interp.__init__(self, u)
        self.sites, self.report = sites, report
        self.uns = set()

    def inline_ok(self, fn):
        return False

    def e_cast(self, n, st):
        if 'v' in n and n['ck'] == 'IntegralCast':
            return [(st, ('c', int(n['v'])))]
        if id(n) not in self.sites:
            return Interp.e_cast(self, n, st)
        out = Interp.e_cast(self, n, st)
        for s, v in out:
            if not self.quiet:
                self.report(n, self.within(s, v, self.sites[id(n)]))
        return out

    def e_ctor(self, n, st, dst=None):
        self.container(n, st)
        return Interp.e_ctor(self, n, st, dst)

    def do_call(self, s, name, n, obj, vs, fn, dst=None, want_lv=False):
        self.container(n, s)
        return Interp.do_call(self, s, name, n, obj, vs, fn, dst, want_lv)

    def container(self, n, st):
        """a narrowing copy of a whole container: all its elements must have been compared with the limit"""
        if id(n) not in self.sites or self.quiet:
            return
        limit = self.sites[id(n)]
        self.report(n, any(f[0] == 'forall' and f[2][0] == '<' and
                           (f[3] and is_c(f[2][2]) and isinstance(f[2][2][1], (int, float)) and f[2][2][1] <= limit + 1 or
                            not f[3] and is_c(f[2][1]) and isinstance(f[2][1][1], (int, float)) and f[2][1][1] <= limit)
                           for f in st.foralls))

    def model(self, st, name, call, obj, args):
        if 'v' in call:
            return [(st, ('c', int(call['v'])))]
        return None

    def within(self, st, v, limit):
        if is_c(v):
            return isinstance(v[1], (int, float)) and v[1] <= limit
        nn = lambda t: True        # unsigned differences that wrap are the business of P02 and P05
        if st.entails_le(v, ('c', limit), nonneg=nn):
            return True
        # a product or difference is bounded when a larger one is
        for w in self.above(v):
            if st.entails_le(w, ('c', limit), nonneg=nn):
                return True
        el = self.element(v)
        for f in st.foralls:
            if el is not None and f[0] == 'forall' and f[2][0] == '<' and any(x == ('bv',) for x in subterms(f[2])):
                a, b = f[2][1:]
                if f[3] and is_c(b) and b[1] <= limit + 1 and self.element(a) == el or not f[3] and is_c(a) and a[1] <= limit and self.element(b) == el:
                    return True
        return False

    def element(self, v):
        if isinstance(v, tuple) and v and v[0] == 'idx':
            return v[1]
        return None

    def above(self, v):
        """values that are at least as large"""
        out = []
        if isinstance(v, tuple) and len(v) == 4 and v[0] == 'op':
            if v[1] in ('-', '/', '>>', '&'):
                out.append(v[2])
                out.extend(self.above(v[2]))
            elif v[1] == '*':
                for x in self.above(v[2]):
                    out.append(self.arith('*', x, v[3]))
                for x in self.above(v[3]):
                    out.append(self.arith('*', v[2], x))
            elif v[1] == '%':
                out += [v[2], v[3]]
        return out


def shifted_vars(f):
    """variables the function takes apart byte by byte"""
    out = set()
    for r in roots(f):
        for n in walk(r):
            if n['k'] == 'bin' and n['op'] in ('>>', '&'):
                for m in walk(n['a']):
                    if m['k'] == 'ref' and 'd' in m:
                        out.add(m['d'])
            if n['k'] == 'asg' and n.get('op') in ('>>=', '>>'):
                for m in walk(n['a']):
                    if m['k'] == 'ref' and 'd' in m:
                        out.add(m['d'])
    return out


ITER64 = re.compile(r'(?:__normal_iterator<|^)(?:const )?(unsigned long|long|unsigned long long|long long)(?: const)? ?\*')


def elem64(t):
    t = t.replace('&', '').strip()
    return bool(ITER64.search(t)) or bool(re.match(r'(?:const )?std::(?:vector|array)<(unsigned long|long)\b', t))


def narrow_elem(t):
    m = re.match(r'(?:const )?std::(?:vector|array|deque|list)<(?:const )?([\w ]+?)[,>]', t) or re.search(r'__normal_iterator<([\w ]+?) ?\*', t) or re.match(r'([\w ]+?) ?\*$', t)
    if m and m.group(1) in MAXV and m.group(1) not in ('double',):
        return m.group(1)
    return None


def sites_of(u, f):
    """candidate narrowing sites of a function: (node, kind, target type)"""
    out = []
    sh = None
    for r in roots(f):
        for n in walk(r):
            if n['k'] == 'cast' and n['ck'] in ('IntegralCast', 'IntegralToFloating'):
                a, b = base(u.ty(n['e'].get('t'))), base(u.ty(n['t']))
                if bits(a) == 64 and a not in FLOAT and b in MAXV and b != 'double':
                    if 'v' in n:
                        out.append((n, 'const', b))
                        continue
                    if BITS[b] == 8:
                        if sh is None:
                            sh = shifted_vars(f)
                        if any(m['k'] == 'ref' and m.get('d') in sh for m in walk(n['e'])):
                            out.append((n, 'byte', b))
                            continue
                    out.append((n, 'conversion', b))
                elif n['ck'] == 'IntegralCast' and bits(b) == 64 and (bits(a) or 64) < 64 and n['e']['k'] == 'bin' and n['e']['op'] in ('*', '<<', '+') and 'v' not in n:
                    out.append((n, 'arithmetic', a))
            elif n['k'] == 'asg' and n['op'] not in ('=', '/=', '>>=', '&=', '%='):
                a, b = base(u.ty(n['a'].get('t'))), base(u.ty(n['b'].get('t')))
                if bits(b) == 64 and b not in FLOAT and a in MAXV and a != 'double' and n['op'] != '<<=':
                    out.append((n, 'compound', a))
            elif n['k'] == 'cast' and n['ck'] == 'FloatingToIntegral' and 'v' not in n:
                if bits(u.ty(n['t'])) == 64:
                    out.append((n, 'float', base(u.ty(n['e'].get('t')))))
            elif n['k'] == 'ctor' and n.get('a') and len(n['a']) >= 2:
                t = narrow_elem(n.get('cls') or '')
                if t and elem64(u.ty(n['a'][0].get('t'))) and elem64(u.ty(n['a'][1].get('t'))):
                    out.append((n, 'container', t))
            elif n['k'] == 'call':
                fn = n.get('fn') or ''
                leaf = fn.rsplit('::', 1)[-1]
                if fn in ('std::copy', 'std::copy_n', 'std::transform', 'std::partial_sum', 'std::copy_backward', 'std::reverse_copy', 'std::move') and len(n['a']) >= 3:
                    ts = [u.ty(a.get('t')) for a in n['a']]
                    if elem64(ts[0]):
                        for t in ts[1:]:
                            e = narrow_elem(t)
                            if e:
                                out.append((n, 'container', e))
                                break
                elif fn.startswith('std::vector') and leaf in ('assign', 'insert') and n['a']:
                    t = narrow_elem(n.get('cls') or '')
                    if t and elem64(u.ty(n['a'][-1].get('t'))):
                        out.append((n, 'container', t))
                elif fn in ('std::accumulate', 'std::reduce', 'std::inner_product') and n['a'] and elem64(u.ty(n['a'][0].get('t'))):
                    t = base(u.ty(n['t']))
                    if t in MAXV:
                        out.append((n, 'sum', t))
                    for a in n['a'][2:]:
                        m = re.match(r'(?:const )?std::(?:multiplies|plus)<([\w ]+)>', u.ty(a.get('t')))
                        if m and m.group(1) in MAXV:
                            out.append((n, 'sum', m.group(1)))
                elif fn in ('memcpy', 'std::memcpy', '__builtin_memcpy') and len(n['a']) == 3:
                    src, dst = strip(n['a'][1]), strip(n['a'][0])
                    sz = n['a'][2]
                    if src['k'] == 'un' and src['op'] == '&' and bits(u.ty(src['e'].get('t'))) == 64 and 'v' in sz and int(sz['v']) < 8:
                        out.append((n, 'bytes', '%s bytes' % sz['v']))
    return out


def loops_of(u, f):
    """loops whose counter is narrower than the 64 bit bound it is compared with"""
    out = []
    for r in roots(f):
        for n in walk(r):
            if n['k'] in ('for', 'while', 'do') and n.get('c'):
                for c in walk(n['c']):
                    if c['k'] == 'bin' and c['op'] in ('<', '<=', '>', '>=', '!='):
                        for a, b in ((c['a'], c['b']), (c['b'], c['a'])):
                            if a['k'] == 'cast' and a['ck'] == 'IntegralCast' and 'v' not in a and bits(u.ty(a['t'])) == 64:
                                v = strip(a)
                                if v['k'] == 'ref' and (bits(u.ty(v['t'])) or 64) < 64 and v.get('d') is not None:
                                    inc = any(m['k'] == 'un' and '++' in m['op'] and strip(m['e']).get('d') == v['d'] or
                                              m['k'] == 'asg' and strip(m['a']).get('d') == v['d'] for m in walk(n))
                                    if inc:
                                        out.append((c, b, base(u.ty(v['t']))))
    return out


def check_unit(chk, u, done):
    og = Origins(u)
    reps = representatives(u, {f['fid']: f for f in u.funcs.values() if mine(f)})
    for f in u.funcs.values():
        if mine(f):
            chk.count('functions analysed')
    for f in reps.values():
        if f.get('pcls') in THREADS:
            continue
        cand, guard = sites_of(u, f), {}
        open_ = {}
        for n, kind, t in cand:
            where = '%s:%s' % (f['file'], n['l'])
            what = '%s: %s to %s' % (f['n'], {'conversion': 'a 64 bit value is converted', 'container': 'a list of 64 bit values is converted', 'arithmetic': 'a value is computed in a narrow type, limited',
                                              'sum': 'a sum or product of 64 bit values is limited', 'bytes': 'a 64 bit value is cut', 'compound': 'a 64 bit value is accumulated in', 'float': 'a size passes through floating point', 'const': 'constant converted', 'byte': 'a byte is taken out'}[kind], t)
            chk.count('narrowing sites')
            ok = kind in ('const', 'byte')
            if kind == 'conversion':
                e = strip(n['e'])
                ok = og.fits(n['e'], MAXV[t], BITS[t]) or e['k'] == 'call' and (e.get('fn') or '').startswith(ELEMCAST) or data_value(u, n['e'])
                if not ok and BITS[t] == 24:
                    # a size that is only reported or compared as a floating point number stays what it is
                    ok = not becomes_size(u, f, n)
            elif kind == 'arithmetic':
                e = n['e']
                if e['op'] == '<<':
                    # a byte or a short moved up inside an int
                    a, b = strip(e['a']), e['b']
                    ok = 'v' in b and ('v' in a or (bits(u.ty(a.get('t'))) or 64) + int(b['v']) <= 31)
                else:
                    ok = all(og.small(x) for x in (e['a'], e['b']))
            elif kind == 'compound':
                ok = og.small(n['b'])
            elif kind == 'float':
                ok = not any(m['k'] == 'cast' and m['ck'] == 'IntegralToFloating' and bits(u.ty(m['e'].get('t'))) == 64 and 'v' not in m and not og.fits(m['e'], 2**16, 16)
                             for m in flow(og, n['e']))
            if ok:
                done.setdefault((where, what), []).append((True, False, ''))
            elif kind in ('conversion', 'container', 'arithmetic'):
                guard[id(n)] = MAXV[t]
                open_[id(n)] = (n, where, what)
            else:
                chk.violate(where, what, 'nothing keeps the value in range')
        for c, b, t in loops_of(u, f):
            chk.count('narrow loop counters')
            where = '%s:%s' % (f['file'], c['l'])
            chk.oblige(og.fits(b, MAXV[t], BITS[t]), where, '%s: a counter of type %s runs up to a bound that fits' % (f['n'], t), 'the bound is a 64 bit value without a limit')
        if guard:
            res = {}

            def report(n, good):
                res.setdefault(id(n), []).append(good)
            it = Guards(u, guard, report)
            tops = [f]
            if not f.get('body'):
                tops = []
            for t in tops:
                try:
                    it.run(t)
                except RecursionError:
                    pass
            for i, (n, where, what) in open_.items():
                r = res.get(i)
                chk.count('paths to guarded conversions', len(r or ()))
                # a site no path reaches (dead code in this instance) has nothing to lose
                good = bool(r) and all(r)
                uncalled = not og.calls.get(f['fid'])      # nothing is known about its arguments in this unit
                done.setdefault((where, what), []).append((good, uncalled, 'no comparison on the path keeps the value in range' if r else 'no path to the conversion was found'))


def flow(og, n, seen=None):
    """the nodes of an expression and of the definitions of the local variables in it"""
    seen = seen if seen is not None else set()
    for m in walk(n):
        yield m
        if m['k'] == 'ref' and m.get('d') is not None and m['d'] not in seen and m.get('dk') == 'local':
            seen.add(m['d'])
            for x in og.defs.get(m['d'], ()):
                if x is not None:
                    yield from flow(og, x, seen)


def becomes_size(u, f, n):
    """is the function turning floating point numbers back into integers?"""
    return any(m['k'] == 'cast' and m['ck'] == 'FloatingToIntegral' and 'v' not in m for r in roots(f) for m in walk(r))


def data_value(u, e):
    """the value of an array element or attribute, not a size: converted out of a Python object or JSON value"""
    e = strip(e)
    while e['k'] == 'call' and (e.get('fn') or '').startswith('std::') and e.get('a') and e['fn'] in ('std::move', 'std::forward'):
        e = strip(e['a'][0])
    return e['k'] == 'call' and (e.get('fn') or '').startswith(ELEMCAST)


JSON_NARROW = re.compile(r'nlohmann::basic_json')


def json_reads(chk, u):
    """lists of numbers in stored documents are read as 64 bit values"""
    for f in u.funcs.values():
        if not mine(f):
            continue
        for r in roots(f):
            for n in walk(r):
                if n['k'] == 'call' and (n.get('fn') or '').startswith('nlohmann::') and n['fn'].rsplit('::', 1)[-1] in ('get', 'get_to', 'value', 'operator type-parameter-0-0', 'get_ptr'):
                    t = u.ty(n['t'])
                    if t.startswith('std::vector<') or t.startswith('std::array<'):
                        chk.count('lists read from JSON')
                        e = narrow_elem(t)
                        chk.oblige(e is None, '%s:%s' % (f['file'], n['l']), '%s: a list of numbers is read from JSON with 64 bit elements' % f['n'], 'elements of type %s' % e)


def python_side(chk):
    NARROW = {'int8', 'int16', 'int32', 'uint8', 'uint16', 'uint32', 'float32', 'float16', 'intc', 'uintc', 'single', 'half', 'short', 'ushort'}
    for mod, (p, tree) in pysrc.modules().items():
        for n in ast.walk(tree):
            if isinstance(n, ast.Call):
                chk.count('python calls')
                d = pysrc.dotted(n.func) or ''
                if d.split('.')[0] in ('np', 'numpy') and d.split('.')[-1] in NARROW:
                    chk.violate('%s:%d' % (p, n.lineno), 'a Python number is converted to %s' % d, '')
                if d.split('.')[-1] == 'astype' and n.args and (pysrc.dotted(n.args[0]) or '').split('.')[-1] in NARROW:
                    chk.violate('%s:%d' % (p, n.lineno), 'an array is converted to %s' % pysrc.dotted(n.args[0]), '')


def main():
    chk = Check('P18', 'every conversion of a 64 bit integer to a narrower type, every narrow intermediate result and every narrow loop counter is justified by the origin of the value or by a comparison that dominates it')
    units = facts.load(['core', 'core_s3', 'py_attributes', 'py_dataset', 'py_factory', 'py_handles', 'py_util'])
    done = {}
    for n, u in units.items():
        check_unit(chk, u, done)
        json_reads(chk, u)
    for (where, what), rs in done.items():
        known = [r for r in rs if not r[1]] or rs
        bad = [r for r in known if not r[0]]
        chk.oblige(not bad, where, what, bad[0][2] if bad else '')
    python_side(chk)
    chk.minimum('functions analysed', 500)
    chk.minimum('narrowing sites', 8)
    chk.assumptions += ['the rank of an array (the length of a list of extents) is below 2^15',
                        'numbers of threads fit into int', 'element values converted from Python are data, not sizes',
                        'unsigned subtraction does not wrap (P02, P05)']
    chk.finish()


if __name__ == '__main__':
    main()
