"""P17: the Python indexing layer, abstractly interpreted for every index form over symbolic sizes and positions.
Each path's linear constraints are compared with the piecewise definition of NumPy's selection rules."""
import ast, itertools, sys
import common, pysrc, pyabs
from pyabs import Lin, I, S, K, Sl, Sym, Arr, Fn, Ref, State, NONE, ELL, Undecided, Inst, Cls, Ty, feasible

NATIVE = ('read_subarray', 'write_subarray', 'write_scalar')


class Ix(pyabs.Interp):
    def __init__(self, mods, ndim):
        super().__init__(mods)
        self.sizes = [S('n%d' % d) for d in range(ndim)]

    def field(self, o, a, st):
        return Sym('self.' + a)

    def sym_attr(self, o, a, st):
        if o.name == 'self._impl' and a == 'shape':
            return [(st, self.tup(st, self.sizes))]
        return super().sym_attr(o, a, st)

    def native(self, f, args, kw, st, n):
        name = f.n if isinstance(f, Ty) else f.name if isinstance(f, Sym) else ''
        leaf = name.split('.')[-1]
        if '_z5py' in name and leaf in NATIVE:
            s = st.copy()
            s.events.append((leaf, list(args), dict(kw)))
            return [(s, NONE)]
        if name.startswith('self._impl.') or '_z5py' in name:
            s = st.copy()
            s.events.append((leaf, list(args), dict(kw)))
            return [(s, Sym('result of %s' % leaf))]
        if leaf in ('empty', 'zeros', 'ones', 'full') and name.startswith('np'):
            sh = args[0] if args else kw['shape']
            xs = self.items(st, sh) if isinstance(sh, Ref) else [sh]
            if not all(isinstance(x, Lin) for x in xs):
                return self.fail(st, 'TypeError')
            out, cur = [], [st]
            for x in xs:
                nx = []
                for s in cur:
                    for s2, neg in self.compare_lin('<', x, I(0), s):
                        if neg:
                            out += self.fail(s2, 'ValueError')
                        else:
                            nx.append(s2)
                cur = nx
            return out + [(s, Arr(xs, ('new', len(s.events)))) for s in cur]
        if leaf in ('asarray', 'require', 'ascontiguousarray', 'array', 'asanyarray') and name.startswith('np') and args:
            v = args[0]
            if isinstance(v, Arr):
                return [(st, Arr(v.shape, v.src))]
            return [(st, Arr([Sym('?')], ('converted', v)))]
        if name in ('np.moveaxis', 'np.transpose'):
            raise Undecided(name)
        return None

    def arr_index(self, o, k, st):
        ks = self.items(st, k) if isinstance(k, Ref) else [k]
        if len(ks) == len(o.shape) and all(isinstance(x, Sl) and x.s in (NONE, I(1)) for x in ks):
            # NumPy's own slicing of a user's array; the extents are left unknown unless the slice is full
            sh = []
            for x, e in zip(ks, o.shape):
                if x.a in (NONE, I(0)) and (x.b == NONE or x.b == e):
                    sh.append(e)
                else:
                    m = S('len%d' % next(pyabs._ids))
                    st = st.copy()
                    st.cons.append(-m)
                    sh.append(m)
            return [(st, Arr(sh, ('index', o, k)))]
        return super().arr_index(o, k, st)


# ------------------------------------------------------------------ specification, one dimension at a time
def pieces(item, n):
    """[(constraints, ('raise',) | ('int', position) | ('empty',) | ('range', start, stop))], covering every value"""
    if isinstance(item, Lin):
        i = item
        return [([i + n + I(1)], ('raise',)), ([n - i], ('raise',)),
                ([-(i + n), i + I(1)], ('int', i + n)), ([-i, i - n + I(1)], ('int', i))]
    a, b = item.a, item.b
    if a == NONE:
        A = [([], I(0))]
    else:
        A = [([a + n + I(1)], None), ([n - a], None), ([-(a + n), a + I(1)], a + n), ([-a, a - n + I(1)], a)]
    if b == NONE:
        B = [([], n)]
    else:
        B = [([n - b + I(1)], n), ([b + I(1)], b + n), ([-b, b - n], b)]
    out = []
    for ca, va in A:
        for cb, vb in B:
            if va is None:
                out.append((ca + cb, ('empty',)))
            else:
                out.append((ca + cb + [vb - va], ('empty',)))
                out.append((ca + cb + [va - vb + I(1)], ('range', va, vb)))
    return out


def expand(items, ndim):
    """NumPy's rule for ellipsis and missing dimensions; None if the index must be refused"""
    items = list(items)
    if items.count(ELL) > 1 or len([x for x in items if x != ELL]) > ndim:
        return None
    if ELL not in items:
        items.append(ELL)
    k = items.index(ELL)
    fill = ndim - (len(items) - 1)
    return items[:k] + [Sl(NONE, NONE, NONE)] * fill + items[k + 1:]


def combos(items, sizes):
    for cs in itertools.product(*[pieces(x, n) for x, n in zip(items, sizes)]):
        yield [c for p in cs for c in p[0]], [p[1] for p in cs]


def region(parts):
    begin = [p[1] if p[0] != 'empty' else None for p in parts]
    ext = [I(1) if p[0] == 'int' else I(0) if p[0] == 'empty' else p[2] - p[1] for p in parts]
    drop = tuple(d for d, p in enumerate(parts) if p[0] == 'int')
    return begin, ext, drop


class Judge:
    def __init__(self, C, where, label):
        self.C, self.where, self.label = C, where, label
        self.bad = False

    def fail(self, what, detail=''):
        self.bad = True
        self.C.violate(self.where, '%s: %s' % (self.label, what), detail)


def eq(cons, x, y):
    if not isinstance(x, Lin) or not isinstance(y, Lin):
        return False
    d = x - y
    if d.const():
        return d.c == 0
    return not feasible(cons + [I(1) - d]) and not feasible(cons + [I(1) + d])


def example(cons):
    return 'when %s' % ' and '.join('%r <= 0' % c for c in cons if not c.const()) if cons else ''


def positions(ix, s, v):
    try:
        return ix.items(s, v)
    except Undecided:
        return None


def native_events(s):
    return [e for e in s.events if e[0] in NATIVE]


def arg(e, i, kw):
    return e[1][i] if len(e[1]) > i else e[2].get(kw)


def shape_of(src):
    return src


def squeezed(v):
    """(original array, set of original axes dropped) for a value derived from an array by squeezing"""
    drop = []
    while isinstance(v, Arr) and isinstance(v.src, tuple) and v.src and v.src[0] == 'index' and isinstance(v.src[2], tuple):
        drop.append(v.src[2])
        v = v.src[1]
    axes = None
    if isinstance(v, Arr):
        axes = list(range(len(v.shape)))
        for d in reversed(drop):
            axes = [x for i, x in enumerate(axes) if i not in d]
    return v, axes


def judge_read(ix, J, results, items, base):
    n = 0
    for s, (o, v) in results:
        evs = native_events(s)
        if items is None:
            n += 1
            if o != 'exc':
                J.fail('an index NumPy refuses is accepted')
            elif evs:
                J.fail('data is read before the index is refused')
            continue
        for cs, parts in combos(items, ix.sizes):
            cons = s.cons + cs
            if not feasible(cons):
                continue
            n += 1
            begin, ext, drop = region_or_none(parts)
            if begin is None:
                if o != 'exc':
                    J.fail('a position outside the dataset is accepted', example(cs))
                elif evs:
                    J.fail('data is read before the index is refused', example(cs))
                continue
            if o == 'exc':
                J.fail('a selection inside the dataset is refused', '%s %s' % (v, example(cs)))
                continue
            empty = any(p[0] == 'empty' for p in parts)
            for e in evs:
                b, a = positions(ix, s, arg(e, 2, 'roiBegin') if arg(e, 2, 'roiBegin') is not None else NONE), arg(e, 1, 'out')
                if empty:
                    if isinstance(a, Arr) and any(eq(cons, x, I(0)) for x in a.shape):
                        continue
                    J.fail('an empty selection reads data', example(cs))
                    continue
                if b is None or not isinstance(a, Arr):
                    raise Undecided('arguments of the native read')
                if len(b) != len(begin) or not all(eq(cons, x, y) for x, y in zip(b, begin)):
                    J.fail('the region read does not start where NumPy\'s does', 'reads at %r, expected %r %s' % (b, begin, example(cs)))
                if len(a.shape) != len(ext) or not all(eq(cons, x, y) for x, y in zip(a.shape, ext)):
                    J.fail('the region read does not have the extent NumPy selects', 'reads %r, expected %r %s' % (a.shape, ext, example(cs)))
            if not evs and not empty:
                J.fail('a non-empty selection reads nothing', example(cs))
                continue
            if len(evs) > 1:
                raise Undecided('several native reads')
            # the result
            src, axes = squeezed(v)
            if len(drop) == len(parts):
                ok = isinstance(v, Arr) and not v.shape or isinstance(v, Sym) or isinstance(src, Arr) and isinstance(src.src, tuple) and src.src and src.src[0] in ('flat', 'scalar')
                if not ok:
                    J.fail('a fully integer-indexed selection does not return a scalar', example(cs))
                continue
            if not isinstance(v, Arr) or not isinstance(src, Arr):
                raise Undecided('result of the read')
            want = [x for d, x in enumerate(ext) if d not in drop]
            if len(v.shape) != len(want) or not all(eq(cons, x, y) for x, y in zip(v.shape, want)):
                J.fail('the result does not have the shape NumPy returns', 'returns %r, expected %r %s' % (v.shape, want, example(cs)))
            elif axes is not None and axes != [d for d in range(len(parts)) if d not in drop]:
                J.fail('the wrong axes are dropped from the result', 'keeps %r %s' % (axes, example(cs)))
            if evs and isinstance(evs[0][1][1], Arr) and src is not evs[0][1][1] and src.src != evs[0][1][1].src:
                J.fail('the returned array is not the one that was read', example(cs))
    return n


def region_or_none(parts):
    if any(p[0] == 'raise' for p in parts):
        return None, None, None
    return region(parts)


def origin(v, item):
    """is v the item's data, possibly reshaped (element order kept)?"""
    while isinstance(v, Arr):
        if v is item or v.src == item.src:
            return True
        if isinstance(v.src, tuple) and v.src and v.src[0] == 'reshape':
            v = v.src[1]
        else:
            return False
    return False


def judge_write(ix, J, results, items, item):
    n = 0
    for s, (o, v) in results:
        evs = native_events(s)
        if items is None:
            n += 1
            if o != 'exc':
                J.fail('an index NumPy refuses is accepted')
            elif evs:
                J.fail('data is written before the index is refused')
            continue
        for cs, parts in combos(items, ix.sizes):
            cons = s.cons + cs
            if not feasible(cons):
                continue
            n += 1
            begin, ext, drop = region_or_none(parts)
            if begin is None:
                if o != 'exc':
                    J.fail('a position outside the dataset is accepted', example(cs))
                elif evs:
                    J.fail('data is written before the index is refused', example(cs))
                continue
            empty = any(p[0] == 'empty' for p in parts)
            match = None
            if isinstance(item, Arr):
                mc = []
                if len(item.shape) == len(ext):
                    for x, y in zip(item.shape, ext):
                        mc += [x - y, y - x]
                    match = mc
            if o == 'exc':
                if not isinstance(item, Arr):
                    J.fail('a scalar for a selection inside the dataset is refused', '%s %s' % (v, example(cs)))
                elif match is not None and not empty and feasible(cons + match) and not s.facts:
                    J.fail('an array of the selected shape is refused', '%s %s' % (v, example(cs)))
                continue
            if empty:
                for e in evs:
                    J.fail('an empty selection writes data', example(cs))
                continue
            if not evs:
                J.fail('a non-empty selection writes nothing', example(cs))
                continue
            if len(evs) > 1:
                raise Undecided('several native writes')
            e = evs[0]
            if e[0] == 'write_scalar':
                if isinstance(item, Arr):
                    J.fail('an array is written as a scalar', example(cs))
                    continue
                b, sh, w = positions(ix, s, e[1][1]), positions(ix, s, e[1][2]), e[1][3]
                if w != item:
                    J.fail('the scalar written is not the one assigned', example(cs))
            else:
                a = e[1][1]
                b, sh = positions(ix, s, e[1][2]), list(a.shape) if isinstance(a, Arr) else None
                if not isinstance(item, Arr):
                    raise Undecided('array written for a scalar')
                if not origin(a, item):
                    if isinstance(a, Arr) and isinstance(a.src, tuple) and a.src and a.src[0] in ('index', 'flat', 'new'):
                        J.fail('the array written is not the one assigned', example(cs))
                    else:
                        raise Undecided('array written')
            if b is None or sh is None:
                raise Undecided('arguments of the native write')
            if len(b) != len(begin) or not all(eq(cons, x, y) for x, y in zip(b, begin)):
                J.fail('the region written does not start where NumPy\'s does', 'writes at %r, expected %r %s' % (b, begin, example(cs)))
            if len(sh) != len(ext) or not all(eq(cons, x, y) for x, y in zip(sh, ext)):
                J.fail('the region written does not have the extent NumPy selects', 'writes %r, expected %r %s' % (sh, ext, example(cs)))
    return n


def main():
    C = common.Check('P17', 'abstract interpretation of the Python indexing code over affine expressions and linear constraints; every path compared with '
                            'a piecewise-linear definition of NumPy\'s selection')
    mods = pysrc.modules()
    ds = [n for n in mods['dataset'][1].body if isinstance(n, ast.ClassDef) and n.name == 'Dataset'][0]
    fn = {n.name: n for n in ds.body if isinstance(n, ast.FunctionDef)}

    def setup(ndim):
        ix = Ix(mods, ndim)
        st = State()
        st.cons += [-x for x in ix.sizes]
        o = Inst(Cls(ds, 'dataset'), 'self')
        return ix, st, o

    def index(ix, st, form):
        """a fresh index value and the per-item list it denotes"""
        xs = list(form)
        if len(xs) == 1 and not isinstance(form, list):
            return xs[0], xs
        return ix.tup(st, xs), xs

    i0, a0, b0, i1, a1, b1 = [S(x) for x in ('i0', 'a0', 'b0', 'i1', 'a1', 'b1')]
    full = Sl(NONE, NONE, NONE)
    s_ab, s_a, s_b = Sl(a0, b0, NONE), Sl(a0, NONE, NONE), Sl(NONE, b0, NONE)
    forms1 = [((i0,), 'an integer'), ([i0], 'a tuple with one integer'), ((s_ab,), 'a slice'), ((s_a,), 'a slice without end'), ((s_b,), 'a slice without start'),
              ((full,), 'a full slice'), ((Sl(a0, b0, I(1)),), 'a slice with step 1'), ((ELL,), 'an ellipsis'), ([ELL, i0], 'an ellipsis and an integer'),
              ([s_ab, ELL], 'a slice and an ellipsis'), ([], 'an empty tuple')]
    forms2 = [((i0,), 'an integer in 2-d'), ((s_ab,), 'a slice in 2-d'), ((ELL,), 'an ellipsis in 2-d'), ([i0, i1], 'two integers'), ([i0, Sl(a1, b1, NONE)], 'an integer and a slice'),
              ([s_a, i1], 'a slice and an integer'), ([s_ab, Sl(a1, NONE, NONE)], 'two slices'), ([ELL, i0], 'an ellipsis and an integer in 2-d'), ([i0, ELL], 'an integer and an ellipsis in 2-d'),
              ([ELL, Sl(NONE, b0, NONE)], 'an ellipsis and a slice in 2-d'), ([full, full], 'two full slices'), ([i0, ELL, i1], 'an ellipsis between two integers')]
    forms3 = [([i0, ELL, i1], 'an ellipsis between two integers in 3-d'), ([ELL, i0], 'an ellipsis and an integer in 3-d'), ([i0, ELL], 'an integer and an ellipsis in 3-d'),
              ([full, i0, full], 'an integer in the middle'), ([i0, Sl(NONE, b0, NONE), ELL], 'an integer, a slice and an ellipsis'), ([s_a, ELL], 'a slice and an ellipsis in 3-d'),
              ([full, i0, i1], 'two integers at the end')]
    F = Sym('f', 'float')
    refused = [([i0, i1], 1, 'two integers in 1-d'), ([full, full, full], 2, 'three slices in 2-d'), ([ELL, ELL], 2, 'two ellipses'), ([i0, ELL, ELL], 3, 'an integer and two ellipses'),
               ((F,), 1, 'a float'), ([F, full], 2, 'a float in a tuple'), ((K(True),), 1, 'True'), ((K(False),), 1, 'False'), ([K(True), full], 2, 'True in a tuple'), ((NONE,), 1, 'None'),
               ([NONE, i0], 2, 'None in a tuple'), ((K('x'),), 1, 'a string'), ((Sym('o', 'object'),), 1, 'an arbitrary object'),
               ((Sym('npb', 'npbool'),), 1, 'a NumPy bool'), ((Sym('c', 'complex'),), 1, 'a complex number'),
               ((Sl(a0, b0, S('k')),), 1, 'a slice with another step', [[S('k') - I(0)], [I(2) - S('k')]]),
               ((Sl(NONE, NONE, I(-1)),), 1, 'a reversed slice'), ((Sl(NONE, NONE, I(2)),), 1, 'a slice with step 2'), ((Sl(NONE, b0, I(0)),), 1, 'a slice with step 0')]
    refused_arr = [('list', 'a list'), ('arr', 'an array')]

    allforms = [(f, 1, t) for f, t in forms1] + [(f, 2, t) for f, t in forms2] + [(f, 3, t) for f, t in forms3]

    def run(name, ndim, form, label, extra, judge, mkargs):
        where = '%s:%s' % (common.rel(mods['dataset'][0]), name)
        ix, st, o = setup(ndim)
        st.cons += extra
        idx, items = index(ix, st, form)
        J = Judge(C, 'dataset.py %s' % name, label)
        try:
            args = mkargs(ix, st, idx)
            res = ix.run(Fn(fn[name], 'dataset', None, o, Cls(ds, 'dataset')), args, st)
            n = judge(ix, J, res, items, args)
        except Undecided as e:
            C.notes.append('%s, %s: not decided (%s)' % (name, label, e))
            C.count('undecided index forms')
            return
        C.count('index forms of %s' % name)
        C.count('paths', len(res))
        C.count('path and selection cases', n)
        if not J.bad:
            C.discharge('dataset.py %s' % name, label)

    def spec(items, ndim):
        e = expand(items, ndim)
        return e

    # ---- reading
    for form, ndim, label in allforms:
        run('__getitem__', ndim, form, label, [], lambda ix, J, res, items, args: judge_read(ix, J, res, spec(items, ndim), None), lambda ix, st, idx: [idx])
    for r in refused:
        form, ndim, label = r[:3]
        for ex in (r[3] if len(r) > 3 else [[]]):
            run('__getitem__', ndim, form, label, ex, lambda ix, J, res, items, args: judge_read(ix, J, res, None, None), lambda ix, st, idx: [idx])
    for kind, label in refused_arr:
        run('__getitem__', 1, (full,), label, [], lambda ix, J, res, items, args: judge_read(ix, J, res, None, None),
            lambda ix, st, idx: [ix.new(st, 'list', [I(0)]) if kind == 'list' else Arr([S('m')], 'index array')])

    # ---- writing
    writes = [(f, d, t) for f, d, t in allforms if d < 3 or t.startswith('an ellipsis between')]
    for form, ndim, label in writes:
        for item, il in ((Sym('x', 'float'), 'float'), (S('v'), 'int')):
            run('__setitem__', ndim, form, label + ' = ' + il, [], lambda ix, J, res, items, args: judge_write(ix, J, res, spec(items, ndim), item), lambda ix, st, idx: [idx, item])
    for form, ndim, label in [((s_ab,), 1, 'a slice'), ((full,), 1, 'a full slice'), ((i0,), 1, 'an integer'), ([s_a, full], 2, 'two slices'), ([i0, Sl(NONE, b1, NONE)], 2, 'an integer and a slice')]:
        item = Arr([S('m%d' % d) for d in range(ndim)], 'item')
        run('__setitem__', ndim, form, label + ' = array', [-x for x in item.shape], lambda ix, J, res, items, args: judge_write(ix, J, res, spec(items, ndim), item), lambda ix, st, idx: [idx, item])
    for r in refused:
        form, ndim, label = r[:3]
        for ex in (r[3] if len(r) > 3 else [[]]):
            run('__setitem__', ndim, form, label + ' = float', ex, lambda ix, J, res, items, args: judge_write(ix, J, res, None, None), lambda ix, st, idx: [idx, Sym('x', 'float')])
    for kind, label in refused_arr:
        run('__setitem__', 1, (full,), label + ' = float', [], lambda ix, J, res, items, args: judge_write(ix, J, res, None, None),
            lambda ix, st, idx: [ix.new(st, 'list', [I(0)]) if kind == 'list' else Arr([S('m')], 'index array'), Sym('x', 'float')])

    direct(C, mods, ds, fn, setup)
    reshape_rule(C, mods)
    C.minimum('index forms of __getitem__', 25)
    C.minimum('index forms of __setitem__', 25)
    C.assumptions += ['NumPy: np.empty raises for negative extents, squeeze(axes) drops those axes, reshape keeps element order, slicing of the user\'s own arrays',
                      'the bindings take positions as unsigned 64-bit integers, so a negative position raises (nanobind)',
                      'a slice that starts before the first element selects nothing (the tests of z5py require it)']
    C.finish()


def direct(C, mods, ds, fn, setup):
    """read_subarray / write_subarray / read_direct / write_direct / read_chunk / write_chunk"""
    cls = Cls(ds, 'dataset')

    def go(name, label, ndim, mk, judge):
        ix, st, o = setup(ndim)
        J = Judge(C, 'dataset.py %s' % name, label)
        try:
            args = mk(ix, st)
            res = ix.run(Fn(fn[name], 'dataset', None, o, cls), args, st)
            for s, (oc, v) in res:
                judge(ix, J, s, oc, v, args)
        except Undecided as e:
            C.notes.append('%s: not decided (%s)' % (name, e))
            C.count('undecided index forms')
            return
        C.count('direct accesses')
        C.count('paths', len(res))
        if not J.bad:
            C.discharge('dataset.py %s' % name, label)

    for nd in (1, 2):
        start, stop = [S('s%d' % d) for d in range(nd)], [S('t%d' % d) for d in range(nd)]

        def j_read(ix, J, s, oc, v, args):
            evs = native_events(s)
            inside = s.cons + [-x for x in start] + [a - b for a, b in zip(start, stop)] + [b - n for b, n in zip(stop, ix.sizes)]
            if oc == 'exc':
                if feasible(inside + [a - b + I(1) for a, b in zip(start, stop)]):
                    J.fail('a region inside the dataset is refused')
                return
            for e in evs:
                b, a = positions(ix, s, e[1][2]), e[1][1]
                if b is None or not isinstance(a, Arr):
                    raise Undecided('arguments')
                if not all(eq(s.cons, x, y) for x, y in zip(b, start)) or len(b) != nd:
                    J.fail('the region read does not start at the requested position', repr(b))
                if not all(eq(s.cons, x, q - p) for x, p, q in zip(a.shape, start, stop)) or len(a.shape) != nd:
                    J.fail('the region read does not end at the requested position', repr(a.shape))
            if not evs and feasible(inside + [a - b + I(1) for a, b in zip(start, stop)]):
                J.fail('nothing is read')
            if evs and (not isinstance(v, Arr) or v.src != evs[0][1][1].src):
                if isinstance(v, Arr):
                    J.fail('the returned array is not the one that was read')
        go('read_subarray', '%d-d' % nd, nd, lambda ix, st: [ix.tup(st, start), ix.tup(st, stop)], j_read)

        data = Arr([S('m%d' % d) for d in range(nd)], 'data')

        def j_write(ix, J, s, oc, v, args):
            evs = native_events(s)
            if oc == 'exc':
                return
            if not evs:
                if feasible(s.cons + [I(1) - x for x in data.shape]):
                    J.fail('nothing is written')
                return
            for e in evs:
                b, a = positions(ix, s, e[1][2]), e[1][1]
                if b is None or not isinstance(a, Arr):
                    raise Undecided('arguments')
                if len(b) != nd or not all(eq(s.cons, x, y) for x, y in zip(b, start)):
                    J.fail('the region written does not start at the requested position', repr(b))
                if not origin(a, data) or len(a.shape) != nd or not all(eq(s.cons, x, y) for x, y in zip(a.shape, data.shape)):
                    J.fail('the data written is not the data given', repr(a.shape))

        def mk_w(ix, st):
            st.cons += [-x for x in data.shape]
            return [ix.tup(st, start), data]
        go('write_subarray', '%d-d' % nd, nd, mk_w, j_write)

        # read_direct / write_direct with and without selections
        sel_ds = [Sl(S('a%d' % d), S('b%d' % d), NONE) for d in range(nd)]
        sel_np = [Sl(S('c%d' % d), S('e%d' % d), NONE) for d in range(nd)]
        for use_ds in (False, True):
            for use_np in (False, True):
                dest = Arr([S('q%d' % d) for d in range(nd)], 'dest')
                items = sel_ds if use_ds else [Sl(NONE, NONE, NONE)] * nd
                label = '%d-d, %s dataset selection, %s array selection' % (nd, 'with' if use_ds else 'no', 'with' if use_np else 'no')

                def is_sel(ix, s, key):
                    ks = positions(ix, s, key) if isinstance(key, Ref) else [key]
                    if ks is None:
                        raise Undecided('selection')
                    if use_np:
                        return len(ks) == nd and all(isinstance(k, Sl) and k.a == w.a and k.b == w.b and k.s in (NONE, I(1)) for k, w in zip(ks, sel_np))
                    if ks == [ELL] or not ks:
                        return True
                    return len(ks) <= nd and all(k == ELL or isinstance(k, Sl) and k.a in (NONE, I(0)) and (k.b == NONE or k.b == q) for k, q in zip(ks, dest.shape))

                def j_rd(ix, J, s, oc, v, args):
                    if oc == 'exc':
                        return
                    stores = [e for e in s.events if e[0] == 'store' and isinstance(e[1], Arr) and e[1].src == 'dest']
                    if len(stores) != 1:
                        if not stores:
                            if any(feasible(s.cons + cs) for cs, parts in combos(items, ix.sizes) if all(p[0] == 'range' for p in parts)):
                                J.fail('the data read is not stored in the destination')
                            return
                        raise Undecided('several stores')
                    if not is_sel(ix, s, stores[0][2]):
                        J.fail('the data read is not stored at the selected place of the destination', repr(stores[0][2]))
                    w = stores[0][3]
                    evs = native_events(s)
                    for e in evs:
                        a, b = e[1][1], positions(ix, s, e[1][2])
                        if not isinstance(w, Arr) or not isinstance(a, Arr) or w.src != a.src:
                            J.fail('the array stored in the destination is not the one that was read')
                        for cs, parts in combos(items, ix.sizes):
                            cons = s.cons + cs
                            if not feasible(cons):
                                continue
                            begin, ext, _ = region_or_none(parts)
                            if any(p[0] == 'empty' for p in parts):
                                J.fail('an empty selection reads data')
                            elif not all(eq(cons, x, y) for x, y in zip(b, begin)) or not all(eq(cons, x, y) for x, y in zip(a.shape, ext)):
                                J.fail('the region read is not the selected one', 'reads %r + %r, expected %r + %r' % (b, a.shape, begin, ext))
                    if not evs:
                        for cs, parts in combos(items, ix.sizes):
                            if all(p[0] == 'range' for p in parts) and feasible(s.cons + cs):
                                J.fail('the selected region is not read')

                def mk_rd(ix, st):
                    st.cons += [-x for x in dest.shape]
                    return [dest, ix.tup(st, sel_ds) if use_ds else NONE, ix.tup(st, sel_np) if use_np else NONE]
                go('read_direct', label, nd, mk_rd, j_rd)

                def j_wd(ix, J, s, oc, v, args):
                    if oc == 'exc':
                        return
                    evs = native_events(s)
                    for cs, parts in combos(items, ix.sizes):
                        cons = s.cons + cs
                        if not feasible(cons):
                            continue
                        begin, ext, _ = region_or_none(parts)
                        if any(p[0] == 'empty' for p in parts):
                            if evs:
                                J.fail('an empty selection writes data')
                            continue
                        if not evs:
                            J.fail('the selected region is not written')
                            continue
                        for e in evs:
                            a, b = e[1][1], positions(ix, s, e[1][2])
                            if b is None or not isinstance(a, Arr):
                                raise Undecided('arguments')
                            src = a
                            while isinstance(src, Arr) and isinstance(src.src, tuple) and src.src[0] == 'reshape':
                                src = src.src[1]
                            if isinstance(src, Arr) and isinstance(src.src, tuple) and src.src[0] == 'index' and isinstance(src.src[1], Arr) and src.src[1].src == 'dest':
                                if not is_sel(ix, s, src.src[2]) if isinstance(src.src[2], Ref) else use_np:
                                    J.fail('the data written is not the selected part of the source', repr(src.src[2]))
                            elif isinstance(src, Arr) and src.src == 'dest':
                                if use_np:
                                    J.fail('the data written ignores the selection in the source')
                            else:
                                raise Undecided('data written')
                            if not all(eq(cons, x, y) for x, y in zip(b, begin)) or len(b) != nd:
                                J.fail('the region written does not start at the selected place', repr(b))
                            if len(a.shape) != nd or not all(eq(cons, x, y) for x, y in zip(a.shape, ext)):
                                J.fail('the region written is not the selected one', 'writes %r, expected %r' % (a.shape, ext))

                def mk_wd(ix, st):
                    st.cons += [-x for x in dest.shape]
                    return [dest, ix.tup(st, sel_np) if use_np else NONE, ix.tup(st, sel_ds) if use_ds else NONE]
                go('write_direct', label, nd, mk_wd, j_wd)

    # chunk access hands positions and data over unchanged
    for name, args in (('read_chunk', 1), ('write_chunk', 2), ('chunk_exists', 1)):
        ci = [S('p0'), S('p1')]

        def j_chunk(ix, J, s, oc, v, a):
            if oc == 'exc':
                return
            evs = [e for e in s.events if e[0] != 'store']
            hit = False
            for e in evs:
                vals = list(e[1]) + list(e[2].values())
                for x in vals:
                    p = positions(ix, s, x) if isinstance(x, Ref) else None
                    if p and len(p) == 2 and all(isinstance(q, Lin) for q in p):
                        hit = True
                        if p != ci:
                            J.fail('the chunk addressed is not the one asked for', repr(p))
                    if isinstance(x, Arr) and not origin(x, Arr(x.shape, 'chunk')):
                        J.fail('the chunk data written is not the data given')
            if evs and not hit:
                raise Undecided('chunk position')
        go(name, 'chunk position', 2, lambda ix, st: [ix.tup(st, ci)] + ([Arr([S('m0'), S('m1')], 'chunk')] if args > 1 else []), j_chunk)


def reshape_rule(C, mods):
    """every reshape / transposition of user data in the package keeps the element order"""
    for m, (path, tree) in mods.items():
        for q, f in pysrc.functions(tree):
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('reshape', 'ravel', 'flatten'):
                    bad = [k for k in n.keywords if k.arg == 'order' and not (isinstance(k.value, ast.Constant) and k.value.value == 'C')]
                    C.count('reshapes')
                    C.oblige(not bad, '%s %s' % (path, q), 'reshaping keeps the element order')


if __name__ == '__main__':
    main()
