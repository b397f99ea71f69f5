"""P13: an error in a worker thread reaches the caller, after all work has ended; every item is handled exactly once."""
import re
import facts, pool
from common import Check, rel
from graph import Graph
from absint import *
from facts import walk


def leaf(x):
    return str(x).rsplit('::', 1)[-1]


def unver(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'ver':
        return unver(t[1])
    return tuple(unver(x) for x in t)


def future_class(n):
    return str(n.get('fn') or '').startswith('std::') and 'future' in str(n.get('fn') or '') + str(n.get('cls') or '')


class Par(Interp):
    """follows the tasks that are started, the futures that are kept and the futures that are waited for"""
    CAP = 40
    implicit_exc = False
    any_exc = True
    passes = frozenset()

    def __init__(self, u, C, f, inl):
        super().__init__(u)
        self.C, self.f, self.inl = C, f, inl
        self.loops = []         # of the function itself: (head, ends, brks, exits)
        self.tasks = {}
        self.adv = {}           # value after a counting loop -> (value before, number of steps)
        self.where0 = '%s:%d' % (f['file'], f['l'])

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    def oblige(self, ok, node, what, detail=''):
        if self.report_ok():
            self.C.oblige(ok, self.where(node) if node else self.where0, what, detail)

    def model(self, st, name, n, obj, vs):
        lf = leaf(name)
        if lf in ('enqueue', 'enqueueReturning') and len(vs) == 1:
            s = st.copy()
            lam = self.val(s, vs[0])
            i = s.tags.get(('enqueued',), 0) + 1
            s.tags[('enqueued',)] = i
            s.tags[('may', 'started')] = True
            fut = ('u', 'res', next(self.uid), 'future')
            s.tags[('lam',)] = lam
            s.tags[('open', fut)] = n['l']
            if lam[0] == 'lam':
                self.escapes(s, lam, n)
                if self.report_ok():
                    self.C.count('task starts')
                s.tags[('covers',)] = self.coverage(s, lam, n)
            return [(s, fut)]
        if lf in ('emplace_back', 'push_back') and obj is not None and len(vs) == 1:
            v = self.val(st, vs[0])
            if ('open', v) in st.tags:
                del st.tags[('open', v)]
                st.tags[('may', 'kept', unver(obj))] = True
                return None
        if future_class(n) and lf in ('get', 'wait') and obj is not None:
            s = st.copy()
            o = unver(self.rd(s, obj) if obj[0] == 'v' and self.rd(s, obj)[0] == 'idx' else obj)
            s.tags[('waited',)] = o
            if lf == 'get':
                t = s.copy()
                t.tags[('failed',)] = n['l']
                self.thr.append((t, ('exc', None)))
            return [(s, VOID)]
        if leaf(name) == 'advance' and len(vs) == 2:
            s = st.copy()
            self.wr(s, vs[0], self.arith('+', self.val(s, vs[0]), self.val(s, vs[1])), n)
            return [(s, VOID)]
        if n.get('op') in ('==', '!=') and 'exception_ptr' in str(name) + ''.join(self.u.ty(a.get('t', -1)) for a in n['a']):
            a = [self.val(st, v) for v in ([obj] if obj is not None else []) + list(vs)]
            isnull = lambda x: x == ('c', None) or (x[0] == 'new' and (len(x) <= 3 or ('c', None) in x)) or x == ('c', 0)
            x = [y for y in a if not isnull(y)]
            if len(x) <= 1:
                t = mk_cmp('==', x[0], ('c', None)) if x else ('c', True)
                return [(st, t if n['op'] == '==' else mk_not(t))]
        if n.get('op') in ('+=', '++', '-=', '--') and obj is not None and 'vector' not in str(n.get('cls')) and str(n.get('fn')).find('terator') >= 0:
            s = st.copy()
            old = self.val(s, obj)
            self.wr(s, obj, self.arith(n['op'][0], old, self.val(s, vs[0]) if n['op'][1] == '=' and vs else ('c', 1)), n)
            return [(s, obj if n['op'][1] == '=' or not vs else old)]
        if n.get('op') == '[]' and obj is not None and str(n.get('fn')).find('terator') >= 0:
            return [(st, ('item', self.val(st, obj), self.val(st, vs[0])))]
        if n.get('op') == '*' and str(n.get('fn')).find('terator') >= 0 and obj is not None:
            return [(st, ('item', self.val(st, obj), ('c', 0)))]
        if n.get('op') in ('==', '!=') and str(n.get('fn')).find('terator') >= 0 or (n.get('op') in ('==', '!=') and len(vs) + (obj is not None) == 2 and str(n.get('fn')).startswith('std::operator')):
            a = [self.val(st, v) for v in ([obj] if obj is not None else []) + list(vs)]
            t = ('==',) + tuple(sorted(a, key=repr))
            return [(st, t if n['op'] == '==' else mk_not(t))]
        return None

    def cur(self, k, s):
        return s.store.get(k, k)

    # ---- what a task may refer to
    def escapes(self, s, lam, n):
        node = self.lams[lam][0]
        assigned = self.reassigned()
        for c in node['caps']:
            if c.get('ref') and c.get('ic'):
                bad = any(x['k'] == 'call' and x.get('op') == '*' and 'istream' in str(x.get('cls')) for x in walk(c['init']))
                self.oblige(not bad, node, 'a task holds no reference to what changes or ends before the task does', '%s refers to what the iterator holds' % c['n'])
            elif c.get('ref') and 'd' in c:
                loc = self.frame.env.get(c['d'])
                inner = isinstance(loc, tuple) and loc[0] == 'v' and c['d'] in self.body_decls()
                self.oblige(not inner and c['d'] not in assigned, node, 'a task holds no reference to what changes or ends before the task does',
                            '%s is captured by reference' % c['n'])

    def reassigned(self):
        out = set()
        for l in walk(self.f['body']):
            if l['k'] in ('while', 'for', 'do', 'rfor'):
                for x in walk(l):
                    if x['k'] == 'lambda':
                        continue
                    t = None
                    if x['k'] == 'asg' or (x['k'] == 'un' and x.get('op') in ('++', '--', 'post++', 'post--')):
                        t = x.get('a', x.get('e'))
                        t = t if isinstance(t, dict) else (t[0] if t else None)
                        t = x.get('a') if isinstance(x.get('a'), dict) else t
                    elif x['k'] == 'call' and x.get('op') in ('+=', '-=', '++', '--', '='):
                        t = x.get('o') or (x['a'][0] if x.get('a') else None)
                    if isinstance(t, dict) and t.get('k') == 'ref':
                        out.add(t['d'])
        return out

    def body_decls(self):
        return {v['d'] for l in walk(self.f['body']) if l['k'] in ('while', 'for', 'do', 'rfor') for x in walk(l['body']) if x['k'] == 'decl' for v in x['v']}

    # ---- which items a task handles
    def coverage(self, s, lam, n):
        """(first item, number of items) or None"""
        t = Task(self)
        return t.run_task(s, lam, n)

    # ---- loops
    def one_iter(self, st, cond, body, inc, pre, post_cond):
        drop = [('waited',), ('failed',)]
        starts = any(x['k'] == 'call' and (leaf(x.get('fn')) in ('enqueue', 'enqueueReturning') or x.get('fid') in self.passes) for x in walk(body))
        if starts:
            drop += [('enqueued',), ('covers',), ('lam',)]
        for k in drop:
            st.tags.pop(k, None)
        r = super().one_iter(st, cond, body, inc, pre, post_cond)
        if starts and self.report_ok() and len(self.frames) == 1:
            self.loops.append((st, r[0], r[1], r[3], body))
        return r

    def inductions(self, entry, head, changed, ends, exits, quant):
        r = super().inductions(entry, head, changed, ends, exits, quant)
        ws = {s.tags.get(('waited',)) for s in ends}
        if ends and len(ws) == 1 and None not in ws:
            w = next(iter(ws))
            if self.complete(w, r, entry, head, changed, ends, exits, quant):
                for s in exits:
                    s.tags[('all waited', w[1] if w[0] == 'idx' else w)] = True
        for i, h in r:
            if i[0] != 'u':
                continue
            for k in changed:
                v = head.store.get(k)
                if v is not None and ends and all(s.store.get(k) == self.arith('+', v, ('c', 1)) for s in ends) and isinstance(k, tuple) and k[0] in ('v', 'par'):
                    self.adv[v] = (self.rd(entry, k), h)
        for s in ends:
            # an error that was caught is kept
            if ('failed',) in s.tags and ws != {None}:
                slots = {k for e in ends for k in e.store if isinstance(k, tuple) and k[0] == 'v' and e.store[k] == ('call', 'std::current_exception')}
                keep = [k for k in slots if s.store.get(k) == ('call', 'std::current_exception') or s.known(mk_cmp('==', s.store.get(k, k), ('c', None))) is False]
                self.oblige(bool(keep), {'l': s.tags[('failed',)]}, 'the error of a task is kept until all tasks have ended', 'it is dropped')
                for k in keep:
                    for x in exits:
                        x.tags[('may', 'kept error', x.store.get(k, k))] = True
        return r

    def complete(self, w, r, entry, head, changed, ends, exits, quant):
        if quant:
            return True
        if w[0] != 'idx':
            return False
        for i, h in r:
            if h[0] == 'call' and leaf(h[1]) == 'size' and unver(h[2]) == w[1]:
                return True
            if h == self.size_of(entry, w[1]) or h == entry.store.get(('size', w[1])):
                return True
        for k in changed:
            e0 = entry.store.get(k)
            if e0 is not None and e0[0] == 'call' and leaf(e0[1]) == 'begin':
                return True
        return False


class Task(Par):
    """the body of one task: which items does it hand to the function of the caller"""

    def __init__(self, par):
        Interp.__init__(self, par.u)
        self.C, self.f, self.inl, self.par = par.C, par.f, par.inl, par
        self.adv, self.where0, self.loops = {}, par.where0, []
        self.calls = []
        self.ind = {}

    def run_task(self, s, lam, n):
        self.frames, self.stack, self.thr = list(self.par.frames), list(self.par.stack), []
        self.lams, self.uid = self.par.lams, self.par.uid
        self.quiet = self.par.quiet
        self.quiet0 = self.quiet
        s = s.copy()
        for k in [k for k in s.tags if isinstance(k, tuple) and k[0] == 'handled']:
            del s.tags[k]
        fn = self.u.funcs.get(lam[1][0])
        if fn is None:
            return None
        self.task = fn
        outs = self.lambda_body(s, lam, fn, [('tid',)] + [self.fresh('larg', p['n']) for p in fn['params'][1:]], n)
        if not self.calls:
            return None
        if self.bad:
            return ('bad', self.bad)
        # every path handles the same range
        res = {c for c in self.calls}
        if len(res) != 1 or None in res:
            return None
        return res.pop()

    bad = None

    def model(self, st, name, n, obj, vs):
        if n.get('op') == '()' and obj is not None and len(vs) >= 2:
            r = self.hand(st, obj, vs)
            if r:
                return r
        return super().model(st, name, n, obj, vs)

    def call_value(self, s, c, n, vs):
        return self.hand(s, c, vs) or super().call_value(s, c, n, vs)

    def hand(self, s, c, vs):
        if c[0] in ('par', 'v', 'f', 'u') and len(vs) >= 2:
            s = s.copy()
            s.tags[('handled',)] = s.tags.get(('handled',), 0) + 1
            s.tags[('item',)] = self.val(s, vs[1])
            if not self.inloop and self.quiet == self.quiet0:
                self.calls.append(self.single(s.tags[('item',)]))
            return [(s, VOID)]
        return None

    inloop = 0

    def single(self, item):
        return ('range', item[1], ('c', 1)) if item[0] == 'item' and item[2] == ('c', 0) else None

    def one_iter(self, st, *a):
        self.inloop += 1
        st.tags.pop(('handled',), None)
        st.tags.pop(('item',), None)
        r = Interp.one_iter(self, st, *a)
        self.inloop -= 1
        return r

    def inductions(self, entry, head, changed, ends, exits, quant):
        r = Interp.inductions(self, entry, head, changed, ends, exits, quant)
        if self.quiet != self.quiet0:
            return r
        hs = {s.tags.get(('handled',), 0) for s in ends}
        if hs == {0} or not ends:
            return r
        if hs != {1}:
            self.bad = 'a pass handles %s items' % ' or '.join(map(str, sorted(hs)))
        items = {s.tags.get(('item',)) for s in ends}
        got = None
        if len(items) == 1:
            it = items.pop()
            if it and it[0] == 'item':
                for i, h in r:
                    if it[2] == i:
                        got = ('range', it[1], h)
                    elif it[2] == ('c', 0) and it[1][0] == 'u':
                        for k in changed:
                            if head.store.get(k) == it[1] and all(s.store.get(k) == self.arith('+', it[1], ('c', 1)) for s in ends):
                                got = ('range', self.rd(entry, k), h)
                if got is None:
                    # a counting loop that does not start at zero, or passes its end
                    for k in changed:
                        i = head.store.get(k)
                        if i == it[2] and i is not None:
                            e0 = self.rd(entry, k)
                            if is_c(e0) and e0[1] != 0:
                                self.bad = 'it starts with item %s' % e0[1]
                            steps = {s.store.get(k) for s in ends}
                            if steps != {self.arith('+', i, ('c', 1))}:
                                self.bad = 'its step is not one'
                            for s in exits:
                                for f, p in s.facts.items():
                                    if f[0] == '<' and f[2] == i and p and e0 == ('c', 0):
                                        self.bad = 'it passes the end of its part'
        self.calls.append(got)
        return r


def splitters(C, u):
    """functions that start tasks"""
    g = Graph(u, virtual=False)
    starts = {}

    def direct(f):
        return any(n['k'] == 'call' and leaf(n.get('fn')) in ('enqueue', 'enqueueReturning') for n in walk(f['body']))
    cand = {fid: f for fid, f in u.funcs.items() if f.get('body') and not f.get('lambda') and not (f.get('cls') or '').endswith('ThreadPool')}
    # functions that leave the future to their caller
    through = {fid for fid, f in cand.items() if ('future<' in u.ty(f.get('rt', -1)) or any('future<' in u.ty(p['t']) and u.ty(p['t']).endswith('&') and not u.ty(p['t']).startswith('const') for p in f['params']))}
    passes = {fid for fid in through if direct(cand[fid])}
    for _ in range(4):
        passes |= {fid for fid in through if set(g.callees[fid]) & passes}
    for fid, f in cand.items():
        if fid not in passes and (direct(f) or set(g.callees[fid]) & passes):
            key = (f['qn'], f['file'], f['l'])
            starts.setdefault(key, (fid, f))
    waits = g.reaching(lambda x: any(future_class({'fn': e}) and leaf(e) in ('get', 'wait') for e in g.ext[x]))
    inl = passes | {x for x in waits if not (u.funcs[x].get('cls') or '').endswith('ThreadPool')} - {fid for fid, f in cand.items() if (f['qn'], f['file'], f['l']) in starts}
    for key, (fid, f) in sorted(starts.items()):
        C.count('functions that start tasks')
        it = Par(u, C, f, inl)
        it.passes = passes
        res = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        for what, outs in (('returns', res['ret']), ('raises', res['thr'])):
            for s, _ in outs:
                if ('may', 'started') not in s.tags:
                    continue
                kept = {k[2] for k in s.tags if isinstance(k, tuple) and k[:2] == ('may', 'kept')}
                allw = {k[1] for k in s.tags if isinstance(k, tuple) and k[0] == 'all waited'}
                C.oblige(bool(kept) and kept <= allw, where, '%s: a function that starts tasks %s only after all of them have ended' % (f['qn'], what),
                         'a path %s although not every future was waited for' % what)
                C.oblige(not any(isinstance(k, tuple) and k[0] == 'open' for k in s.tags), where, '%s: the future of every task is kept' % f['qn'], 'a future is dropped')
                if what == 'returns':
                    for k in s.tags:
                        if isinstance(k, tuple) and k[:2] == ('may', 'kept error'):
                            C.oblige(s.known(mk_cmp('==', k[2], ('c', None))) is True, where, '%s: an error of a task is raised in the calling thread' % f['qn'],
                                     'the function returns without a test of the kept error')
        parts(C, it, f, where)
    return starts


def parts(C, it, f, where):
    for head, ends, brks, exits, body in it.loops:
        ss = [(s, 'end') for s in ends] + [(s, 'break') for s in brks]
        if not any(('enqueued',) in s.tags for s, _ in ss):
            continue
        for s, kind in ss:
            n = s.tags.get(('enqueued',), 0)
            C.oblige(n == 1, where, '%s: each part of the range is given to exactly one task' % f['qn'], 'a pass starts %d tasks' % n)
            cov = s.tags.get(('covers',))
            if cov is None:
                C.notes.append('%s: the items of a task were not understood' % where)
                continue
            C.oblige(cov[0] != 'bad', where, '%s: a task handles each item of its part once' % f['qn'], cov[1] if cov[0] == 'bad' else '')
            if cov[0] == 'bad':
                continue
            C.count('task ranges')
            start, num = cov[1], cov[2]
            # the position the part starts at is the position of the pass, which then moves on by its length
            locs = [k for k in head.store if head.store[k] == start and isinstance(k, tuple) and k[0] in ('v', 'par')]
            locs = [k for k in locs if it.cur(k, s) != start] or locs
            if not locs:
                C.notes.append('%s: the position of a part was not understood' % where)
                continue
            pos = locs[0]
            after = it.cur(pos, s)
            moved = after == it.arith('+', start, num)
            if not moved and num == ('c', 1):
                moved = after == it.arith('+', start, ('c', 1))
            if not moved and isinstance(after, tuple) and after in it.adv:
                moved = it.adv[after] == (start, num)
            fact_end = any(p and g[0] == '==' and after in g[1:] and any(x[:1] == ('par',) for x in g[1:] if isinstance(x, tuple)) for g, p in s.facts.items())
            if after == start and s.known(mk_cmp('<', ('c', 0), num)) is False:
                moved = True
            if not moved and not fact_end and isinstance(after, tuple) and after[:2] == ('u', 'loop') and after != start and after not in it.adv:
                C.notes.append('%s: how far the position moves was not understood' % where)
                continue
            C.oblige(moved or fact_end, where, '%s: the next part begins where the last one ended' % f['qn'],
                     'the position moves by another number of items than the task handles')
            # a counter of remaining items moves by the same number
            for k in head.store:
                if k == pos or not (isinstance(k, tuple) and k[0] == 'v'):
                    continue
                h, e = head.store[k], it.cur(k, s)
                if isinstance(h, tuple) and h[:2] == ('u', 'loop') and h[-1] == k and isinstance(e, tuple) and e[0] == 'op' and e[1] == '-' and e[2] == h:
                    C.oblige(e[3] == num, where, '%s: the remaining work shrinks by the items of the task' % f['qn'])
            if kind == 'break':
                done = [g for g, p in s.facts.items() if (p and g[0] == '==' or not p and g[0] == '<' and g[1] == ('c', 0)) and ('c', 0) in g[1:] and
                        any(isinstance(x, tuple) and x[0] == 'op' and x[1] == '-' for x in g[1:])]
                C.oblige(bool(done) or fact_end, where, '%s: the range is only left when no work remains' % f['qn'], 'a pass ends the loop early')


class Hand(Par):
    """which items a function hands to its callable: tag ('handed', range)"""

    def __init__(self, u, C, f, inl, summaries, callables):
        super().__init__(u, C, f, inl)
        self.sums, self.callables = summaries, callables
        self.serial = []

    def is_callable(self, st, c):
        c = unver(c)
        return c in self.callables

    def hits(self, st, c, vs, n):
        s = st.copy()
        s.tags[('calls',)] = s.tags.get(('calls',), 0) + 1
        s.tags[('args',)] = tuple(self.val(s, v) for v in vs)
        return [(s, VOID)]

    def model(self, st, name, n, obj, vs):
        if n.get('op') == '()' and obj is not None and vs and self.is_callable(st, obj):
            return self.hits(st, obj, vs, n)
        if leaf(name) == 'iota' and len(vs) == 3:
            s = st.copy()
            a, b, c = (self.val(s, v) for v in vs)
            if a[0] == 'call' and leaf(a[1]) == 'begin' and b[0] == 'call' and leaf(b[1]) == 'end' and c == ('c', 0):
                s.tags[('iota', unver(a[2]), unver(b[2]))] = True
            elif is_c(c):
                s.tags[('counted from', unver(a), unver(b))] = True
            return [(s, VOID)]
        sm = self.sums.get(n.get('fid'))
        if sm is not None:
            return self.handover(st, sm, n, vs)
        return super().model(st, name, n, obj, vs)

    def handover(self, st, sm, n, vs):
        kind, idx, fi = sm
        s = st.copy()
        vals = [self.val(s, v) for v in vs]
        f = vals[fi]
        if kind == 'n':
            rng = ('n', vals[idx[0]])
        else:
            a, b = vals[idx[0]], vals[idx[1]]
            rng = ('it', a, b)
            ca, cb = unver(a), unver(b)
            if ca[0] == 'call' and cb[0] == 'call' and leaf(ca[1]) == 'begin' and leaf(cb[1]) == 'end' and ca[2] == cb[2] and ('iota', ca[2], cb[2]) in s.tags:
                rng = ('n', self.size_of(s, a[2]))
        ok = self.is_callable(s, f) or self.is_callable(s, vs[fi])
        lam = f if f[0] == 'lam' else None
        if lam is not None:
            fn = self.u.funcs.get(lam[1][0])
            s2 = s.copy()
            for k in [('calls',), ('args',)]:
                s2.tags.pop(k, None)
            counts, args = set(), set()
            self.intask = True
            for s3, _ in self.lambda_body(s2, lam, fn, [('tid',), ('item',)], n):
                counts.add(s3.tags.get(('calls',), 0))
                args.add(s3.tags.get(('args',)))
            self.intask = False
            if counts == {0}:
                return [(s, VOID)]
            self.oblige(counts == {1}, n, '%s: the callable is called once for each item' % self.f['qn'], 'it is called %s times' % ' or '.join(map(str, sorted(counts))))
            for a in args:
                self.oblige(a is None or any(('item',) in set(subterms(x)) or self.derived(x) for x in a), n, '%s: the callable is told which item it is called for' % self.f['qn'])
            ok = True
            # items that are looked up in a list: the range is that list
            used = {unver(x[1]) for a in args if a for t in a for x in subterms(t) if x[:1] == ('idx',) and len(x) > 2 and x[2] == ('item',)}
            if used and rng[0] == 'n':
                szs = {self.size_of(s, x) for x in used}
                self.oblige(rng[1] in szs or unver(rng[1]) in {unver(z) for z in szs}, n, '%s: as many items are handed out as the list has' % self.f['qn'], 'the number of items is not the size of the list they are looked up in')
        if ok:
            s.tags[('handed', rng)] = s.tags.get(('handed', rng), 0) + 1
        return [(s, VOID)]

    intask = False

    def derived(self, x):
        # an output argument of a conversion of the item, or a copy
        return isinstance(x, tuple) and bool(x) and (x[0] in ('ver', 'v', 'u', 'objp', 'idx', 'call'))

    def one_iter(self, st, cond, body, inc, pre, post_cond):
        st.tags.pop(('calls',), None)
        st.tags.pop(('args',), None)
        return super().one_iter(st, cond, body, inc, pre, post_cond)

    def inductions(self, entry, head, changed, ends, exits, quant):
        r = super().inductions(entry, head, changed, ends, exits, quant)
        if self.intask or not ends:
            return r
        counts = {s.tags.get(('calls',), 0) for s in ends}
        if counts == {0}:
            return r
        self.oblige(counts == {1}, None, '%s: the callable is called once for each item' % self.f['qn'], 'a pass calls it %s times' % ' or '.join(map(str, sorted(counts))))
        rng = None
        for args in {s.tags.get(('args',)) for s in ends}:
            for a in args or ():
                for i, h in r:
                    if a == i:
                        rng = ('n', h)
                if a[0] == 'item' and a[2] == ('c', 0):
                    for k in changed:
                        if head.store.get(k) == a[1] and all(s.store.get(k) == self.arith('+', a[1], ('c', 1)) for s in ends):
                            e0 = self.rd(entry, k)
                            for s in exits:
                                for g, p in s.facts.items():
                                    if p and g[0] == '==' and a[1] in g[1:]:
                                        rng = ('it', e0, [x for x in g[1:] if x != a[1]][0])
        if rng is None:
            for k in changed:
                i = head.store.get(k)
                if any(args and i in args for args in {s.tags.get(('args',)) for s in ends}) and {s.store.get(k) for s in ends} == {self.arith('+', i, ('c', 1))}:
                    e0 = self.rd(entry, k)
                    self.oblige(not is_c(e0) or e0 == ('c', 0), None, '%s: the items are numbered from zero' % self.f['qn'], 'they are numbered from another number')
                    for s in exits:
                        for g, p in s.facts.items():
                            if g[0] == '<':
                                past = p and g[2] == i
                                short = not p and g[1][:2] == ('op', '+') and i in g[1] and any(is_c(x) and x[1] >= 1 for x in g[1][2:])
                                less = not p and g[1] == i and g[2][:2] == ('op', '-') and is_c(g[2][3])
                                self.oblige(not (past or short or less), None, '%s: as many items are handed out as were asked for' % self.f['qn'], 'one more or fewer is')
        for s in exits:
            s.tags[('handed', rng)] = s.tags.get(('handed', rng), 0) + 1
        return r


def handers(C, u, starters):
    """functions that hand items to a callable parameter"""
    sums = {}
    fns = {}
    for fid, f in u.funcs.items():
        if f.get('body') and not f.get('lambda') and not f.get('cls') and '/include/z5/' in f['file']:
            cs = [i for i, p in enumerate(f['params']) if '(lambda' in u.ty(p['t']) or u.ty(p['t']).rstrip('& ') in ('F', 'BODY')]
            if cs:
                fns[fid] = (f, cs)
    # the functions that start the tasks themselves
    for (qn, file, l), (fid0, f0) in starters.items():
        for fid, (f, cs) in fns.items():
            if (f['file'], f['l']) == (file, l):
                its = [i for i, p in enumerate(f['params']) if 'iterator' in u.ty(p['t']) and 'tag' not in u.ty(p['t'])]
                if len(its) == 2:
                    sums[fid] = ('it', tuple(its), cs[-1])
    g = Graph(u, virtual=False)
    todo = {fid for fid in fns if fid not in sums}
    done = {}
    for _ in range(8):
        progress = False
        for fid in sorted(todo):
            f, cs = fns[fid]
            callees = {x for x in g.callees[fid]} | {y for n in walk(f['body']) if n['k'] == 'lambda' for z in n['fids'] if z in g.callees for y in g.callees[z]}
            if any(x in todo and x != fid for x in callees):
                continue
            todo.discard(fid)
            progress = True
            sm = hand_one(C, u, f, cs, sums, set(), done)
            if sm:
                sums[fid] = sm
        if not progress:
            break
    return sums, fns


def hand_one(C, u, f, cs, sums, inl, done):
    key = (f['file'], f['l'], len(f['params']))
    it = Hand(u, C, f, inl, sums, {('par', f['params'][i]['n'], i) for i in cs})
    res = it.run(f)
    rngs = set()
    where = '%s:%d' % (f['file'], f['l'])
    any_h = any(isinstance(k, tuple) and k[0] == 'handed' for s, _ in res['ret'] for k in s.tags)
    if not any_h:
        return None
    known = True
    for s, _ in res['ret']:
        hs = {k[1]: v for k, v in s.tags.items() if isinstance(k, tuple) and k[0] == 'handed'}
        if None in hs:
            known = False
            continue
        C.oblige(sum(hs.values()) == 1, where, '%s: every path hands out the items once' % f['qn'], 'a path hands them out %d times' % sum(hs.values()))
        rngs |= {(h[0],) + tuple(unver(x) for x in h[1:]) for h in hs}
    if not known:
        C.notes.append('%s: the items of a loop were not understood' % where)
        return None
    if key not in done:
        C.count('functions that hand out items')
    done[key] = True
    # the same items on every path: a number or an iterator pair that the caller gave
    bad = {('counted from',) + tuple(unver(x) for x in k[1:]) for s, _ in res['ret'] for k in s.tags if isinstance(k, tuple) and k[0] == 'counted from'}
    C.oblige(len(rngs) == 1, where, '%s: every path hands out the same items' % f['qn'], 'paths differ in the items they hand out: %s' % sorted(map(show, rngs)))
    if len(rngs) != 1:
        return None
    r = rngs.pop()
    pars = {('par', p['n'], i): i for i, p in enumerate(f['params'])}
    its = [i for i, p in enumerate(f['params']) if 'iterator' in u.ty(p['t']) and 'tag' not in u.ty(p['t'])]
    if len(its) == 2:
        C.oblige(r == ('it', ('par', f['params'][its[0]]['n'], its[0]), ('par', f['params'][its[1]]['n'], its[1])), where,
                 '%s: the items are those from the first to the last' % f['qn'], 'other items are handed out')
        return ('it', tuple(its), cs[-1])
    if r[0] == 'n' and r[1] in pars:
        return ('n', (pars[r[1]],), cs[-1])
    if r[0] == 'n' and isinstance(r[1], tuple) and r[1][:1] == ('op',):
        C.oblige(not any(is_c(x) for x in r[1]), where, '%s: as many items are handed out as were asked for' % f['qn'], 'one more or fewer is')
    if r[0] == 'it':
        C.oblige(('counted from', r[1], r[2]) not in bad, where, '%s: the items are numbered from zero' % f['qn'], 'they are numbered from another number')
    return None


def show(t):
    return re.sub(r"\s+", ' ', str(t))[:80]


def main():
    C = Check('P13', 'path-sensitive interpretation of the functions that start tasks: futures kept and waited for on every normal and exceptional path, range arithmetic of the parts, '
                     'at-most-and-at-least-once execution in the pool')
    units = facts.load(['core'])
    u = units['core']
    starters = splitters(C, u)

    def report(ok, where, what, detail='', kind='task'):
        if kind == 'task':
            C.oblige(ok, where, what, detail)
    for k, n in pool.analyse(u, report).items():
        C.count(k, n)
    sums, fns = handers(C, u, starters)
    callers(C, u, sums)
    tasks(C, u, sums)
    C.minimum('functions that start tasks', 1)
    C.minimum('pools', 1)
    C.minimum('pool functions', 2)
    C.minimum('functions that hand out items', 3)
    C.minimum('lambdas that run as tasks', 3)
    C.assumptions += ['starting a task does not fail for lack of memory', 'a callable given by the user of the library calls nothing that ends the process',
                      'the standard library keeps its promises: a packaged_task stores the exception of what it runs, a future delivers it']
    C.finish()


def callers(C, u, sums):
    """a call with a number of items and a lambda that looks its items up in a list: the number is the size of that list"""
    seen = set()
    for fid, f in u.funcs.items():
        if not f.get('body') or '/include/z5/' not in f['file'] or fid in sums:
            continue
        inits = None
        for n in walk(f['body']):
            if n['k'] != 'call' or n.get('fid') not in sums or sums[n['fid']][0] != 'n':
                continue
            _, idx, fi = sums[n['fid']]
            lam = unwrap(n['a'][fi])
            if lam.get('k') != 'lambda' or (f['file'], n['l']) in seen:
                continue
            seen.add((f['file'], n['l']))
            C.count('calls with a list of items')
            if inits is None:
                inits = {v['d']: v['init'] for d in walk(f['body']) if d['k'] == 'decl' for v in d['v'] if v.get('init')}
            sz = unwrap(n['a'][idx[0]])
            while sz.get('k') == 'ref' and sz['d'] in inits:
                sz = unwrap(inits[sz['d']])
            of = unwrap(sz['o']) if sz.get('k') == 'call' and leaf(sz.get('fn')) == 'size' and sz.get('o') else None
            if of is None or of.get('k') != 'ref':
                continue
            used = {}
            for x in lam['fids']:
                if x in u.funcs:
                    g = u.funcs[x]
                    ps = {p['d'] for p in g['params'][1:2]}
                    for y in walk(g['body']):
                        b = i = None
                        if y['k'] == 'call' and y.get('op') == '[]' and y.get('o') and y.get('a'):
                            b, i = unwrap(y['o']), unwrap(y['a'][0])
                        elif y['k'] == 'call' and leaf(y.get('fn')) == 'at' and y.get('o') and y.get('a'):
                            b, i = unwrap(y['o']), unwrap(y['a'][0])
                        if b is not None and b.get('k') == 'ref' and i.get('k') == 'ref' and i['d'] in ps:
                            used[b['d']] = b['n']
            if used:
                C.oblige(of['d'] in used, '%s:%d' % (f['file'], n['l']), '%s: as many items are handed out as the list has' % f['qn'],
                         'the number is the size of %s, the items are looked up in %s' % (of['n'], ', '.join(sorted(used.values()))))


def unwrap(n):
    while isinstance(n, dict) and (n.get('k') == 'cast' or (n.get('k') == 'ctor' and len(n.get('a', ())) == 1)):
        n = n['e'] if n['k'] == 'cast' else n['a'][0]
    return n


def tasks(C, u, sums):
    """the bodies that run as tasks do not swallow an error, and start no thread of their own"""
    seen = set()
    for fid, f in u.funcs.items():
        if not f.get('body') or '/include/z5/' not in f['file']:
            continue
        for n in walk(f['body']):
            if n['k'] == 'call' and n.get('fid') in sums:
                lam = unwrap(n['a'][sums[n['fid']][2]])
                if lam.get('k') != 'lambda' or (f['file'], lam['l']) in seen:
                    continue
                seen.add((f['file'], lam['l']))
                C.count('lambdas that run as tasks')
                for x in lam['fids']:
                    for t in walk(u.funcs[x]['body']) if x in u.funcs else ():
                        if t['k'] == 'try':
                            for h in t['h']:
                                ends = any(y['k'] == 'throw' or (y['k'] == 'call' and leaf(y.get('fn')) in ('rethrow_exception', 'current_exception', 'set_exception')) for y in walk(h['body']))
                                C.oblige(ends, '%s:%d' % (f['file'], t['l']), '%s: a task does not swallow an error' % f['qn'], 'the handler ends normally')
        cls = f.get('cls') or ''
        if any('thread' in str(n.get('fn') or '') and leaf(n.get('fn')) in ('async', 'detach') for n in walk(f['body']) if n['k'] == 'call'):
            C.violate('%s:%d' % (f['file'], f['l']), '%s: work only runs in the threads of a pool' % f['qn'])
    C.discharge('include/z5', 'no function detaches a thread or starts one outside a pool')


if __name__ == '__main__':
    main()
