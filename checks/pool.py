"""the thread pool: what happens to a task between the call that enqueues it and the worker that runs it,
and which of the pool's fields are touched under its mutex"""
from absint import *
from facts import walk
from graph import Graph


def leaf(x):
    return str(x).rsplit('::', 1)[-1]


def unver(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'ver':
        return unver(t[1])
    return tuple(unver(x) for x in t)


GUARDS = ('unique_lock', 'lock_guard', 'scoped_lock')


def pool_class(u):
    """the class that owns worker threads: (class name, its methods by fid)"""
    out = {}
    for fid, f in u.funcs.items():
        if f.get('body') and f.get('cls') and not f.get('lambda') and '/include/z5/' in f['file']:
            out.setdefault(f['cls'], {})[fid] = f
    hit = {}
    for c, fs in out.items():
        if any(n['k'] == 'call' and leaf(n.get('fn')) == 'join' and 'thread' in str(n.get('fn')) for f in fs.values() for n in walk(f['body'])):
            hit[c] = fs
    return hit


class Pool(Interp):
    """tags: held (mutexes), queued / ran / popped / front (of the pass), notified, returned future"""
    CAP = 40
    implicit_exc = False

    def __init__(self, u, report, methods):
        super().__init__(u)
        self.report, self.methods = report, methods
        self.passes = []
        self.guards = {}

    def inline_ok(self, fn):
        return fn['fid'] in self.methods

    def say(self, ok, n, what, detail=''):
        if self.report_ok():
            self.report(ok, self.where(n), what, detail)

    # ---- fields of the pool
    def field(self, l):
        l = unver(l)
        while l and l[0] in ('idx', 'alias'):
            l = l[1]
        return l[2] if l and l[0] == 'f' and l[1][0] in ('this', 'par') else None

    def model(self, st, name, n, obj, vs):
        lf = leaf(name)
        cls = str(name)
        if obj is not None and lf in ('front', 'pop') and 'queue' in cls:
            s = st.copy()
            if lf == 'front':
                self.say(('nonempty', unver(obj)) in s.tags, n, 'a worker takes a task only when one is known to be there', 'front() without a test that a task is there')
                return [(s, ('task', unver(obj)))]
            s.tags[('popped',)] = s.tags.get(('popped',), 0) + 1
            s.tags.pop(('nonempty', unver(obj)), None)
            return [(s, VOID)]
        if obj is not None and lf in ('emplace', 'push') and 'queue' in cls and len(vs) == 1:
            s = st.copy()
            s.tags[('queued',)] = s.tags.get(('queued',), 0) + 1
            v = self.val(s, vs[0])
            s.tags[('queued lam',)] = v
            if v[0] == 'lam':
                self.task_body(s, v, n)
            return [(s, VOID)]
        if obj is not None and lf in ('emplace_back', 'push_back') and len(vs) >= 1:
            v = self.val(st, vs[0])
            if v[0] == 'lam' and self.runs_tasks(v):
                s = st.copy()
                s.tags[('workers',)] = s.tags.get(('workers',), 0) + 1
                self.worker(s, v, n)
                return [(s, VOID)]
        if lf == 'get_future' and obj is not None:
            return [(st, ('future of', self.target(st, obj)))]
        if 'condition_variable' in cls and obj is not None:
            if lf == 'wait' and len(vs) == 2:
                s0 = st.copy()
                self.touch_lock(s0, vs[0], n)
                lam = self.val(s0, vs[1])
                if lam[0] == 'lam':
                    fn = self.u.funcs.get(lam[1][0])
                    out = []
                    s0.tags[('waited',)] = True
                    for s, v in self.lambda_body(s0, lam, fn, [], n):
                        if s.assume(self.condval(v), True):
                            out.append((s, VOID))
                    return out
                return [(s0, VOID)]
            if lf == 'wait':
                s = st.copy()
                self.touch_lock(s, vs[0], n)
                return [(s, VOID)]
            if lf in ('notify_one', 'notify_all'):
                s = st.copy()
                s.tags[('notified', lf)] = True
                s.tags.setdefault(('order',), ())
                s.tags[('order',)] += ((lf,),)
                return [(s, VOID)]
        if lf == 'empty' and 'queue' in cls and obj is not None:
            a, b = st.copy(), st.copy()
            a.tags[('nonempty', unver(obj))] = True
            b.tags.pop(('nonempty', unver(obj)), None)
            return [(a, ('c', False)), (b, ('c', True))]
        if lf == 'joinable' and obj is not None:
            return [(st, ('c', True))]
        if lf == 'join' and obj is not None:
            s = st.copy()
            s.tags[('joined',)] = unver(obj)
            return [(s, VOID)]
        if lf in ('lock', 'unlock') and obj is not None and unver(obj) in self.guards:
            s = st.copy()
            m = self.guards[unver(obj)]
            if lf == 'lock':
                s.tags[('held', m)] = True
            else:
                self.release(s, m)
            return [(s, VOID)]
        if n.get('op') == '()' and obj is not None:
            o = self.val(st, obj)
            t = self.target(st, obj)
            if o[0] == 'task' or t[0] == 'task' or 'packaged_task' in cls:
                s = st.copy()
                s.tags[('ran',)] = s.tags.get(('ran',), 0) + 1
                s.tags[('ran task',)] = o if o[0] == 'task' else t
                s.tags[('tid',)] = self.val(s, vs[0]) if vs else None
                s.tags[('ran held',)] = tuple(k[1] for k in s.tags if isinstance(k, tuple) and k[0] == 'held')
                return [(s, VOID)]
        if n.get('op') in ('++', '--') and obj is not None and 'atomic' in cls + str(n.get('cls')):
            s = st.copy()
            k = ('balance', self.field(obj))
            s.tags[k] = s.tags.get(k, 0) + (1 if n['op'] == '++' else -1)
            return [(s, VOID)]
        return None

    def target(self, st, obj):
        o = self.val(st, obj)
        while isinstance(o, tuple) and o and o[0] in ('deref', 'idx', 'ver'):
            o = o[1]
        return unver(o)

    def touch_lock(self, s, l, n):
        g = unver(l if l[0] == 'v' else self.val(s, l))
        m = self.guards.get(g)
        if m is not None:
            self.say(('held', m) in s.tags, n, 'a wait happens with the mutex held')
        return m

    def release(self, s, m):
        s.tags.pop(('held', m), None)
        for k in [k for k in s.tags if isinstance(k, tuple) and k[0] == 'nonempty']:
            del s.tags[k]

    def vardecl(self, v, st):
        r = super().vardecl(v, st)
        if any(g in self.u.ty(v['t']) for g in GUARDS):
            l = ('v', v['d'], v['n'], self.frame.id)
            for s in r:
                val = s.store.get(l)
                if isinstance(val, tuple) and val[0] == 'new' and len(val) > 3:
                    m = unver(val[2])
                    self.guards[l] = m
                    if 'defer' not in repr(val[3:]):
                        s.tags[('held', m)] = True
        return r

    def x_seq(self, n, st):
        r = super().x_seq(n, st)
        gs = [v for x in n['b'] if x and x['k'] == 'decl' for v in x['v'] if any(g in self.u.ty(v['t']) for g in GUARDS)]
        for v in gs:
            m = self.guards.get(self.frame.env.get(v['d']))
            for _, s, _ in r:
                self.release(s, m)
        return r

    def lv(self, n, st):
        if n['k'] == 'mem':
            self.touch(n, st)
        return super().lv(n, st)

    shared = ()
    mutex = None
    accesses = 0

    def touch(self, n, st):
        if n.get('n') in self.shared and self.report_ok():
            self.accesses += 1
            self.report(any(k[0] == 'held' for k in st.tags if isinstance(k, tuple)), self.where(n), 'what the workers share is only touched with the mutex held',
                        '%s is touched without the mutex' % n['f'], 'lock')

    def runs_tasks(self, lam):
        fn = self.u.funcs.get(lam[1][0])
        return fn is not None and any(n['k'] == 'call' and n.get('op') == '()' and 'function' in str(n.get('fn')) for n in walk(fn['body']))

    # ---- bodies
    def task_body(self, s, lam, n):
        fn = self.u.funcs.get(lam[1][0])
        if fn is None:
            return
        s = s.copy()
        for k in [('ran',), ('queued',)]:
            s.tags.pop(k, None)
        for s2, _ in self.lambda_body(s, lam, fn, [('tid',)] * len(fn['params']), n):
            self.say(s2.tags.get(('ran',)) == 1, n, 'a queued task runs what was enqueued exactly once', 'it runs it %s times' % s2.tags.get(('ran',), 0))
            self.say(s2.tags.get(('ran',)) != 1 or s2.tags.get(('tid',)) == ('tid',), n, 'a task is told the number of the worker that runs it', 'it is told another number')

    def worker(self, s, lam, n):
        fn = self.u.funcs.get(lam[1][0])
        node = self.lams[lam][0]
        for c in node['caps']:
            if c.get('ref') and c.get('n') not in ('this', None):
                self.say(False, n, 'a worker keeps its own number', '%s is captured by reference' % c.get('n'))
        s = s.copy()
        for k in [k for k in s.tags if isinstance(k, tuple) and k[0] in ('held', 'ran', 'popped', 'queued')]:
            del s.tags[k]
        self.inworker = True
        for s2, _ in self.lambda_body(s, lam, fn, [], n):
            self.end_pass(s2, n, 'a worker that ends')
        self.inworker = False

    inworker = False

    def end_pass(self, s, n, who):
        popped, ran = s.tags.get(('popped',), 0), s.tags.get(('ran',), 0)
        self.say(popped == ran, n, 'a worker runs exactly the task it took from the queue', '%s took %s tasks and ran %s' % (who, popped, ran))
        for k, v in s.tags.items():
            if isinstance(k, tuple) and k[0] == 'balance' and k[1] in self.waited_on:
                self.say(v == 0, n, 'the count of busy workers returns to what it was', '%s changes by %s' % (k[1], v))

    waited_on = ()

    def one_iter(self, st, cond, body, inc, pre, post_cond):
        for k in [k for k in st.tags if isinstance(k, tuple) and k[0] in ('popped', 'ran', 'front', 'balance', 'joined', 'workers', 'tid', 'ran held')]:
            del st.tags[k]
        r = super().one_iter(st, cond, body, inc, pre, post_cond)
        if self.inworker:
            for s in r[0]:
                if ('ran',) in s.tags or ('popped',) in s.tags:
                    self.end_pass(s, body, 'a pass')
        return r

    def inductions(self, entry, head, changed, ends, exits, quant):
        r = super().inductions(entry, head, changed, ends, exits, quant)
        js = {s.tags.get(('joined',)) for s in ends}
        if len(js) == 1 and None not in js:
            j = next(iter(js))
            full = bool(quant) or any(j[0] == 'idx' and j[2] == i and (h[0] == 'call' and leaf(h[1]) == 'size' or h == self.size_of(entry, j[1])) for i, h in r) or j[0] != 'idx'
            for s in exits:
                if full:
                    s.tags[('all joined',)] = True
                s.tags.setdefault(('order',), ())
                s.tags[('order',)] += (('join',),)
        ws = {s.tags.get(('workers',)) for s in ends}
        if ends and ws != {None}:
            self.say(ws == {1}, None, 'every pass starts one worker', 'a pass starts %s' % ws)
        return r


def fields_of(u, fs, fid):
    """fields of the pool a function (or a lambda in it) names"""
    return {n['n'] for n in walk(fs[fid]['body']) if n['k'] == 'mem' and 'fn' not in n}


def analyse(u, report):
    """report(ok, where, what, detail='', kind='task') for every obligation; -> counts"""
    counts = {'pools': 0, 'pool functions': 0, 'accesses to shared fields': 0}
    for cls, fs in sorted(pool_class(u).items()):
        counts['pools'] += 1
        # lambdas written in the methods
        inner = {}
        for fid, f in fs.items():
            for n in walk(f['body']):
                if n['k'] == 'lambda':
                    for x in n['fids']:
                        inner[x] = fid
        bodies = dict(fs)
        todo = list(inner)
        while todo:
            x = todo.pop()
            if x in u.funcs and x not in bodies:
                bodies[x] = u.funcs[x]
                for n in walk(u.funcs[x]['body']):
                    if n['k'] == 'lambda':
                        for y in n['fids']:
                            inner[y] = x
                            todo.append(y)
        # what a worker runs on: fields named in lambdas that run tasks
        workers = [x for x in inner if x in bodies and any(n['k'] == 'call' and n.get('op') == '()' and 'std::function' in str(n.get('fn')) for n in walk(bodies[x]['body']))]
        named, types = set(), {}
        for w in workers:
            for n in walk(bodies[w]['body']):
                if n['k'] == 'mem' and 'fn' not in n:
                    named.add(n['n'])
                    types[n['n']] = u.ty(n['t'])
        sync = ('std::mutex', 'std::condition_variable', 'std::atomic', 'std::recursive_mutex', 'std::shared_mutex')
        shared = {x for x in named if not any(t in types[x] for t in sync)}
        # a count that waiting functions look at
        waited = set()
        for fid, f in fs.items():
            for n in walk(f['body']):
                if n['k'] == 'call' and leaf(n.get('fn')) == 'wait':
                    for x in walk(n):
                        if x['k'] == 'lambda':
                            for y in x['fids']:
                                for z in walk(u.funcs[y]['body']) if y in u.funcs else ():
                                    if z['k'] == 'mem' and 'fn' not in z and 'atomic' in u.ty(z['t']):
                                        waited.add(z['n'])
        done = set()
        for fid, f in sorted(fs.items()):
            has = {leaf(n.get('fn')) for n in walk(f['body']) if n['k'] == 'call'}
            touches = any(n['k'] == 'mem' and n.get('n') in shared for n in walk(f['body'])) or fid in inner.values()
            if not touches:
                continue
            it = Pool(u, report, set(fs))
            it.shared, it.waited_on = shared, waited
            it.init_only = not any(n['k'] == 'call' for n in walk(f['body']))
            res = it.run(f)
            counts['pool functions'] += (f['file'], f['l']) not in done
            counts['accesses to shared fields'] += it.accesses if (f['file'], f['l']) not in done else 0
            done.add((f['file'], f['l']))
            where = '%s:%d' % (f['file'], f['l'])
            rt = u.ty(f.get('rt', -1))
            if 'future' in rt:
                for s, v in res['ret']:
                    q, r = s.tags.get(('queued',), 0), s.tags.get(('ran',), 0)
                    report(q + r == 1, where, '%s: a task that is accepted is queued or run, once' % f['qn'], 'a path queues it %d times and runs it %d times' % (q, r))
                    if q:
                        report(any(isinstance(k, tuple) and k[0] == 'notified' for k in s.tags), where, '%s: a worker is woken for a queued task' % f['qn'], 'a path queues a task and wakes nobody')
                    fv = [x for x in subterms(v) if isinstance(x, tuple) and x and x[0] == 'future of'] or [x for k, y in s.store.items() if k == v for x in subterms(y) if isinstance(x, tuple) and x and x[0] == 'future of']
                    if r and fv and s.tags.get(('ran task',)):
                        report(fv[0][1] == s.tags[('ran task',)], where, '%s: the future is that of the task' % f['qn'])
            if f['qn'].rsplit('::', 1)[-1].startswith('~'):
                for s, _ in res['ret']:
                    o = s.tags.get(('order',), ())
                    report(('join',) in o and s.tags.get(('all joined',)) is not None, where, '%s: every worker has ended when the pool is gone' % f['qn'], 'a path does not join the workers')
                    report(('notify_all',) in o and ('join',) in o and o.index(('notify_all',)) < o.index(('join',)), where, '%s: all workers are woken before the pool waits for them' % f['qn'], 'they are not')
                    report(any(k[0] == 'f' and u_bool(v) and True for k, v in s.store.items() if isinstance(k, tuple)) or ('stopped',) in s.tags, where, '%s: the workers are told to stop' % f['qn'], 'no flag is set')
    return counts


def u_bool(v):
    return v == ('c', True)
