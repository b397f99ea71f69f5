"""P12: work that runs in parallel shares no unprotected mutable state."""
import re
import facts, pool
from common import Check, rel
from facts import walk
from graph import Graph
from workers import unwrap, leaf

SAFE = ('std::atomic', 'std::mutex', 'std::shared_mutex', 'std::recursive_mutex', 'std::condition_variable', 'std::once_flag')
GUARDS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
READS = {'find', 'at', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'count', 'empty', 'contains', 'front', 'back', 'data', 'get', 'operator->', 'operator*', 'c_str', 'lower_bound',
         'upper_bound', 'equal_range', 'length', 'str', 'value', 'has_value', 'capacity', 'first', 'second'}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=', '++', '--'}


def is_view(t):
    t = t.replace('const ', '')
    return ('ArrayView<' in t and 'ConstArrayView<' not in t)


def is_const(t):
    return t.startswith('const ') or t.endswith(' const')


class Body:
    """one function body that may run in several threads at once"""

    def __init__(self, A, f, shared, tainted, lam=None):
        self.A, self.u, self.f, self.C = A, A.u, f, A.C
        self.params = {p['d']: p for p in f['params']}
        self.shared_params = shared          # decl -> description of what it refers to in the caller
        self.inner = set(self.params)
        self.types = {p['d']: self.u.ty(p['t']) for p in f['params']}
        self.inits = {}
        self.static = {}
        self.refs = {}
        for n in walk(f['body']):
            vs = n['v'] if n['k'] == 'decl' else [n['var']] if n['k'] == 'rfor' else []
            for v in vs:
                self.inner.add(v['d'])
                self.types[v['d']] = self.u.ty(v['t'])
                if n['k'] == 'rfor':
                    self.inits[v['d']] = n['range']
                elif v.get('init'):
                    self.inits[v['d']] = v['init']
                for b in v.get('bind', ()):
                    self.inner.add(b['d'])
                    self.inits[b['d']] = v.get('init') or (n['range'] if n['k'] == 'rfor' else None)
                    self.types[b['d']] = '&'
                if v.get('static') and not v.get('tls'):
                    self.static[v['d']] = v
            if n['k'] == 'try':
                for h in n['h']:
                    if isinstance(h.get('d'), int):
                        self.inner.add(h['d'])
            if n['k'] == 'if' and isinstance(n.get('cvar'), dict):
                for v in n['cvar'].get('v', ()):
                    self.inner.add(v['d'])
                    self.types[v['d']] = self.u.ty(v['t'])
                    self.inits[v['d']] = v.get('init')
        # a lambda written in this body and called here is part of it: its captures are ours
        self.tainted = set(tainted)
        self.flow()

    # ---- what depends on the item (or on the thread)
    def dep(self, n):
        return any(x['k'] == 'ref' and x.get('d') in self.tainted for x in walk(n)) if isinstance(n, dict) else False

    def sel(self, n):
        """an index that differs from task to task"""
        return self.dep(n) and not any(x['k'] == 'bin' and x.get('op') in ('%', '/', '&', '>>', '<', '>', '==', '!=', '<=', '>=') for x in walk(n))

    def alone(self, target):
        """target is only reached by the one thread whose number is tested for"""
        for n in walk(self.f['body']):
            if n['k'] == 'if' and n.get('c', {}).get('k') == 'bin' and n['c'].get('op') in ('==', '!='):
                ps = [unwrap(n['c'][x]) for x in 'ab']
                if any(x.get('k') == 'ref' and x.get('d') in self.params and x.get('d') in self.tainted for x in ps):
                    br = n.get('then') if n['c']['op'] == '==' else n.get('else')
                    if br and any(x is target for x in walk(br)):
                        return True
        return False

    def flow(self):
        for _ in range(6):
            before = len(self.tainted)
            for d, i in self.inits.items():
                if i is not None and d not in self.static and self.dep(i):
                    self.tainted.add(d)
            for n in walk(self.f['body']):
                if n['k'] == 'asg' and self.dep(n['b']):
                    b, ix = self.root(n['a'])
                    if isinstance(b, int) and b in self.inner:
                        self.tainted.add(b)
                elif n['k'] == 'call':
                    pm = n.get('pm', '')
                    args = n.get('a', ())
                    if any(self.dep(a) for a in args):
                        for i, a in enumerate(args):
                            if i < len(pm) and pm[i] in 'rp':
                                b, ix = self.root(a)
                                if isinstance(b, int) and b in self.inner:
                                    self.tainted.add(b)
                        if n.get('o') and not n.get('const'):
                            b, ix = self.root(n['o'])
                            if isinstance(b, int) and b in self.inner:
                                self.tainted.add(b)
            if len(self.tainted) == before:
                break

    # ---- the object an lvalue belongs to: (decl | 'this' | ('call', name) | None, indexed by something that differs per item)
    def root(self, n, seen=()):
        ix = False
        guard = None
        while isinstance(n, dict):
            k = n['k']
            if k == 'ref':
                d = n.get('d')
                if d in seen:
                    return d, ix
                t = self.types.get(d, '')
                if d in self.inits and d not in self.static and (t.endswith('&') or is_view(t) or t.endswith('*') or 'iterator' in t) and self.inits[d] is not None:
                    b, j = self.root(self.inits[d], seen + (d,))
                    if b is None:
                        return d, ix
                    return b, ix or j
                return d, ix
            if k == 'this':
                return 'this', ix
            if k == 'mem':
                if n.get('dk') == 'global':
                    return ('global', n.get('qn', n['n'])), ix
                if n['b'].get('k') == 'this':
                    return ('field', n['f'], n.get('t')), ix
                n = n['b']
            elif k == 'idx':
                ix = ix or self.sel(n['i'])
                n = n['b']
            elif k == 'cast':
                n = n['e']
            elif k == 'un' and n.get('op') in ('*', '&', '++', '--'):
                n = n['e']
            elif k == 'cond':
                c = n['c']
                a, b = self.root(n['a'], seen), self.root(n['b'], seen)
                # one branch is taken by a single thread only: a test for equality of the thread number
                if c.get('k') == 'bin' and c.get('op') == '==' and self.dep(c):
                    a = (a[0], True)
                if c.get('k') == 'bin' and c.get('op') == '!=' and self.dep(c):
                    b = (b[0], True)
                return (a[0], ix or (a[1] and b[1])) if not a[1] else (b[0], ix or (a[1] and b[1]))
            elif k == 'call':
                if n.get('op') in ('[]', '*', '->') and n.get('o'):
                    ix = ix or any(self.sel(a) for a in n.get('a', ()))
                    n = n['o']
                elif n.get('o') and leaf(n.get('fn')) in ('at', 'front', 'back', 'data', 'begin', 'end', 'find', 'get', 'first', 'second', 'rbegin', 'value'):
                    ix = ix or any(self.sel(a) for a in n.get('a', ()))
                    n = n['o']
                elif leaf(n.get('fn')) in ('move', 'forward', 'ref', 'as_const', 'get') and n.get('a'):
                    n = n['a'][0]
                elif is_view(self.u.ty(n.get('t', -1))):
                    # a part of a view
                    vs = [a for a in n.get('a', ()) if is_view(self.u.ty(unwrap(a).get('t', -1))) or is_view(self.u.ty(a.get('t', -1)))]
                    if not vs:
                        return None, ix
                    ix = ix or any(self.dep(a) for a in n['a'] if a is not vs[0])
                    n = vs[0]
                else:
                    return (('call', n.get('fid'), n.get('fn')) if self.u.ty(n.get('t', -1)).endswith('&') or n.get('lv') else None), ix
            elif k == 'ctor' and len(n.get('a', ())) >= 1 and is_view(self.u.ty(n.get('t', -1))):
                n = n['a'][0]
            elif k == 'ctor' and len(n.get('a', ())) == 1:
                n = n['a'][0]
            else:
                return None, ix
        return None, ix

    def under_lock(self, target):
        """a guard over a mutex that outlives the task is declared before, in an enclosing block"""
        def find(n, held):
            if n is target:
                return held
            if isinstance(n, dict):
                if n.get('k') == 'seq':
                    h = held
                    for x in n['b']:
                        r = find(x, h)
                        if r is not None:
                            return r
                        if isinstance(x, dict) and x.get('k') == 'decl':
                            for v in x['v']:
                                if any(self.u.ty(v['t']).startswith(g) for g in GUARDS) and v.get('init') and v['init'].get('a'):
                                    m, _ = self.root(v['init']['a'][0])
                                    own = isinstance(m, int) and m in self.inner and m not in self.static and m not in self.shared_params
                                    if not own:
                                        h = True
                    return None
                for k, v in n.items():
                    for x in (v if isinstance(v, list) else [v]):
                        if isinstance(x, dict):
                            r = find(x, held)
                            if r is not None:
                                return r
            return None
        return bool(find(self.f['body'], False))

    def mutation(self, target, node, how):
        b, ix = self.root(target)
        if b is None or b == 'this':
            return
        A = self.A
        A.C.count('stores in tasks')
        where = '%s:%d' % (self.f['file'], node.get('l', self.f['l']))
        if isinstance(b, int):
            if b in self.static:
                v = self.static[b]
                name, t = v['n'], self.u.ty(v['t'])
            elif b in self.shared_params:
                name, t = self.shared_params[b], self.types.get(b, '')
            elif b in self.inner:
                return
            else:
                name, t = next((x['n'] for x in walk(target) if x['k'] == 'ref' and x.get('d') == b), None) or A.names.get(b, '?'), A.captype.get(b, '')
        elif b[0] == 'field':
            name, t = leaf(b[1]), self.u.ty(b[2]) if b[2] is not None else ''
        elif b[0] == 'global':
            name, t = leaf(b[1]), ''
        else:
            return
        if any(s in t for s in SAFE) or ix and 'vector<bool' not in t:
            A.C.discharge(where, 'what a task changes is its own, or selected by its item or thread')
            return
        if self.under_lock(node) or self.alone(node):
            A.C.discharge(where, 'what a task changes is its own, or selected by its item or thread')
            return
        A.C.violate(where, 'what a task changes is its own, or selected by its item or thread',
                    '%s is changed (%s) by every task, without a lock' % (name, how))

    def check(self):
        for n in walk(self.f['body']):
            k = n['k']
            if k == 'lambda':
                continue
            if k == 'asg':
                self.mutation(n['a'], n, 'assignment')
            elif k == 'un' and n.get('op') in ('++', '--'):
                self.mutation(n['e'], n, 'increment')
            elif k == 'call':
                pm = n.get('pm', '')
                args = n.get('a', ())
                op = n.get('op')
                fn = self.u.funcs.get(n.get('fid'))
                if n.get('o') and not n.get('const') and op not in ('()', '[]', '*', '->') and leaf(n.get('fn')) not in READS:
                    if not (op is None and leaf(n.get('fn')).startswith('operator ')):
                        self.mutation(n['o'], n, leaf(n.get('fn')))
                if op == '()' and n.get('o'):
                    # a lambda of the enclosing function that the task calls
                    lam = self.A.lambda_of(n['o'])
                    if lam is None and fn is not None and fn.get('lambda') and fn.get('body'):
                        lam = fn
                    if lam is not None:
                        shared, taint = {}, set()
                        for p, a in zip(lam['params'], args):
                            b, ix = self.root(a)
                            mine = b is None or ix or (isinstance(b, int) and b in self.inner and b not in self.shared_params and b not in self.static)
                            if not mine and self.u.ty(p['t']).endswith('&'):
                                shared[p['d']] = p['n']
                            if self.dep(a):
                                taint.add(p['d'])
                        self.A.body(lam, shared, taint)
                        continue
                for i, a in enumerate(args):
                    at = self.u.ty(unwrap(a).get('t', -1))
                    if at.startswith('(lambda'):
                        continue
                    if i < len(pm) and pm[i] == 'r':
                        self.mutation(a, n, 'passed to ' + leaf(n.get('fn') or 'a callable'))
                    elif i < len(pm) and pm[i] == 'p' and unwrap(a).get('k') in ('un', 'call'):
                        self.mutation(a, n, 'passed to ' + leaf(n.get('fn') or 'a callable'))
                    elif is_view(at) and not leaf(n.get('fn')) in ('subview',) and not is_view(self.u.ty(n.get('t', -1))):
                        self.mutation(a, n, 'passed to ' + leaf(n.get('fn') or 'a callable'))


class Analysis:
    def __init__(self, C, u):
        self.C, self.u = C, u
        self.done = set()
        self.names, self.captype = {}, {}
        self.lams = {}

    def lambda_of(self, o):
        o = unwrap(o)
        if o.get('k') == 'lambda':
            fs = o['fids']
        elif o.get('k') == 'ref' and o.get('d') in self.lams:
            fs = self.lams[o['d']]
        else:
            return None
        for x in fs:
            if x in self.u.funcs and self.u.funcs[x].get('body'):
                return self.u.funcs[x]
        return None

    trace = ()

    def body(self, f, shared, taint):
        if f not in self.trace:
            self.trace = list(self.trace) + [f]
        key = (f['fid'], tuple(sorted(shared)), tuple(sorted(taint)))
        if key in self.done:
            return
        self.done.add(key)
        Body(self, f, shared, taint).check()


def tasks(C, u, drivers):
    """every lambda that is handed to a function that runs it in parallel"""
    A = Analysis(C, u)
    seen = set()
    for fid, f in u.funcs.items():
        if f.get('body') and ('/include/z5/' in f['file'] or '/src/' in f['file']):
            for n in walk(f['body']):
                if n['k'] == 'decl':
                    for v in n['v']:
                        A.names[v['d']] = v['n']
                        A.captype[v['d']] = u.ty(v['t'])
                        i = unwrap(v['init']) if v.get('init') else None
                        if i and i.get('k') == 'lambda':
                            A.lams[v['d']] = i['fids']
            for p in f['params']:
                A.names[p['d']] = p['n']
                A.captype[p['d']] = u.ty(p['t'])
    for fid, f in sorted(u.funcs.items()):
        if not f.get('body') or '/include/z5/' not in f['file'] and '/src/' not in f['file']:
            continue
        for n in walk(f['body']):
            if n['k'] != 'call' or n.get('fid') not in drivers:
                continue
            g, pos = drivers[n['fid']]
            if pos >= len(n.get('a', ())):
                continue
            lam = A.lambda_of(n['a'][pos])
            if lam is None:
                continue
            if (f['file'], lam['l']) not in seen:
                seen.add((f['file'], lam['l']))
                C.count('task bodies')
            A.trace, A.done = [], set()
            A.body(lam, {}, {p['d'] for p in lam['params']})
            one_task_per_shard(C, u, f, A.trace)
            thread_numbers(C, A, f, lam, g, n)
    return A


def one_task_per_shard(C, u, f, bodies):
    """a task that reads a shard, changes it and writes it back without a lock gets the shard from a list of different shards"""
    calls = [(g, n) for g in bodies for n in walk(g['body']) if n['k'] == 'call']
    wr = [(g, n) for g, n in calls if leaf(n.get('fn')) == 'writeShardBlobs']
    if not wr:
        return
    C.count('tasks that update a whole shard')
    own = [n for g, n in calls if leaf(n.get('fn')) == 'shardId']
    C.oblige(not own, '%s:%d' % (wr[0][0]['file'], wr[0][1]['l']), '%s: no two tasks update the same shard' % f['qn'],
             'the task works out the shard from its chunk: chunks of one shard are handled by several tasks')


def drivers_of(u):
    """functions of the library that run a callable in several threads: fid -> (function, position of the callable)"""
    out = {}
    cand = {}
    for fid, f in u.funcs.items():
        if f.get('body') and not f.get('lambda') and '/include/z5/' in f['file'] and not (f.get('cls') or '').endswith('ThreadPool'):
            cs = [i for i, p in enumerate(f['params']) if '(lambda' in u.ty(p['t'])]
            if cs:
                cand[fid] = (f, cs)
    for fid, (f, cs) in cand.items():
        if any(n['k'] == 'call' and leaf(n.get('fn')) in ('enqueue', 'enqueueReturning') for n in walk(f['body'])):
            out[fid] = (f, cs[-1])
    for _ in range(6):
        more = {}
        for fid, (f, cs) in cand.items():
            if fid in out:
                continue
            for n in walk(f['body']):
                if n['k'] == 'call' and n.get('fid') in out:
                    a = unwrap(n['a'][out[n['fid']][1]])
                    while a.get('k') == 'call' and leaf(a.get('fn')) in ('forward', 'move', 'ref'):
                        a = unwrap(a['a'][0])
                    pd = {f['params'][i]['d']: i for i in cs}
                    if a.get('k') == 'ref' and a.get('d') in pd:
                        more[fid] = (f, pd[a['d']])
                    elif a.get('k') == 'lambda':
                        for x in a['fids']:
                            for y in walk(u.funcs[x]['body']) if x in u.funcs else ():
                                if y['k'] == 'call' and y.get('op') == '()' and y.get('o'):
                                    o = unwrap(y['o'])
                                    if o.get('k') == 'ref' and o.get('d') in pd and y.get('a'):
                                        more[fid] = (f, pd[o['d']])
        if not more:
            break
        out.update(more)
    return out


def thread_numbers(C, A, f, lam, g, call):
    """what is indexed by the thread number has an entry for every thread"""
    u = A.u
    if not lam['params'] or not u.ty(lam['params'][0]['t']).replace('const ', '') in ('int', 'unsigned long', 'long', 'unsigned int', 'std::size_t', 'size_t'):
        return
    tid = lam['params'][0]['d']
    decls = {v['d']: v for n in walk(f['body']) if n['k'] == 'decl' for v in n['v']}
    for n in walk(lam['body']):
        b = i = None
        if n['k'] == 'call' and n.get('op') == '[]' and n.get('o'):
            b, i = unwrap(n['o']), unwrap(n['a'][0])
        elif n['k'] == 'call' and leaf(n.get('fn')) == 'at' and n.get('o') and n.get('a'):
            b, i = unwrap(n['o']), unwrap(n['a'][0])
        if b is None or b.get('k') != 'ref' or b.get('d') not in decls:
            continue
        minus = 0
        if i.get('k') == 'bin' and i.get('op') == '-' and unwrap(i['a']).get('k') == 'ref' and unwrap(i['a']).get('d') == tid and unwrap(i['b']).get('k') == 'int':
            minus = int(unwrap(i['b'])['v'])
        elif not (i.get('k') == 'ref' and i.get('d') == tid):
            continue
        C.count('containers with an entry per thread')
        where = '%s:%d' % (f['file'], n.get('l', f['l']))
        v = decls[b['d']]
        init = v.get('init') or {}
        size = init['a'][0] if init.get('k') == 'ctor' and init.get('a') and u.ty(v['t']).startswith('std::vector<') and len(init['a']) >= 1 and 'vector' not in u.ty(unwrap(init['a'][0]).get('t', -1)) else None
        if size is None or 'allocator' in u.ty(init['a'][0].get('t', -1)):
            # filled in a loop or resized: the bound
            cands = []
            for x in walk(f['body']):
                if x['k'] == 'call' and leaf(x.get('fn')) in ('resize', 'assign') and x.get('o') and unwrap(x['o']).get('d') == b['d']:
                    cands.append(x['a'][0])
                if x['k'] in ('for', 'while') and any(y['k'] == 'call' and leaf(y.get('fn')) in ('emplace_back', 'push_back') and y.get('o') and unwrap(y['o']).get('d') == b['d'] for y in walk(x['body'])):
                    c = x.get('c') or {}
                    if c.get('k') == 'bin' and c.get('op') in ('<', '!='):
                        cands.append(c['b'])
            size = cands[0] if cands else None
        if size is None:
            C.notes.append('%s: the size of %s was not understood' % (where, b['n']))
            continue
        ok, why = enough(u, f, decls, size, minus)
        if ok is None:
            C.notes.append('%s: the size of %s was not understood' % (where, b['n']))
            continue
        C.oblige(ok, where, '%s: what is indexed by the thread number has an entry for every thread' % f['qn'], '%s %s' % (b['n'], why))


def enough(u, f, decls, e, minus):
    """is e >= number of threads - minus (and at least 1 - minus)?"""
    e = unwrap(e)
    seen = set()
    while e.get('k') == 'ref' and e.get('d') in decls and e['d'] not in seen and decls[e['d']].get('init'):
        seen.add(e['d'])
        e = unwrap(decls[e['d']]['init'])
    if e.get('k') == 'bin' and e.get('op') in ('-', '+') and unwrap(e['b']).get('k') == 'int':
        k = int(unwrap(e['b'])['v']) * (1 if e['op'] == '-' else -1)
        return enough(u, f, decls, e['a'], minus - k)
    if e.get('k') == 'int':
        return False, 'has %s entries' % e['v']
    if e.get('k') == 'call' and leaf(e.get('fn')) == 'max':
        rs = [enough(u, f, decls, a, minus) for a in e['a']]
        cs = [int(unwrap(a)['v']) for a in e['a'] if unwrap(a).get('k') == 'int']
        thr = [r for a, r in zip(e['a'], rs) if unwrap(a).get('k') != 'int']
        if not thr or thr[0][0] is None:
            return None, ''
        if 'too few' in thr[0][1] or 'asked for' in thr[0][1]:
            return False, thr[0][1]
        return (bool(cs) and cs[0] >= 1 - minus), 'has no entry when the pool has no worker'
    if e.get('k') == 'call' and leaf(e.get('fn')) == 'min':
        return False, 'has too few entries'
    if e.get('k') == 'call' and leaf(e.get('fn')) == 'nThreads':
        return (False, 'has too few entries') if minus < 0 else (minus >= 1, 'has no entry when the pool has no worker')
    if e.get('k') == 'call' and leaf(e.get('fn')) in ('getActualNumThreads',):
        return minus >= 0, 'has too few entries'
    if e.get('k') == 'call' and leaf(e.get('fn')) in ('getNumThreads',):
        return (False, 'has too few entries') if minus < 0 else (minus >= 1, 'has no entry when there are no threads')
    if e.get('k') == 'cast':
        return enough(u, f, decls, e['e'], minus)
    if e.get('k') == 'ref' and e.get('dk') == 'param' and 'hread' in e.get('n', ''):
        return False, 'has as many entries as threads were asked for: none when the number is zero or means "all"'
    return None, ''


# ---------------------------------------------------------------- state outside the tasks

def statics(C, u):
    """static and global objects: constant, thread-safe, per thread, only read, or used under a lock"""
    seen = set()
    accessors = {}
    for fid, f in sorted(u.funcs.items()):
        if not f.get('body') or '/include/z5/' not in f['file'] and '/src/' not in f['file']:
            continue
        b = None
        for n in walk(f['body']):
            if n['k'] != 'decl':
                continue
            for v in n['v']:
                if not v.get('static') or v.get('tls'):
                    continue
                t = u.ty(v['t'])
                where = '%s:%d' % (f['file'], n['l'])
                first = where not in seen
                seen.add(where)
                if first:
                    C.count('static objects')
                if is_const(t) or any(s in t for s in SAFE):
                    C.discharge(where, 'a static object is constant, thread-safe or protected')
                    continue
                rt = u.ty(f.get('rt', -1))
                if rt.endswith('&') and not is_const(rt) and any(x['k'] == 'ret' and unwrap(x.get('e') or {}).get('d') == v['d'] for x in walk(f['body'])):
                    accessors[fid] = (v['n'], where)
                if b is None:
                    b = Body(Quiet(u, C), f, {}, set())
                bad = [x for x in mutations(u, b, v['d']) if not b.under_lock(x)]
                C.oblige(not bad, where if not bad else '%s:%d' % (f['file'], bad[0].get('l', n['l'])), 'a static object is constant, thread-safe or protected',
                         '%s is changed without a lock' % v['n'])
    # what the accessors return is only read
    for fid, f in sorted(u.funcs.items()):
        if not f.get('body') or '/include/z5/' not in f['file'] and '/src/' not in f['file']:
            continue
        calls = [n for n in walk(f['body']) if n['k'] == 'call' and n.get('fid') in accessors]
        if not calls:
            continue
        C.count('uses of shared tables', len(calls))
        b = Body(Quiet(u, C), f, {}, set())
        bad = [x for x in mutations(u, b, lambda r: isinstance(r, tuple) and r[0] == 'call' and r[1] in accessors, False) if not b.under_lock(x)]
        C.oblige(not bad, '%s:%d' % (f['file'], bad[0].get('l', f['l']) if bad else f['l']), 'an object that all threads share is only read, or changed under a lock',
                 'what %s returns is changed' % (leaf(calls[0].get('fn'))))


class Quiet:
    def __init__(self, u, C):
        self.u, self.C, self.names, self.captype = u, C, {}, {}


def mutations(u, b, d, index=True):
    out = []
    for n in walk(b.f['body']):
        t = None
        if n['k'] == 'asg':
            t = [n['a']]
        elif n['k'] == 'un' and n.get('op') in ('++', '--'):
            t = [n['e']]
        elif n['k'] == 'call':
            t = []
            if n.get('o') and not n.get('const') and (n.get('op') in ASSIGN or n.get('op') is None and leaf(n.get('fn')) not in READS or index and n.get('op') == '[]'):
                t.append(n['o'])
            pm = n.get('pm', '')
            t += [a for i, a in enumerate(n.get('a', ())) if i < len(pm) and pm[i] in 'rp']
        for x in t or ():
            r, _ = b.root(x)
            if (d(r) if callable(d) else r == d):
                out.append(n)
    return out


def fields(C, u):
    """what a const method may change is thread-safe, or only changed under a lock"""
    seen = set()
    muts = {}
    for r in u.records:
        if '/include/z5/' not in r['file']:
            continue
        for x in r['fields']:
            if x.get('mut'):
                key = (r['qn'], x['n'])
                if key in seen:
                    continue
                seen.add(key)
                C.count('fields that const methods may change')
                t = u.ty(x['t'])
                if any(s in t for s in SAFE):
                    C.discharge('%s:%d' % (r['file'], r['l']), '%s::%s is thread-safe' % key)
                else:
                    muts[(r['qn'], x['n'])] = r
    for fid, f in sorted(u.funcs.items()):
        if not f.get('body') or '/include/z5/' not in f['file']:
            continue
        b = None
        for n in walk(f['body']):
            if n['k'] == 'mem' and 'fn' not in n and n.get('f'):
                q = tuple(n['f'].rsplit('::', 1))
                if q in muts:
                    b = b or Body(Quiet(u, C), f, {}, set())
                    C.oblige(b.under_lock(n), '%s:%d' % (f['file'], n['l']), 'a field that const methods may change is used under a lock', '%s is used without one' % q[1])
    # constness that is cast away
    for fid, f in sorted(u.funcs.items()):
        if f.get('body') and '/include/z5/' in f['file']:
            for n in walk(f['body']):
                if n['k'] == 'cast' and n.get('ck') == 'const_cast':
                    t = u.ty(n.get('t', -1))
                    if 'z5::' in t and not is_const(t):
                        C.violate('%s:%d' % (f['file'], n['l']), '%s: no object that threads share is changed through a cast' % f['qn'], 'constness is cast away')


def read_modify_write(C, u):
    """the blobs of a shard are read, changed and written back by one thread at a time"""
    g = Graph(u, virtual=False)
    seen = set()
    for fid, f in sorted(u.funcs.items()):
        if not f.get('body') or '/include/z5/' not in f['file'] or f.get('lambda'):
            continue
        rd = [n for n in walk(f['body']) if n['k'] == 'call' and leaf(n.get('fn')) == 'readShardBlobs' and not in_lambda(f, n)]
        wr = [n for n in walk(f['body']) if n['k'] == 'call' and leaf(n.get('fn')) == 'writeShardBlobs' and not in_lambda(f, n)]
        if not rd or not wr or not f.get('cls'):
            continue
        where = '%s:%d' % (f['file'], f['l'])
        if where not in seen:
            seen.add(where)
            C.count('shard updates outside tasks')
        b = Body(Quiet(u, C), f, {}, set())
        held = [lock_of(u, f, b, n) for n in rd + wr]
        C.oblige(all(h is not None for h in held) and len({id(h) for h in held}) == 1, where, '%s: a shard is read and written back under one lock' % f['qn'],
                 'the lock does not cover both')


def in_lambda(f, n):
    return any(x['k'] == 'lambda' and any(y is n for y in walk(x)) for x in walk(f['body']))


def lock_of(u, f, b, target):
    """the declaration of the guard (over a mutex that is a field) that is in force at target"""
    def find(n, held):
        if n is target:
            return held, True
        if isinstance(n, dict):
            if n.get('k') == 'seq':
                h = held
                for x in n['b']:
                    r = find(x, h)
                    if r[1]:
                        return r
                    if isinstance(x, dict) and x.get('k') == 'decl':
                        for v in x['v']:
                            if any(u.ty(v['t']).startswith(g) for g in GUARDS) and v.get('init') and v['init'].get('a'):
                                m, _ = b.root(v['init']['a'][0])
                                if not (isinstance(m, int) and m in b.inner and m not in b.static):
                                    h = v
                return None, False
            for k, v in n.items():
                for x in (v if isinstance(v, list) else [v]):
                    if isinstance(x, dict):
                        r = find(x, held)
                        if r[1]:
                            return r
        return None, False
    return find(f['body'], None)[0]


def main():
    C = Check('P12', 'effect analysis of everything that runs as a task: every store, non-const call and mutable argument is rooted in an object of the task, selected by its item or thread, atomic, or under a lock')
    units = facts.load(['core', 'core_s3'])
    u = units['core']

    def report(ok, where, what, detail='', kind='task'):
        if kind == 'lock':
            C.oblige(ok, where, what, detail)
    for k, n in pool.analyse(u, report).items():
        C.count(k, n)
    drv = drivers_of(u)
    C.count('functions that run a callable in parallel', len({(f['file'], f['l']) for f, _ in drv.values()}))
    tasks(C, u, drv)
    for v in units.values():
        statics(C, v)
        fields(C, v)
        read_modify_write(C, v)
    C.minimum('task bodies', 4)
    C.minimum('containers with an entry per thread', 2)
    C.minimum('functions that run a callable in parallel', 3)
    C.minimum('static objects', 1)
    C.minimum('accesses to shared fields', 3)
    C.assumptions += ['a callable that the user of the library hands in synchronises its own state', 'two calls of the library that write the same chunk or shard at the same time are kept apart by their caller (documented: writes are only safe for different chunks)',
                      'const operations of standard containers on the same object do not race (the promise of the standard library)']
    C.finish()


if __name__ == '__main__':
    main()
