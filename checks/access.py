"""P16 (partial writes keep what they do not cover) and P21 (missing chunks read as fill value): typestate of the chunk buffers."""
import facts, stored
from common import Check, rel
from graph import Graph, trivial
from absint import *
from facts import walk

FILL = ('call', 'FILL')
VIEWS = ('copyView', 'fillView', 'subview', 'makeView', 'cOrderStrides')
NS = 'z5::multiarray::'


def leaf(name):
    return str(name).rsplit('::', 1)[-1]


def calls(t):
    for x in subterms(t):
        if isinstance(x, tuple) and len(x) > 1 and x[0] == 'call' and isinstance(x[1], str):
            yield x
        elif isinstance(x, tuple) and len(x) > 3 and x[0] == 'u' and x[1] == 'res' and isinstance(x[3], str):
            yield ('call',) + x[3:]


def unver(t):
    """forget the versions of containers: only the identity of the object counts"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'ver':
        return unver(t[1])
    return tuple(unver(x) for x in t)


class Access(Interp):
    CAP = 40
    MAXDEPTH = 16

    def __init__(self, u, chks, entry, inl, writing):
        super().__init__(u)
        self.chks, self.entry, self.inl, self.writing = chks, entry, inl, writing
        self.seen = {'stores': 0, 'reads': 0, 'shards': 0}
        self.src = '%s (%s:%d)' % (entry['qn'], rel(entry['file']), entry['l'])

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    def oblige(self, props, ok, node, what, detail=''):
        if not self.report_ok():
            return
        for p in props.split():
            if p in self.chks:
                self.chks[p].oblige(ok, self.where(node), what, (detail + ' ' if detail else '') + 'on a path from ' + self.src)

    # ---- terms
    def buf(self, st, v):
        """the container whose first element v points to"""
        if isinstance(v, tuple) and v[0] in ('v', 'f', 'par'):
            v = self.rd(st, v)
        if isinstance(v, tuple) and v[0] == 'addr' and isinstance(v[1], tuple) and v[1][0] == 'idx' and v[1][2] == ('c', 0):
            return unver(v[1][1])
        return None

    def view(self, st, t, depth=0):
        """(root, [(offset, shape)...]) of a view"""
        if not isinstance(t, tuple) or depth > 12:
            return None
        if t[0] == 'call' and leaf(t[1]) == 'subview' and len(t) == 5:
            r = self.view(st, t[2], depth + 1)
            return r and (r[0], r[1] + [(t[3], t[4])])
        if t[0] == 'call' and leaf(t[1]) == 'makeView' and len(t) >= 3:
            b = self.buf(st, t[2])
            return b and (b, [])
        if t[0] == 'ver':
            return self.view(st, t[1], depth + 1)
        if t[0] == 'par':
            return (t, [])
        if t[0] in ('v', 'f'):
            x = st.store.get(t)
            if x is not None and x != t:
                return self.view(st, x, depth + 1)
            d = st.store.get(('f', t, 'data'))
            if d is not None:
                if isinstance(d, tuple) and d[0] == 'f' and d[2] == 'data':
                    return self.view(st, d[1], depth + 1)
                b = self.buf(st, d)
                return b and (b, [])
            return (t, [])
        return None

    def element(self, v):
        return isinstance(v, tuple) and v[0] in ('idx', 'v', 'par', 'ver', 'f', 'u')

    def ovl(self, t, which):
        """the chunk id of a value computed by getCoordinatesInRoi"""
        return t[2] if isinstance(t, tuple) and t[0] == 'call' and t[1] == which else None

    # ---- existence facts
    def missing(self, st, cid):
        """True: the path knows the chunk is absent; False: it knows it is there; None: neither"""
        res = None
        for f, p in st.facts.items():
            g, q = (f[1], not p) if f[0] == 'not' else (f, p)
            for c in calls(g):
                n = leaf(c[1])
                if n == 'chunkExists' and g == c or g == ('call',) + c[1:]:
                    if n == 'chunkExists':
                        return not q
                    if n in ('readShardRaw', 'readInnerBlob') and not q:
                        return True
            if g[0] in ('u', 'call') and g[0] == 'u' and len(g) > 3 and leaf(g[3]) in ('readShardRaw', 'readInnerBlob', 'chunkExists'):
                if leaf(g[3]) == 'chunkExists':
                    return not q
                if not q:
                    return True
            if g[0] == '==' and ('c', 0) in g[1:]:
                o = [x for x in g[1:] if x != ('c', 0)]
                if o and any(leaf(c[1]) == 'shardSlot' for c in calls(o[0])):
                    res = q
            if g[0] == '<' and g[1] == ('c', 0) and any(leaf(c[1]) == 'shardSlot' for c in calls(g[2])):
                res = not q
            if g[0] == 'call' and leaf(g[1]) == 'empty' and any(leaf(c[1]) == 'shardSlot' for c in calls(g)):
                res = q
        return res

    def complete(self, st, cid):
        for f, p in st.facts.items():
            g, q = (f[1], not p) if f[0] == 'not' else (f, p)
            if self.ovl(g, 'complete overlap') == cid and q:
                return True
        return False

    def stored_shape(self, st):
        """the path knows that the chunk is stored with the shape it has inside the array (no padding)"""
        for f, p in st.facts.items():
            g, q = (f[1], not p) if f[0] == 'not' else (f, p)
            if not q and any(leaf(c[1]) == 'isZarr' for c in calls(g)):
                return True
            if q and g[0] in ('==', 'call', 'op') and any(leaf(c[1]) in ('defaultChunkSize', 'defaultChunkShape', 'blockShape') for c in calls(g)):
                return True
        return False

    def drop(self, st, B):
        for k in list(st.tags):
            if isinstance(k, tuple) and k[0] in ('base', 'done') and k[1] == B:
                del st.tags[k]

    # ---- loops: what an earlier iteration left in a buffer does not count
    def one_iter(self, st, cond, body, inc, pre, post_cond):
        s = st.copy()
        for k in list(s.tags):
            if isinstance(k, tuple) and k[0] in ('base', 'done', 'blob of'):
                del s.tags[k]
        r = super().one_iter(s, cond, body, inc, pre, post_cond)
        for x in r[3]:
            for k, v in st.tags.items():
                x.tags.setdefault(k, v)
        for x in list(r[0]):
            self.finished(x, body)
        return r

    def lambda_body(self, s, lam, fn, args, n):
        out = super().lambda_body(s, lam, fn, args, n)
        if len(self.stack) and any('ShapeType' in self.u.ty(p['t']) or 'long' in self.u.ty(p['t']) for p in fn['params']):
            for x, _ in out:
                self.finished(x, fn.get('body') or n)
        return out

    def finished(self, st, node):
        k = ('open request',)
        if k in st.tags:
            cid, line = st.tags.pop(k)
            if not self.writing:
                self.oblige('P21', False, {'l': line}, 'every requested chunk defines its part of the output', 'the part of one chunk is left as it was')
        for k in [k for k in st.tags if isinstance(k, tuple) and k[0] == 'slot due']:
            line = st.tags.pop(k)
            self.oblige('P21 P16', False, {'l': line}, 'the slot of a chunk that was encoded is replaced', 'the slot keeps what was stored before')

    # ---- calls
    def model(self, st, name, n, obj, vs):
        lf = leaf(name)
        if lf == 'getCoordinatesInRoi' and len(vs) >= 6:
            cid, off, shp = [unver(self.val(st, v)) for v in vs[:3]]
            st = st.copy()
            if self.report_ok():
                for o, nm in zip(vs[3:6], ('begin in request', 'shape of overlap', 'begin in chunk')):
                    pass
            for o, nm in zip(vs[3:6], ('begin in request', 'shape of overlap', 'begin in chunk')):
                l = o[1] if o[0] == 'addr' else o
                self.wr(st, l, ('call', nm, cid, off, shp), n)
            st.tags[('open request',)] = (cid, n.get('l'))
            return [(st, ('call', 'complete overlap', cid, off, shp))]
        if lf == 'getFillValue' and len(vs) == 1:
            st = st.copy()
            v = self.val(st, vs[0])
            if v[0] == 'addr':
                self.wr(st, v[1], FILL, n)
            return [(st, VOID)]
        if name.startswith(NS) and lf in ('subview', 'makeView', 'cOrderStrides'):
            return [(st, ('call', name) + tuple(self.val(st, v) for v in vs))]
        if name.startswith(NS) and lf in ('copyView', 'fillView'):
            st = st.copy()
            self.viewwrite(st, lf, n, [self.val(st, v) for v in vs])
            return [(st, VOID)]
        if n.get('op') == '()' or n['k'] != 'call':
            return None
        if name in ('std::fill', 'std::fill_n', 'std::vector::assign', 'memset', 'std::memset') or (lf == 'assign' and name.startswith('std::')):
            vals = [self.val(st, v) for v in vs]
            B = None
            if name == 'std::fill' and len(vals) == 3 and vals[0][0] == 'call' and vals[0][1] == 'begin' and vals[1][0] == 'call' and vals[1][1] == 'end' and unver(vals[0][2]) == unver(vals[1][2]):
                B, v = unver(vals[0][2]), vals[2]
            elif name == 'std::fill_n' and len(vals) == 3:
                B, v = (unver(vals[0][2]) if vals[0][0] == 'call' and vals[0][1] == 'begin' else self.buf(st, vals[0])), vals[2]
            elif lf == 'assign' and obj is not None and len(vals) == 2:
                B, v = unver(obj), vals[1]
            elif name == 'std::fill' and len(vals) == 3:
                B, v = self.buf(st, vals[0]), vals[2]
            if B is not None:
                s = st if lf == 'assign' else st.copy()
                s.tags[('base', B)] = ('fill', v == FILL, n.get('l'))
                s.tags.pop(('done', B), None)
                if lf == 'assign':
                    return None
                return [(s, VOID)]
            return None
        cls = n.get('fid') is not None and self.method_of_dataset(n)
        if not cls:
            return None
        vals = [self.val(st, v) for v in vs]
        if lf in ('readChunk', 'decompress'):
            dst = vals[1] if lf == 'readChunk' else (vals[2] if len(vals) == 4 else vals[1])
            B = self.buf(st, dst)
            if B is not None:
                s = st.copy()
                if lf == 'decompress':
                    self.group(s, n, next((c[2] for c in calls(unver(vals[0])) if leaf(c[1]) == 'shardSlot'), ()))
                src = ('chunk', unver(vals[0])) if lf == 'readChunk' else ('bytes', vals[0])
                s.tags[('base', B)] = ('read',) + src
                s.tags.pop(('done', B), None)
                r = ('u', 'res', next(self.uid), name)
                return [(s, r)]
            return None
        if lf in ('writeChunk', 'makeChunkBlob') and len(vals) >= 2:
            B = self.buf(st, vals[1])
            s = st.copy()
            if B is not None:
                self.stored(s, n, lf, unver(vals[0]), B)
            if lf == 'makeChunkBlob':
                self.group(s, n, unver(vals[0]))
                r = ('u', 'res', next(self.uid), name, unver(vals[0]))
                bl = vs[2][1] if vs[2][0] == 'addr' else vs[2]
                self.wr(s, bl, ('ver', bl, next(self.uid)), n)
                s.tags[('blob of', unver(bl))] = unver(vals[0])
                s.tags[('slot due', unver(vals[0]))] = n.get('l')
                return [(s, r)]
            return [(s, VOID)]
        if lf in ('readShardBlobs', 'writeShardBlobs') and len(vals) >= 2:
            s = st.copy()
            l = vs[1][1] if vs[1][0] == 'addr' else vs[1]
            l = unver(l)
            coord = unver(vals[0])
            s.tags[('shard',)] = coord
            if lf == 'readShardBlobs':
                self.wr(s, vs[1], ('ver', vs[1], next(self.uid)), n)
                s.tags[('blobs', l)] = coord
            else:
                self.seen['shards'] += 1
                got = s.tags.get(('blobs', l))
                if got is not None or l[0] != 'par':
                    self.oblige('P16', got == coord, n, 'a shard is only written with the slots read from the same shard',
                                'the slots %s' % ('were not read before' if got is None else 'come from another shard'))
            return [(s, VOID)]
        return None

    def method_of_dataset(self, n):
        f = self.u.funcs.get(n['fid'])
        q = (f.get('pcls') or f.get('cls') or '') if f else str(n.get('fn') or '').rsplit('::', 1)[0]
        return 'Dataset' in q

    def fixed_slot(self, st, t):
        """the bytes are those of a constant slot of a shard"""
        return any(isinstance(x, tuple) and x[:1] == ('idx',) and len(x) == 3 and isinstance(x[2], tuple) and x[2][:1] == ('c',) and ('blobs', unver(x[1])) in st.tags
                   for x in subterms(t))

    def slotof(self, i):
        i = unver(i)
        if isinstance(i, tuple) and i[0] == 'call' and leaf(i[1]) == 'shardSlot':
            return i[2]
        return None

    def on_call(self, st, name, call, obj, args, fn):
        lf = leaf(name)
        if lf == 'readShardRaw' and args:
            st.tags[('shard',)] = unver(self.val(st, args[0]))
            st.tags[('rawread',)] = True
        if lf == 'resize' and obj is not None:
            self.drop(st, unver(obj))
        if lf in ('swap', 'clear', 'assign', 'operator=') and name.startswith('std::'):
            objs = [o for o in [obj] + list(args) if isinstance(o, tuple)]
            if lf == 'clear' and obj is not None:
                st.tags.pop(('blob of', unver(obj)), None)
            for o in objs:
                self.slotchange(st, o, call, [x for x in objs if x is not o], lf)

    def on_store(self, st, l, val, node):
        if isinstance(l, tuple) and l[0] == 'idx':
            if val == FILL:
                st.tags[('base', unver(l[1]))] = ('fill', True, (node or {}).get('l'))
                st.tags[('may', 'fill', unver(l[1]))] = True
            if not (isinstance(val, tuple) and val[0] == 'ver' and val[1] == l):
                self.slotchange(st, l, node, [val], '=')

    def slotchange(self, st, o, node, others, how):
        o = unver(o)
        if o[0] != 'idx' or ('blobs', o[1]) not in st.tags:
            return
        cid = self.slotof(o[2])
        if cid is None:
            return          # not a slot computed from a chunk index
        if not self.writing:
            return
        coord = st.tags[('blobs', o[1])]
        # the slot has to be the one of the chunk that was encoded
        due = [k for k in st.tags if isinstance(k, tuple) and k[0] == 'slot due']
        if due:
            ok = ('slot due', cid) in st.tags
            self.oblige('P16', ok, node or {}, 'only the slot of the chunk that was encoded is replaced', 'the slot of another chunk is replaced')
            res = None
            for f, p in st.facts.items():
                g, q = (f[1], not p) if f[0] == 'not' else (f, p)
                if g[0] == 'u' and len(g) > 4 and leaf(g[3]) == 'makeChunkBlob' and g[4] == cid:
                    res = q
            given = [unver(x) for x in others]
            blob = any(st.tags.get(('blob of', x)) == cid for x in given)
            if ok and res is not None:
                if res:
                    self.oblige('P16 P21', blob, node or {}, 'the slot of a chunk with content receives its encoded bytes', 'it receives something else')
                else:
                    self.oblige('P16 P21', not blob, node or {}, 'the slot of a chunk that holds only fill values is emptied', 'it receives stale bytes')
            for k in due:
                del st.tags[k]

    def group(self, st, n, cid):
        """chunks of a group of (shard, chunks) belong to that shard"""
        coord = st.tags.get(('shard',))
        if coord is None:
            return
        a = coord[1] if coord[0] == 'f' and coord[2] == 'first' else None
        b = next((x[1] for x in subterms(cid) if isinstance(x, tuple) and x[:1] == ('f',) and len(x) == 3 and x[2] == 'second'), None)
        if a is not None and b is not None:
            self.oblige('P16 P21', a == b, n, 'a chunk is only placed in the shard of its group', 'the shard is that of another group')

    # ---- rules
    def stored(self, st, n, lf, cid, B):
        if self.report_ok():
            self.seen['stores'] += 1
        done = st.tags.get(('done', B))
        st.tags.pop(('open request',), None)
        if B[0] == 'par':
            return
        self.oblige('P16', done is not None and done == cid, n, 'the requested values are placed in the chunk buffer before the chunk is stored',
                    'they were not' if done is None else 'the buffer holds those of another chunk')

    def viewwrite(self, st, lf, n, vals):
        dst = self.view(st, vals[1] if lf == 'copyView' else vals[0])
        src = self.view(st, vals[0]) if lf == 'copyView' else None
        if dst is None:
            if self.report_ok():
                self.notes.append('%s: destination not understood' % self.where(n))
            return
        root, parts = dst
        if root[0] == 'par':
            self.output(st, lf, n, vals, root, parts, src)
            return
        # a chunk buffer
        if not self.writing:
            return
        B = root
        base = st.tags.get(('base', B)) or (('fill', True, 0) if ('may', 'fill', B) in st.tags else None)
        if not parts:
            # the complete chunk
            cids = {unver(x[2]) for f in st.facts for x in calls(f) if x[1] == 'complete overlap'} | {st.tags[k][0] for k in [('open request',)] if k in st.tags}
            cid = st.tags.get(('open request',), (None, 0))[0]
            if cid is None:
                return
            self.oblige('P16', self.complete(st, cid), n, 'a chunk is only replaced as a whole when the request covers it completely',
                        'the path does not establish complete overlap')
            self.oblige('P16', self.stored_shape(st), n, 'a Zarr chunk at the end of the array is stored with the full chunk shape',
                        'the path neither excludes Zarr nor a chunk that is cut by the end of the array')
            st.tags[('done', B)] = cid
            if src and src[1] and lf == 'copyView':
                self.oblige('P16', self.ovl(unver(src[1][-1][0]), 'begin in request') == cid, n, 'the values written to a chunk are those of its place in the request')
            return
        off, shp = unver(parts[-1][0]), unver(parts[-1][1])
        cid = self.ovl(off, 'begin in chunk')
        wrong = off[0] == 'call' and off[1] in ('begin in request', 'shape of overlap')
        if cid is None:
            if wrong:
                self.oblige('P16', False, n, 'the part of a chunk that is written starts at the begin of the overlap inside the chunk', 'it starts at the %s' % off[1])
            return
        self.oblige('P16', self.ovl(shp, 'shape of overlap') == cid, n, 'the part of a chunk that is written has the shape of the overlap')
        if src and src[1]:
            self.oblige('P16', self.ovl(unver(src[1][-1][0]), 'begin in request') == cid and self.ovl(unver(src[1][-1][1]), 'shape of overlap') == cid, n,
                        'the values written to a chunk are those of its place in the request')
        # what is around it
        self.oblige('P16 P21', base is not None, n, 'the part of a chunk outside the request is loaded or filled before the request is placed in it',
                    'the buffer holds what was left in it')
        m = self.missing(st, cid)
        if base is not None and base[0] == 'fill':
            self.oblige('P16 P21', base[1], n, 'a missing chunk starts out as the fill value of the dataset', 'it is filled with something else')
            self.oblige('P16', m is True, n, 'a chunk buffer is only filled with the fill value when the chunk does not exist',
                        'the path %s' % ('knows that the chunk exists' if m is False else 'never tests whether the chunk exists'))
        elif base is not None:
            ok = base[2] == cid if base[1] == 'chunk' else any(c[2] == cid for c in calls(unver(base[2])) if leaf(c[1]) == 'shardSlot')
            if base[1] == 'chunk' or any(leaf(c[1]) == 'shardSlot' for c in calls(unver(base[2]))) or self.fixed_slot(st, base[2]):
                self.oblige('P16', ok, n, 'the content kept around the request is that of the same chunk', 'it is that of another one')
            self.oblige('P16 P21', m is not True, n, 'a chunk known to be missing is not read')
        st.tags[('done', B)] = cid

    def output(self, st, lf, n, vals, root, parts, src):
        """a write to the array of the caller"""
        if self.writing:
            return
        if self.report_ok():
            self.seen['reads'] += 1
        if not parts:
            return
        off, shp = unver(parts[-1][0]), unver(parts[-1][1])
        cid = self.ovl(off, 'begin in request')
        if cid is None:
            if off[0] == 'call' and off[1] in ('begin in chunk', 'shape of overlap'):
                self.oblige('P21 P16', False, n, 'the part of the output of a chunk starts at its place in the request', 'it starts at the %s' % off[1])
            return
        self.oblige('P21', self.ovl(shp, 'shape of overlap') == cid, n, 'the part of the output of a chunk has the shape of the overlap')
        st.tags.pop(('open request',), None)
        m = self.missing(st, cid)
        if lf == 'fillView':
            self.oblige('P21', vals[1] == FILL, n, 'the output of a missing chunk is filled with the fill value of the dataset')
            self.oblige('P21', m is True, n, 'the output is only filled when the chunk does not exist',
                        'the path %s' % ('knows that the chunk exists' if m is False else 'never tests whether it exists'))
            return
        if src is None:
            return
        B, sp = src
        if sp:
            self.oblige('P21', self.ovl(unver(sp[-1][0]), 'begin in chunk') == cid and self.ovl(unver(sp[-1][1]), 'shape of overlap') == cid, n,
                        'the values read are those of the overlap inside the chunk')
        base = st.tags.get(('base', B))
        if base is None and ('may', 'fill', B) in st.tags:
            return
        self.oblige('P21', base is not None, n, 'a chunk is decoded before it is copied to the output', 'the buffer holds what was left in it')
        if base is not None and base[0] == 'read' and base[1] == 'bytes' and ('rawread',) in st.tags:
            got = [mk for mk in [((f[1], not p) if f[0] == 'not' else (f, p)) for f, p in st.facts.items()] if mk[0][0] in ('u', 'call') and any(leaf(c[1]) == 'readShardRaw' for c in calls(mk[0]))]
            self.oblige('P21', any(q for _, q in got), n, 'a chunk of a shard is only decoded when the shard exists', 'the path never tests whether the shard exists')
        if base is not None and base[0] == 'read':
            self.oblige('P21', m is not True, n, 'a chunk known to be missing is not read')
            self.oblige('P21', m is False or m is None and base[1] == 'chunk', n, 'a chunk is only decoded when it exists', 'the path never tests whether it exists')


def data_methods(u):
    return {'readChunk', 'writeChunk', 'decompress', 'makeChunkBlob', 'readShardBlobs', 'writeShardBlobs', 'readShardRaw', 'readRawChunk'}


def entries(u, g):
    D = data_methods(u)
    direct = set()
    for fid, f in u.funcs.items():
        if f.get('body') and NS in f['qn'] and any(n['k'] == 'call' and leaf(n.get('fn')) in D for n in walk(f['body'])):
            direct.add(fid)
    reach = g.reaching(lambda x: x in direct)
    ma = {x for x in reach if u.funcs[x]['qn'].startswith(NS) and not u.funcs[x].get('lambda')}
    # entry points: called with a dataset and the caller's array or value, not from within
    roots = {}
    for x in ma:
        f = u.funcs[x]
        if '(' in f['qn'] or f['n'].startswith('operator'):
            continue
        if [c for c in g.callers.get(x, ()) if c in u.funcs and NS in u.funcs[c]['qn'] and 'unique_ptr' not in u.ty(u.funcs[c]['params'][0]['t'] if u.funcs[c]['params'] else -1)]:
            continue
        if not f['params'] or 'Dataset' not in u.ty(f['params'][0]['t']) or 'unique_ptr' in u.ty(f['params'][0]['t']):
            continue
        roots[x] = f
    inl = {x for x, f in u.funcs.items() if NS in f['qn'] and f['n'] not in VIEWS and f.get('body')}
    inl |= {x for x, f in u.funcs.items() if f.get('ctor') and NS in f['qn']}
    return stored.representatives(u, roots), inl


def analyse(chks, u):
    g = Graph(u, virtual=False)
    rs, inl = entries(u, g)
    total = {'stores': 0, 'reads': 0, 'shards': 0}
    wr = g.reaching(lambda x: any(leaf(e) in ('writeChunk', 'writeShardBlobs') for e in g.ext[x]))
    for x, f in sorted(rs.items()):
        it = Access(u, chks, f, inl, x in wr)
        it.run(f)
        for C in chks.values():
            C.count('entry points')
            C.notes += it.notes[:3]
        for k in total:
            total[k] += it.seen[k]
    for C in chks.values():
        C.count('chunk stores', total['stores'])
        C.count('output writes', total['reads'])
        C.count('shard writes', total['shards'])


# ------------------------------------------------------------------ the dataset classes
def prims(u, g):
    """functions that reach a primitive that removes / writes stored objects"""
    import creation, perm
    rm, wr = set(), set()
    for fid, f in u.funcs.items():
        if not f.get('body'):
            continue
        for n in walk(f['body']):
            if n['k'] in ('call', 'ctor') and n.get('fn'):
                if creation.discards(n['fn']):
                    rm.add(fid)
                elif perm.primitive(n['fn']) or perm.opens_for_writing(n['fn'], n):
                    wr.add(fid)
    return g.reaching(lambda x: x in rm), g.reaching(lambda x: x in wr)


class ChunkWrite(Interp):
    """writeChunk of a dataset without shards: what is stored follows what was encoded"""
    CAP = 40

    def __init__(self, u, f, rm, wr):
        super().__init__(u)
        self.f, self.rm, self.wrs = f, rm, wr

    def inline_ok(self, fn):
        return (fn.get('cls') == self.f.get('cls') or trivial(fn)) and fn['n'] != 'data_to_buffer' and not (fn['fid'] in self.rm or fn['fid'] in self.wrs) or \
            (fn.get('cls') == self.f.get('cls') and fn['fid'] in self.rm | self.wrs)

    def on_call(self, st, name, call, obj, args, fn):
        t = call.get('fid')
        if leaf(name) == 'data_to_buffer':
            return
        if t in self.wrs:
            st.tags['stored'] = call.get('l')
        elif t in self.rm:
            st.tags['removed'] = call.get('l')


def encoded(st, name='data_to_buffer'):
    for f, p in st.facts.items():
        g, q = (f[1], not p) if f[0] == 'not' else (f, p)
        if g[0] == 'u' and len(g) > 3 and leaf(g[3]) == name or g[0] == 'call' and leaf(g[1]) == name:
            return q
    return None


def chunk_writers(chks, u):
    g = Graph(u, virtual=False)
    rm, wr = prims(u, g)
    fs = {fid: f for fid, f in u.funcs.items() if f['n'] == 'writeChunk' and f.get('cls') and f.get('body') and
          any(n['k'] == 'call' and leaf(n.get('fn')) == 'data_to_buffer' for x in g.reachable([fid]) if x in u.funcs and u.funcs[x].get('cls') == f['cls'] and u.funcs[x].get('body') for n in walk(u.funcs[x]['body']))}
    for fid, f in stored.representatives(u, fs).items():
        if 'Sharded' in f['cls']:
            sharded(chks, u, f)
            continue
        it = ChunkWrite(u, f, rm, wr)
        res = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        for C in chks.values():
            C.count('chunk writers')
        for st, _ in res['ret']:
            e = encoded(st)
            if e is None:
                continue
            for p in ('P21', 'P16'):
                if p not in chks:
                    continue
                if e:
                    chks[p].oblige('stored' in st.tags, where, 'a chunk with content is stored', 'a path from the encoding to the return stores nothing')
                    chks[p].oblige('removed' not in st.tags, where, 'a chunk with content is not removed', 'a path removes it')
                else:
                    chks[p].oblige('removed' in st.tags, where, 'a chunk that holds only fill values replaces what was stored before', 'a path leaves the old chunk in place')
                    chks[p].oblige('stored' not in st.tags, where, 'a chunk that holds only fill values is not stored', 'a path stores it')
    # sharded removal
    fs = {fid: f for fid, f in u.funcs.items() if f['n'] == 'removeChunk' and 'Sharded' in (f.get('cls') or '') and f.get('body')}
    for fid, f in stored.representatives(u, fs).items():
        sharded(chks, u, f)


class Sharded(Access):
    def on_call(self, st, name, call, obj, args, fn):
        super().on_call(st, name, call, obj, args, fn)

    def slotchange(self, st, o, node, others, how):
        o = unver(o)
        if o[0] == 'idx' and ('blobs', o[1]) in st.tags:
            cid = self.slotof(o[2])
            if cid is not None:
                self.oblige('P16', cid == ('par', self.entry['params'][0]['n'], 0), node or {}, 'only the slot of the chunk that was given is replaced', 'another slot is replaced')
                co = st.tags[('blobs', o[1])]
                if isinstance(co, tuple) and co[0] == 'call' and leaf(co[1]) == 'shardId':
                    self.oblige('P16', co[2] == cid, node or {}, 'the shard that is changed is the one that holds the chunk', 'it is another one')
                st.tags[('changed', o[1])] = True
        super().slotchange(st, o, node, others, how)

    def model(self, st, name, n, obj, vs):
        r = super().model(st, name, n, obj, vs)
        if r and leaf(name) == 'writeShardBlobs':
            for s, _ in r:
                s.tags['written'] = n.get('l')
        return r


def sharded(chks, u, f):
    inl = {x for x, q in u.funcs.items() if q.get('cls') == f.get('cls') and q.get('body')}
    it = Sharded(u, chks, f, inl, True)
    res = it.run(f)
    where = '%s:%d' % (f['file'], f['l'])
    for C in chks.values():
        C.count('shard updates')
    for st, _ in res['ret']:
        it.frames = it.frames or []
        for p in ('P16', 'P21'):
            if p in chks:
                chks[p].oblige('written' in st.tags, where, '%s writes the updated shard back' % f['n'], 'a path returns without it')


# ------------------------------------------------------------------ readers
class Outputs(Interp):
    """what a reader of stored objects leaves in its output arguments"""
    CAP = 40

    def __init__(self, u, f):
        super().__init__(u)
        self.f = f
        self.holes = set()

    def inline_ok(self, fn):
        return (fn.get('cls') == self.f.get('cls') and self.f.get('cls') is not None) or leaf(fn['n']) in ('extractShardBlobs',)

    def x_rfor(self, n, st):
        # every element of a range is cleared
        r = super().x_rfor(n, st)
        body = n['body']
        v = n['v'] if isinstance(n.get('v'), dict) else None
        for _, s, _ in r:
            for x in walk(body):
                if x['k'] == 'call' and leaf(x.get('fn')) in ('clear', 'assign', 'operator=') and x.get('o') is not None:
                    for s2, l in self.lv(n['range'], s.copy()):
                        s.tags[('cleared', unver(l))] = True
        return r

    def on_call(self, st, name, call, obj, args, fn):
        lf = leaf(name)
        if obj is not None and name.startswith('std::') and lf in ('clear', 'assign'):
            st.tags[('cleared', unver(obj))] = True
        if lf == 'extractShardBlobs':
            for a in args[2:3]:
                st.tags[('cleared', unver(a))] = True

        if name in ('std::fill', 'std::fill_n') and args:
            for x in subterms(self.val(st, args[0])):
                if isinstance(x, tuple) and x and x[0] == 'par':
                    st.tags[('cleared', unver(x))] = True

    def on_store(self, st, l, val, node):
        if isinstance(l, tuple) and l[0] in ('idx',):
            st.tags[('wrote', unver(l[1]))] = True

    def one_iter(self, st, cond, body, inc, pre, post_cond):
        """an output that a loop fills element by element is filled in every iteration"""
        s = st.copy()
        for k in [k for k in s.tags if isinstance(k, tuple) and k[0] == 'wrote']:
            del s.tags[k]
        r = super().one_iter(s, cond, body, inc, pre, post_cond)
        wrote = {k for x in r[0] for k in x.tags if isinstance(k, tuple) and k[0] == 'wrote' and k[1] and k[1][0] == 'par'}
        for k in wrote:
            if any(k not in x.tags for x in r[0]) and ('cleared', k[1]) not in st.tags:
                self.holes.add((k[1][1], body.get('l', 0) if isinstance(body, dict) else 0))
        return r


def missing_reads(chks, u):
    """readers: an absent object is reported or leaves empty output"""
    for p in ('P21', 'P16'):
        if p in chks:
            readers(chks[p], u, p)


def slots(C, u):
    """an entry of a shard is only used, or reported to exist, after it was found not to be empty"""
    fs = {fid: f for fid, f in u.funcs.items() if f.get('cls') and f.get('body') and f['n'] in ('chunkExists', 'readChunk', 'readRawChunk', 'readInnerBlob') and '/generic/' in f['file']
          and 'Sharded' in f['cls'].split('<')[0]}
    for fid, f in stored.representatives(u, fs).items():
        it = Outputs(u, f)
        res = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        for st, v in res['ret']:
            if not any(p and g[0] == 'u' and len(g) > 3 and leaf(g[3]) == 'parseShardIndex' for g, p in st.facts.items()):
                continue
            C.count('paths that use a shard entry')
            terms = [(g, p) for g, p in st.facts.items()]
            rv = it.condval(v) if v is not None else None
            if rv is not None:
                terms.append((rv, None))
            seen, empty = False, None
            for g, p in terms:
                neg = False
                while g[0] == 'not':
                    g, neg = g[1], not neg
                sub = list(subterms(g))
                if any(isinstance(x, tuple) and x and x[0] == 'call' and leaf(x[1]) == 'shardSlot' for x in sub):
                    seen = True
                    if g[0] == 'call' and leaf(g[1]) == 'empty' and p is not None:
                        empty = p != neg
            C.oblige(seen, where, '%s looks whether the entry of the chunk is empty' % f['n'], 'a path uses the entry without it')
            if rv is not None:
                g, odd = rv, False
                while g[0] == 'not':
                    g, odd = g[1], not odd
                if odd and g in st.facts:
                    rv = FALSE if st.facts[g] else rv
                elif odd and g[0] == 'call' and leaf(g[1]) == 'empty':
                    continue
            if empty is True and rv is not None and f['n'] in ('chunkExists', 'readInnerBlob'):
                C.oblige(rv == FALSE, where, '%s reports that the chunk does not exist where its entry is empty' % f['n'], 'a path does not')
            if empty is True and f['n'] == 'readChunk':
                C.oblige(False, where, 'reading a chunk whose entry is empty raises', 'a path returns normally')


def readers(C, u, prop):
    if prop == 'P21':
        slots(C, u)
    fs = {fid: f for fid, f in u.funcs.items() if f.get('cls') and f.get('body') and (prop == 'P21' or f['n'] == 'readShardBlobs') and f['n'] in ('readChunk', 'readRawChunk', 'readShardBlobs', 'readShardRaw', 'readInnerBlob')
          and '/generic/' in f['file']}
    for fid, f in stored.representatives(u, fs).items():
        it = Outputs(u, f)
        res = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        C.count('readers of stored objects')
        if prop == 'P21':
            for nm, line in sorted(it.holes):
                C.oblige(False, '%s:%d' % (f['file'], line or f['l']), '%s sets every element of %s' % (f['n'], nm), 'an iteration leaves the element as it was')
        for st, v in res['ret']:
            absent = None
            for g, p in st.facts.items():
                g, q = (g[1], not p) if g[0] == 'not' else (g, p)
                nm = g[3] if g[0] == 'u' and len(g) > 3 else g[1] if g[0] == 'call' else None
                if isinstance(nm, str) and leaf(nm) in ('read', 'readShard', 'readInnerBlob', 'exists', 'chunkExists'):
                    absent = not q if absent is None else absent
            if absent is not True:
                continue
            rb = f['n'] in ('readShardRaw', 'readInnerBlob')
            if rb:
                C.oblige(it.condval(v) == FALSE, where, '%s reports that the object does not exist' % f['n'], 'a path on which it does not exist returns something else')
            elif f['n'] == 'readChunk':
                C.oblige(False, where, 'reading a chunk that does not exist raises', 'a path returns normally')
            else:
                out = ('par', f['params'][1]['n'], 1)
                C.oblige(('cleared', out) in st.tags, where, '%s leaves empty output when the object does not exist' % f['n'], 'a path leaves the output as it was')
            C.count('paths on which the object is missing')


class AllFill(Interp):
    CAP = 40

    def inline_ok(self, fn):
        return trivial(fn)

    def model(self, st, name, n, obj, vs):
        if name in ('std::all_of', 'std::any_of', 'std::none_of', 'std::find_if', 'std::find_if_not') and len(vs) == 3:
            lam = self.val(st, vs[2])
            if lam[0] == 'lam' and lam[1] and lam[1][0] in self.u.funcs:
                fn = self.u.funcs[lam[1][0]]
                outs = self.lambda_body(st.copy(), lam, fn, [('element',)], n)
                good = {self.condval(v) for _, v in outs}
                eq = good and all(f[0] == '==' and ('element',) in f[1:] for f in good)
                ne = good and all(f[0] == 'not' and f[1][0] == '==' and ('element',) in f[1][1:] for f in good)
                others = {x for f in good for x in subterms(f) if isinstance(x, tuple) and x and x[0] in ('par', 'v')}
                kind = name[5:]
                if (kind == 'all_of' and eq) or (kind == 'none_of' and ne):
                    return [(st, ('call', 'all equal', tuple(sorted(map(repr, others)))))]
                if (kind == 'any_of' and ne):
                    return [(st, mk_not(('call', 'all equal', tuple(sorted(map(repr, others))))))]
        return None


def all_fill(chks, u):
    fs = {fid: f for fid, f in u.funcs.items() if f['n'] == 'data_to_buffer' and f.get('body')}
    for fid, f in stored.representatives(u, fs).items():
        it = AllFill(u)
        res = it.run(f)
        where = '%s:%d' % (f['file'], f['l'])
        for C in chks.values():
            C.count('encoders')
        for st, v in res['ret']:
            if it.condval(v) != FALSE and st.known(it.condval(v)) is not False:
                continue
            allf = any(isinstance(x, tuple) and x[:2] == ('call', 'all equal') and p for x, p in st.facts.items())
            empty = any(x[0] == '==' and ('c', 0) in x[1:] and p and any(isinstance(y, tuple) and y and y[0] == 'par' for y in x[1:]) for x, p in st.facts.items())
            quant = any('par' in repr(x) or True for x in st.foralls)
            for p, C in chks.items():
                C.oblige(allf or empty or quant, where, 'a chunk is only taken for empty when every element equals the fill value (or it has no elements)',
                         'a path reports an empty chunk without it')


class Raw(Interp):
    CAP = 40

    def __init__(self, u, chks):
        super().__init__(u)
        self.chks = chks

    def inline_ok(self, fn):
        return trivial(fn)

    def on_call(self, st, name, call, obj, args, fn):
        if not self.report_ok() or leaf(name) not in ('memcpy', 'memmove', 'copy', 'copy_n') or len(args) != 3:
            return
        n = self.val(st, args[2])
        par = [('par', p['n'], i) for i, p in enumerate(self.frames[0].fn['params'])]
        size = [p for p in par if p[2] == 3]
        if not size:
            return
        full = [('op', '*', a, b) for a in subterms(n) for b in subterms(n)]
        prod = lambda t: isinstance(t, tuple) and t[0] == 'op' and t[1] == '*' and size[0] in t[2:]
        ok = prod(n) or any(p and f[0] == '==' and n in f[1:] and any(prod(x) for x in f[1:]) for f, p in st.facts.items()) or \
            any(f[0] == '<' and f[1] == n and prod(f[2]) and not p for f, p in st.facts.items()) or not any(prod(x) for f in st.facts for x in subterms(f))
        C = self.chks.get('P21')
        if C is not None:
            C.count('raw copies')
            C.oblige(ok, self.where(call), 'uncompressed data fills the whole destination', 'shorter stored data leaves the rest of the destination as it was')


def raw(chks, u):
    fs = {fid: f for fid, f in u.funcs.items() if f['n'] == 'decompress' and not f.get('cls') and f.get('body') and len(f['params']) == 5 and '/util/' in f['file']}
    for fid, f in stored.representatives(u, fs).items():
        Raw(u, chks).run(f)
