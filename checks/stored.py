"""P05: sizes, offsets and counts taken from stored bytes are validated before they are used.

Every function that parses stored bytes, and every function that obtains them from the storage, is
interpreted abstractly.  Each access to a byte buffer (element, pointer+length, iterator range, source
of a decoder) has to be inside the buffer by the inequalities established on the path; unsigned
arithmetic is only believed when it provably does not wrap.  Shard index entries may only be used
after the checksum comparison and the per-entry range test of the same shard, decoders may only be
given capacities the destination has.
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from absint import *
from common import Check, rel
from graph import Graph, trivial
from requests import storage_primitive

BYTES = 'std::vector<char>'
SMALL = {'unsigned short', 'uint16_t', 'std::uint16_t', 'unsigned char', 'uint8_t', 'char', 'short', 'int', 'unsigned int', 'uint32_t', 'std::uint32_t', 'unsigned', 'bool'}
UNSIGNED = {'unsigned short', 'uint16_t', 'unsigned char', 'uint8_t', 'unsigned int', 'uint32_t', 'unsigned long', 'std::size_t', 'size_t', 'uint64_t', 'unsigned long long'}
SIZEOF = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8,
          'unsigned long long': 8, 'float': 4, 'double': 8, 'long double': 16, 'bool': 1,
          'std::complex<float>': 8, 'std::complex<double>': 16, 'std::complex<long double>': 32}
ENTRY = 'ShardEntry'
COPY = ('memcpy', 'memmove', 'std::memcpy', 'std::memmove', '__builtin_memcpy')


def plain(t):
    return t.replace('const ', '').replace(' const', '').replace('&', '').strip()


def is_bytes(t):
    t = plain(t).replace(', std::allocator<char>', '')
    return t in (BYTES, 'vector<char>')


def is_blobs(t):
    return plain(t).replace(', std::allocator<char>', '').startswith('std::vector<std::vector<char>')


def is_entries(t):
    t = plain(t)
    return t.startswith('std::vector<') and ENTRY in t


class Stored(Interp):
    MAXDEPTH = 14

    def __init__(self, u, chk, inl, entry, sources):
        super().__init__(u)
        self.chk, self.inl, self.entry, self.sources = chk, inl, entry, sources
        self.bytevecs = set()
        self.small = set()
        self.uns = set()
        self.ptrpar = {}          # pointer parameter -> term of its length in bytes
        self.entryvecs = set()
        self.sinks = 0
        self.outcap = {}          # output pointer parameter -> term of the capacity parameter
        self.chunksize = None     # (size term, default size term) of a chunk parameter
        self.varlen_ok = True

    def inline_ok(self, fn):
        if fn['fid'] in self.sources:
            return False
        if fn['n'] == 'decompress' or fn['qn'].startswith('z5::util::reverseEndianness'):
            return False
        return fn['fid'] in self.inl

    # ------------------------------------------------------------------ arithmetic
    def ev(self, n, st, dst=None):
        out = super().ev(n, st, dst) if dst is not None else super().ev(n, st)
        if n and n['k'] in ('ref', 'mem', 'cast', 'un') and plain(self.ty(n)) in SMALL:
            for s, v in out:
                if isinstance(v, tuple) and not is_c(v):
                    self.small.add(v)
        if n and plain(self.ty(n)) in UNSIGNED:
            for s, v in out:
                if isinstance(v, tuple) and not is_c(v) and v[0] != 'op':
                    self.uns.add(v)
        return out

    def is_small(self, st, a, seen=()):
        if is_c(a):
            return isinstance(a[1], int) and abs(a[1]) < 1 << 40
        if a in self.small or (a[0] == 'call' and a[1] in ('size', 'std::accumulate')):
            return True
        if root_of(a)[0] in ('par', 'this', 'nothis') and a[0] in ('par', 'f') and not self.tainted(st, a):
            return True
        if a[0] == 'idx' and a[1] in self.bytevecs:
            return True
        if a in seen:
            return False
        for f, p in st.facts.items():
            if f[0] == '<' and ((p and f[1] == a) or (not p and f[2] == a)):
                b = f[2] if p else f[1]
                if all(self.is_small(st, x, tuple(seen) + (a,)) for x in lin(b)[0]):
                    return True
        return False

    def usable(self, st):
        """facts whose unsigned arithmetic cannot wrap"""
        todo = [(f, p) for f, p in st.facts.items() if f[0] in ('<', '==')]
        good = [({a: -1}, 0) for a in self.nonneg(st)]
        while True:
            rest = []
            for f, p in todo:
                if all(self.nowrap(st, x, good) for x in (f[1], f[2])):
                    good.extend(le_forms(f, p))
                else:
                    rest.append((f, p))
            if len(rest) == len(todo):
                return good
            todo = rest

    def nonneg(self, st):
        out = set()
        for f in list(st.facts):
            for t in subterms(f):
                if isinstance(t, tuple) and t and (t[0] == 'call' and len(t) > 2 and t[1] == 'size' or t in self.uns):
                    out.add(t)
                elif isinstance(t, tuple) and t and f[0] == '<' and t[:2] == ('u', 'loop') and t in self.small and f[1] == t:
                    out.add(t)     # a counter that is bounded from above counts up from where it started
        return out

    def nowrap(self, st, t, good):
        for x in subterms(t):
            if isinstance(x, tuple) and len(x) == 4 and x[0] == 'op':
                if x[1] in ('+', '*') and not all(self.is_small(st, a) for a in lin(x)[0]):
                    # a sum with one unbounded term is fine when the bound is known for the whole difference
                    if not (x[1] == '+' and any(y[0] == 'call' and y[1] in ('begin',) or y[0] == 'addr' for y in lin(x)[0] if isinstance(y, tuple))):
                        return False
                if x[1] == '-' and not prove(lin_sub(lin(x[3]), lin(x[2])), good):
                    return False
        return True

    def le(self, st, a, b, strict=False, terms=(), low=None):
        """a <= b over lin forms; `terms` are the source terms whose evaluation must not wrap"""
        good = self.usable(st)
        for t in terms:
            for x in subterms(t):
                if isinstance(x, tuple) and len(x) == 4 and x[0] == 'op' and x[1] == '-' and not self.is_ptr(x[2]) and not prove(lin_sub(lin(x[3]), lin(x[2])), good):
                    return False
        if low is not None and any(v < 0 for v in low[0].values()) | (low[1] < 0) and not prove(lin_sub(({}, 0), low), good):
            return False
        f = lin_sub(a, b)
        if strict:
            f = (f[0], f[1] + 1)
        return prove(f, good)

    # ------------------------------------------------------------------ pointers
    def norm(self, st, v):
        """value -> (container or pointer parameter, offset as lin form, source term) or None"""
        if not isinstance(v, tuple):
            return None
        co, c = lin(v)
        base = None
        for a, k in co.items():
            if isinstance(a, tuple) and k == 1 and (a[0] == 'addr' and a[1][0] == 'idx' or a[0] == 'call' and a[1] in ('begin', 'end') or a in self.ptrpar):
                if base is not None:
                    return None
                base = a
        if base is None:
            return None
        off = ({k: x for k, x in co.items() if k != base}, c)
        if base in self.ptrpar:
            return base, off, v
        if base[0] == 'addr':
            o2 = lin(base[1][2])
            cont = base[1][1]
            if isinstance(cont, tuple) and cont[0] in ('addr', 'op') or cont in self.ptrpar:
                r = self.norm(st, cont)
                if r is None:
                    return None
                cont, o3 = r[0], r[1]
                o2 = lin_sub(o2, lin_sub(({}, 0), o3))
            return cont, lin_sub(off, lin_sub(({}, 0), o2)), v
        if base[1] == 'begin':
            return base[2], off, v
        return base[2], lin_sub(off, lin_sub(({}, 0), lin(self.size_of(st, base[2])))), v

    def is_ptr(self, t):
        return any(isinstance(a, tuple) and a and (a[0] == 'addr' or a in self.ptrpar or a[0] == 'call' and a[1] in ('begin', 'end')) for a in lin(t)[0])

    def cap(self, st, base):
        if base in self.ptrpar:
            return lin(self.ptrpar[base])
        return lin(self.size_of(st, base))

    def stored_base(self, base):
        return base in self.bytevecs or base in self.ptrpar

    def need(self, st, base, off, cnt, node, what, terms=()):
        if not self.report_ok():
            return
        self.sinks += 1
        w = self.where(node)
        end = lin_sub(off, lin_sub(({}, 0), cnt))
        ok = self.le(st, end, self.cap(st, base), terms=terms, low=off)
        if not ok:
            ok = self.entry_range(st, base, off, cnt)
        self.chk.oblige(ok, w, '%s: %s stays inside the stored bytes' % (self.entry['qn'], what),
                        'end %r is not known to be at most %r' % (end, self.cap(st, base)))

    def entry_range(self, st, base, off, cnt):
        """offset + length of a validated, non-empty index entry of this very buffer"""
        e = self.entry_of(off)
        if e is None:
            return self.raw_range(st, base, off, cnt)
        if not self.entry_ok(st, e, base):
            return False
        n = ({('f', e, 'nbytes'): 1}, 0)
        return cnt == n or cnt == ({}, 0) or lin_sub(lin_sub(({}, 0), lin_sub(({}, 0), cnt)), n) == ({}, 0)

    def entry_of(self, off):
        """the index entry whose offset (and possibly length) makes up this form"""
        co, c = off
        if c:
            return None
        es = {k[1] for k in co if isinstance(k, tuple) and k[0] == 'f' and k[2] == 'offset' and co[k] == 1}
        if len(es) != 1:
            return None
        e = es.pop()
        for k, x in co.items():
            if k not in (('f', e, 'offset'), ('f', e, 'nbytes')) or x != 1:
                return None
        return e

    def entry_ok(self, st, e, base):
        if e[0] != 'idx':
            return False
        ok = self.crc_known(st, base) and ('bounded', strip_ver(e[1]), base) in st.tags
        return ok and self.nonempty(st, e)

    def nonempty(self, st, e):
        return all(any(f[0] == '==' and not p and any(t in f[1:] for t in (('f', e, fl), ('f', ('deref', e), fl))) for f, p in st.facts.items()) for fl in ('offset', 'nbytes'))

    def raw_range(self, st, base, off, cnt):
        """offset and length as reported together with the buffer by one successful call of the storage interface"""
        co, c = off
        if c or len(co) != 1:
            return False
        o = next(iter(co))
        if not (isinstance(o, tuple) and o[0] == 'idx' and co[o] == 1):
            return False
        for t, res in st.tags.items():
            if t[0] == 'raw' and t[1] == base and strip_ver(o[1]) == t[2] and st.known(res):
                if cnt == ({}, 0):
                    return True
                if len(cnt[0]) == 1 and not cnt[1]:
                    k = next(iter(cnt[0]))
                    return cnt[0][k] == 1 and k[0] == 'idx' and strip_ver(k[1]) == t[3] and k[2] == o[2]
        return False

    # ------------------------------------------------------------------ taint
    def tainted(self, st, t):
        for x in subterms(t):
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == 'stored':
                return True
            if x[0] == 'idx' and len(x) == 3 and x[1] in self.bytevecs:
                return True
            if ('may', 'taint', x) in st.tags:
                return True
        return False

    # ------------------------------------------------------------------ hooks
    def ct(self, call):
        return self.u.ty(call.get('ot', -1))

    def lv(self, n, st):
        out = super().lv(n, st)
        if n['k'] == 'idx' or n['k'] == 'un' and n['op'] == '*':
            for s, l in out:
                if l[0] == 'deref':
                    r = self.norm(s, l[1])
                    i = ('c', 0)
                elif l[0] == 'idx':
                    r = self.norm(s, l[1])
                    i = l[2]
                else:
                    continue
                if r and self.stored_base(r[0]):
                    self.need(s, r[0], lin_sub(r[1], lin_sub(({}, 0), lin(i))), ({}, 1), n, 'the byte read', (r[2], i))
        return out

    def on_index(self, st, obj, i, node, checked):
        if checked:
            return
        t = self.ct(node)
        if is_bytes(t):
            self.bytevecs.add(obj)
        if is_entries(t):
            self.entryvecs.add(obj)
        # the address of an element is judged where it is used
        if obj in self.bytevecs and not self.addr_taken:
            self.need(st, obj, lin(i), ({}, 1), node, 'the byte read', (i,))

    addr_taken = 0

    def e_un(self, n, st):
        if n['op'] == '&':
            self.addr_taken += 1
            try:
                return super().e_un(n, st)
            finally:
                self.addr_taken -= 1
        return super().e_un(n, st)

    def std_model(self, s, name, n, obj, vs, want_lv):
        if obj is not None and is_bytes(self.ct(n)):
            self.bytevecs.add(obj)
        for a, v in zip(n.get('a') or [], vs):
            if a and isinstance(v, tuple) and is_bytes(self.ty(a)) and v[0] in ('v', 'f', 'par', 'idx', 'obj'):
                self.bytevecs.add(v)
            if a and isinstance(v, tuple) and is_entries(self.ty(a)) and v[0] in ('v', 'f', 'par', 'obj'):
                self.entryvecs.add(v)
        if obj is not None and is_entries(self.ct(n)):
            self.entryvecs.add(obj)
        if name.startswith('std::vector::') and name.rsplit('::', 1)[-1] in ('assign', 'insert', 'append_range'):
            self.generic(s, n, vs, name)
        return super().std_model(s, name, n, obj, vs, want_lv)

    def model(self, st, name, call, obj, args):
        if name.startswith('z5::util::reverseEndianness'):
            return [(st, args[0])] if args and not name.endswith('Inplace') else [(st, VOID)]
        if name == 'std::accumulate' and len(args) == 4:
            return [(st, product(self, st, args))]
        if name in COPY and len(args) == 3:
            vals = [self.val(st, a) for a in args]
            self.at_copy(st, call, vals)
            src = self.norm(st, vals[1])
            d = vals[0]
            if d[0] == 'addr':
                self.havoc(st, d[1], call)
                if src and self.stored_base(src[0]):
                    v = ('stored', next(self.uid))
                    if d[1][0] in ('v', 'f'):
                        st.store[d[1]] = v
                        ty = plain(self.pointee(call['a'][0]))
                        if ty in SMALL:
                            self.small.add(v)
                    st.tags[('may', 'taint', root_of(d[1]))] = True
            return [(st, vals[0])]
        return None

    def pointee(self, a):
        while a and a['k'] == 'cast':
            a = a['e']
        t = self.ty(a) if a else ''
        return t.rstrip('*& ')

    def at_copy(self, st, call, vals):
        if not self.report_ok():
            return
        w = self.where(call)
        r = self.norm(st, vals[1])
        if r and self.stored_base(r[0]):
            self.need(st, r[0], r[1], lin(vals[2]), call, 'the source of the copy', (r[2], vals[2]))
        if vals[0] in self.outcap:
            t = plain(self.ty(call['a'][0]) if call['a'][0]['k'] != 'cast' else self.cast_type(call['a'][0]))
            size = SIZEOF.get(t.rstrip('* '), 1)
            cap = ('op', '*', ('c', size), self.outcap[vals[0]]) if size > 1 else self.outcap[vals[0]]
            self.sinks += 1
            self.chk.oblige(self.le(st, lin(vals[2]), lin(cap)), w, '%s: the copy into the output stays inside the capacity of the output' % self.entry['qn'])
        d = self.norm(st, vals[0])
        if d and self.stored_base(d[0]):
            self.need(st, d[0], d[1], lin(vals[2]), call, 'the destination of the copy', (d[2], vals[2]))

    def cast_type(self, a):
        """the element pointer type below the conversion to void *"""
        while a and a['k'] == 'cast':
            t = self.ty(a)
            if 'void' not in t:
                return t
            a = a['e']
        return self.ty(a) if a else ''

    def generic(self, st, n, vs, name):
        """pointers and iterators into stored bytes that are handed on, with the count that follows them"""
        if not self.report_ok():
            return
        vals = [self.val(st, v) if isinstance(v, tuple) else VOID for v in vs]
        prev = None
        for i, v in enumerate(vals):
            r = self.norm(st, v)
            if not r or not self.stored_base(r[0]):
                prev = None
                continue
            cnt = ({}, 0)
            if i + 1 < len(vals) and not self.norm(st, vals[i + 1]) and self.integral(n['a'][i + 1]):
                cnt = lin(vals[i + 1])
                self.need(st, r[0], r[1], cnt, n, 'the range given to %s' % name, (r[2], vals[i + 1]))
            elif prev and prev[0] == r[0]:
                cnt = lin_sub(r[1], prev[1])
                self.need(st, r[0], prev[1], cnt, n, 'the range given to %s' % name, (r[2],))
            elif r[1] != ({}, 0) and not (i + 1 < len(vals) and (self.norm(st, vals[i + 1]) or (None,))[0] == r[0]):
                self.need(st, r[0], r[1], cnt, n, 'the position given to %s' % name, (r[2],))
            prev = r

    def integral(self, a):
        t = plain(self.ty(a)) if a else ''
        return t in ('unsigned long', 'std::size_t', 'size_t', 'int', 'unsigned int', 'long', 'unsigned long long') or t in SMALL

    def ctor_container(self, s, cls, l, n, vs, dst):
        if 'vector' in cls and n['a'] and len([v for v in vs if v is not None]) >= 2:
            self.generic(s, n, vs, 'std::vector')
        return super().ctor_container(s, cls, l, n, vs, dst)

    def on_call(self, st, name, n, obj, vs, fn):
        base = name.rsplit('::', 1)[-1]
        for a, v in zip(n.get('a') or [], vs):
            if a and isinstance(v, tuple) and is_bytes(self.ty(a)) and v[0] in ('v', 'f', 'par', 'idx', 'obj'):
                self.bytevecs.add(v)
            if a and isinstance(v, tuple) and is_entries(self.ty(a)) and v[0] in ('v', 'f', 'par', 'obj'):
                self.entryvecs.add(v)
        if fn is not None and self.can_inline(fn) and base != 'decompress':
            return
        if base == 'decompress' and not name.startswith('std::'):
            self.at_decode(st, name, n, vs)
            return
        if name.startswith('std::vector::') and base in ('assign', 'insert'):
            return
        self.generic(st, n, vs, name)

    def at_decode(self, st, name, n, vs):
        if not self.report_ok():
            return
        w = self.where(n)
        self.chk.count('decoder calls')
        vals = [self.val(st, v) if isinstance(v, tuple) else VOID for v in vs]
        if is_bytes(self.ty(n['a'][0])):
            src, rest, nodes = None, vals[1:], n['a'][1:]
        else:
            src, rest, nodes = vals[0], vals[2:], n['a'][2:]
            r = self.norm(st, src)
            if r is None and src[0] == 'par':
                r = (src, ({}, 0), src)
            if r is None or not self.stored_base(r[0]):
                if self.chk.oblige(False, w, '%s: the source of %s is a range of stored bytes' % (self.entry['qn'], name), repr(src)):
                    pass
                return
            self.need(st, r[0], r[1], lin(vals[1]), n, 'the source of the decoder', (r[2], vals[1]))
        if len(rest) < 2:
            return
        out, cap = rest[0], rest[1]
        self.sinks += 1
        r = self.norm(st, out)
        what = '%s: the capacity given to the decoder is one the destination has' % self.entry['qn']
        if r and r[0] not in self.ptrpar:
            ok = self.le(st, lin_sub(r[1], lin_sub(({}, 0), lin(cap))), lin(self.size_of(st, r[0])))
            self.chk.oblige(ok, w, what, 'capacity %r, destination holds %r' % (cap, self.size_of(st, r[0])))
            if self.tainted(st, cap) and not self.varlen(st):
                eq = any(f[0] == '==' and p and cap in f[1:] and not self.tainted(st, f[1] if f[2] == cap else f[2]) for f, p in st.facts.items())
                self.chk.oblige(eq, w, '%s: the number of elements to decode is not taken from the stored chunk alone' % self.entry['qn'])
            return
        if out in self.outcap:
            self.chk.oblige(self.le(st, lin(cap), lin(self.outcap[out])), w, what)
            return
        if self.chunksize:
            size, default = self.chunksize
            ok = cap == default or cap == size or self.le(st, lin(cap), lin(size))
            if ok and cap == default and self.zarr is not None and not st.known(self.zarr):
                ok = self.le(st, lin(cap), lin(size))
            if not ok and self.varlen(st):
                ok = True
                self.chk.count('variable length decodes')
            self.chk.oblige(ok, w, what, 'capacity %r' % (cap,))
            return
        self.chk.oblige(not self.tainted(st, cap), w, what, 'capacity %r' % (cap,))

    zarr = None

    def varlen(self, st):
        """the path established that the stored chunk announced itself as variable length"""
        return any(f[0] == '==' and p and any(x[0] == 'stored' for x in f[1:] if isinstance(x, tuple)) and any(is_c(x) and x[1] == 1 for x in f[1:])
                   for f, p in st.facts.items())

    def opaque(self, s, name, n, obj, vs):
        base = name.rsplit('::', 1)[-1]
        if obj is not None and n.get('virt') and n.get('fid') in self.sources:
            vecs = [v for v, a in zip(vs, n['a']) if isinstance(v, tuple) and self.ty(a).replace('std::size_t', 'unsigned long').find('vector<unsigned long') >= 0]
            byts = [v for v, a in zip(vs, n['a']) if isinstance(v, tuple) and is_bytes(self.ty(a))]
            pm = n.get('pm', '')
            outs = [v for v, a, m in zip(vs, n['a'], pm) if m == 'r' and v in vecs]
            if len(byts) == 1 and len(outs) == 2:
                r = super().opaque(s, name, n, obj, vs)
                for s2, v in r:
                    for t in [t for t in s2.tags if t[0] == 'raw']:
                        del s2.tags[t]
                    s2.tags[('raw', byts[0], outs[0], outs[1])] = v
                return r
        return super().opaque(s, name, n, obj, vs)

    def crc_known(self, st, b):
        """the path passed a comparison of a checksum of this buffer with a value stored in it"""
        for f, p in st.facts.items():
            if f[0] == '==' and p:
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    if self.is_crc(x, b) and (y[0] in ('u', 'stored', 'op') or self.tainted(st, y)) and not self.is_crc(y, b):
                        return True
        return False

    def is_crc(self, x, b):
        return any(isinstance(t, tuple) and t and t[0] == 'call' and t[1].rsplit('::', 1)[-1].startswith('crc32c') for t in subterms(x)) and mentions(x, b)

    # ------------------------------------------------------------------ index loops
    def one_iter(self, st, cond, body, inc, pre, post_cond):
        r = super().one_iter(st, cond, body, inc, pre, post_cond)
        ends = r[0]
        for e in list(self.entryvecs):
            idxs = set()
            for s in ends:
                for k in s.store:
                    if isinstance(k, tuple) and k[0] == 'f' and k[1][0] == 'idx' and k[1][1] == e and k[2] in ('offset', 'nbytes'):
                        idxs.add(k[1][2])
                for f in s.facts:
                    for t in subterms(f):
                        if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[2] in ('offset', 'nbytes') and isinstance(t[1], tuple) and t[1][0] == 'idx' and t[1][1] == e:
                            idxs.add(t[1][2])
            for i in idxs:
                el = ('idx', e, i)
                for b in self.bytevecs:
                    if ends and all(self.entry_bounded(s, el, b) for s in ends) and all(self.covers(s, i, e) for s in r[3]):
                        for s in r[3]:
                            s.tags[('bounded', e, b)] = True
                        self.chk.count('index validation loops') if self.report_ok() else None
        return r

    def covers(self, s, i, e):
        """the loop is only left through its condition once i has reached the number of entries"""
        n = self.size_of(s, e)
        if any(f[0] == '<' and not p and f[1] == i and f[2] == n for f, p in s.facts.items()):
            return True
        if any(f[0] == '==' and p and set(f[1:]) == {i, n} for f, p in s.facts.items()):
            return True
        return isinstance(i, tuple) and i[:2] == ('u', 'it')

    def entry_bounded(self, s, el, b):
        off, nb = (self.rd(s, ('f', el, x)) for x in ('offset', 'nbytes'))
        for v in (off, nb):
            if any(f[0] == '==' and p and v in f[1:] and not self.tainted(s, f[1] if f[2] == v else f[2]) for f, p in s.facts.items()):
                return True
        end = lin_sub(lin(off), lin_sub(({}, 0), lin(nb)))
        return self.le(s, end, lin(self.size_of(s, b)))

    def on_store(self, st, l, val, node):
        """entry fields that leave the function through an output parameter"""
        if not self.report_ok() or root_of(l)[0] != 'par' or not isinstance(val, tuple):
            return
        if root_of(l) in self.entryvecs or l[0] != 'idx':
            return
        for t in subterms(val):
            if isinstance(t, tuple) and len(t) == 3 and t[0] == 'f' and t[2] in ('offset', 'nbytes') and isinstance(t[1], tuple) and t[1][0] == 'idx' and strip_ver(t[1][1]) in self.entryvecs:
                self.sinks += 1
                bs = [b for b in self.bytevecs if ('bounded', strip_ver(t[1][1]), b) in st.tags]
                self.chk.oblige(any(self.entry_ok(st, t[1], b) for b in bs), self.where(node),
                                '%s: %s of an index entry is handed out only for non-empty entries of a validated index' % (self.entry['qn'], t[2]))


def product(it, st, args):
    return ('call', 'std::accumulate') + tuple(it.val(st, a) for a in args[:3])


class Sizes(Interp):
    def inline_ok(self, fn):
        return trivial(fn)

    def model(self, st, name, call, obj, args):
        if name == 'std::accumulate' and len(args) == 4:
            return [(st, product(self, st, args))]


def strip_ver(l):
    while isinstance(l, tuple) and l and l[0] == 'ver':
        l = l[1]
    return l


def prove(form, facts_, depth=4):
    """form <= 0 from non-negative integer combinations of facts (each <= 0)"""
    facts_ = [f for f in facts_ if f[0]]

    def ok(co, c, left):
        if not co:
            return c <= 0
        if left == 0:
            return False
        for fco, fc in facts_:
            for k, v in fco.items():
                if k in co and (co[k] > 0) == (v > 0) and co[k] % v == 0:
                    m = co[k] // v
                    r = dict(co)
                    for k2, v2 in fco.items():
                        r[k2] = r.get(k2, 0) - m * v2
                        if r[k2] == 0:
                            del r[k2]
                    if len(r) <= len(co) + 1 and ok(r, c - m * fc, left - 1):
                        return True
                    break
        return False
    co = {k: v for k, v in form[0].items() if v}
    return ok(co, form[1], depth)


def ptr_len_params(u, f):
    """(byte pointer, length) parameter pairs"""
    out = []
    for i, p in enumerate(f['params'][:-1]):
        t = u.ty(p['t']).strip()
        t2 = plain(u.ty(f['params'][i + 1]['t']))
        if t in ('const char *', 'const char *const') and t2 in ('std::size_t', 'size_t', 'unsigned long'):
            out.append((i, i + 1))
    return out


def out_cap_params(u, f):
    out = []
    for i, p in enumerate(f['params'][:-1]):
        t = u.ty(p['t']).strip()
        t2 = plain(u.ty(f['params'][i + 1]['t']))
        if t in ('void *', 'void *const') and t2 in ('std::size_t', 'size_t', 'unsigned long'):
            out.append((i, i + 1))
    return out


def par(f, i):
    return ('par', f['params'][i]['n'] or str(i), i)


def parsers(u):
    """functions that interpret bytes handed to them"""
    for f in u.funcs.values():
        if '/include/z5/' not in f['file'] or f.get('body') is None or f.get('lambda'):
            continue
        if '/compression/' in f['file'] or f.get('cls'):
            continue
        ts = [u.ty(p['t']) for p in f['params']]
        if any(is_entries(t) and 'const' in t for t in ts):
            continue           # judged in the context of the caller that validated the entries
        if any(is_bytes(t) and t.strip().startswith('const') for t in ts) or ptr_len_params(u, f):
            yield f


def chunk_sizes(u, f, it):
    """the size terms of a chunk handle parameter"""
    for i, p in enumerate(f['params']):
        cls = plain(u.ty(p['t']))
        if 'handle::Chunk<' not in cls:
            continue
        res = []
        for want in ('size', 'defaultSize', 'isZarr'):
            fs = [g for g in u.funcs.values() if g['n'] == want and not g['params'] and g.get('cls') and
                  (plain(g['cls']) == cls or u.derives(cls, g['cls']) or g['cls'].split('<')[0].endswith('handle::Chunk') and 'Chunk<' in g['cls'])]
            exact = [g for g in fs if plain(g['cls']) == cls]
            g = (exact or fs or [None])[0]
            if g is None:
                res.append(None)
                continue
            j = Sizes(u)
            outs = j.run(g, this=par(f, i))['ret']
            vals = {v for _, v in outs}
            res.append(vals.pop() if len(vals) == 1 else None)
        return res
    return None


def sources(u):
    """functions that fill a byte buffer from storage: the read functions of the stores and the virtual interface"""
    g = Graph(u, virtual=False)
    prim = g.reaching(lambda x: any(storage_primitive(e) for e in g.ext[x]))
    out = set()
    for fid, f in u.funcs.items():
        ts = [u.ty(p['t']).strip() for p in f['params']]
        if fid in prim and f.get('cls') and not u.derives(f['cls'], 'z5::Dataset') and any(is_bytes(t) and not t.startswith('const') for t in ts):
            out.add(fid)
    for base in u.over:
        c = u.mclass.get(base, '')
        if c.split('<')[0] == 'z5::Dataset':
            out.add(base)
    return out


def direct(u, srcs):
    """functions with a body that obtain stored bytes, also through helpers with output parameters"""
    def has(f, which):
        return any(n['k'] == 'call' and n.get('fid') in which and any(a and (is_bytes(u.ty(a.get('t', -1))) or is_blobs(u.ty(a.get('t', -1)))) for a in n['a'])
                   for n in facts.walk(f['body']))
    cur, out = set(srcs), {}
    while True:
        new = {fid for fid, f in u.funcs.items() if fid not in out and fid not in srcs and f.get('body') is not None and has(f, cur)}
        if not new:
            for fid, f in u.funcs.items():
                if fid not in out and fid not in srcs and f.get('body') is not None and not f.get('lambda') and \
                        any(n['k'] == 'lambda' for n in facts.walk(f['body'])) and contains(u, f, lambda n: n['k'] == 'lambda' and any(x in out for x in n.get('fids', ()))):
                    out[fid] = f
            return out
        for x in new:
            out[x] = u.funcs[x]
        cur |= {x for x in new if any((is_bytes(u.ty(p['t'])) or is_blobs(u.ty(p['t']))) and not u.ty(p['t']).strip().startswith('const') for p in u.funcs[x]['params'])}


def representatives(u, fs):
    """one instance of every template per width of the element type (instances of one definition only differ through it)"""
    out, seen = {}, set()
    for fid, f in fs.items():
        t = ' '.join([f.get('cls') or ''] + [u.ty(p['t']) for p in f['params']] + [x if isinstance(x, str) else '' for x in f.get('ta') or []] + [f.get('sig') or ''])
        if 'complex' in t or 'long double' in t:
            w = 'c'
        else:
            w = '1' if any(x in t for x in ('char', )) and not any(x in t for x in ('short', 'int', 'long', 'float', 'double')) else 'n'
        k = (f['file'], f['l'], f['qn'], w, 's3' if 's3::' in t else '')
        if k not in seen:
            seen.add(k)
            out[fid] = f
    return out


def analyse(chk, u):
    srcs = sources(u)
    dr = direct(u, srcs)
    util = {fid for fid, f in u.funcs.items() if '/include/z5/' in f['file'] and '/compression/' not in f['file'] and not f['n'].startswith('crc32c')}
    g = Graph(u, virtual=False)
    prim = g.reaching(lambda x: any(storage_primitive(e) for e in g.ext[x]))
    ps = {f['fid'] for f in parsers(u)}
    reach = g.reaching(lambda x: x in dr or x in ps)
    inl = {x for x in util if (x in dr or x in ps or x in reach or trivial(u.funcs[x])) and not (x in prim and x not in dr and x not in reach)}
    # helpers of the parsers
    helpers = set()
    for x in list(ps) + list(dr):
        helpers |= {y for y in g.reachable([x]) if y in util and y not in prim and u.funcs[y]['le'] - u.funcs[y]['l'] < 60 and takes_bytes(u, u.funcs[y])}
    inl |= helpers
    inl -= srcs
    inl -= {x for x in ps if any('handle::Chunk<' in u.ty(p['t']) for p in u.funcs[x]['params'])}
    for f in representatives(u, {f['fid']: f for f in parsers(u)}).values():
        it = Stored(u, chk, inl, f, srcs)
        for i, j in ptr_len_params(u, f):
            it.ptrpar[par(f, i)] = par(f, j)
        for i, j in out_cap_params(u, f):
            it.outcap[par(f, i)] = par(f, j)
        sz = chunk_sizes(u, f, it)
        if sz:
            it.chunksize, it.zarr = (sz[0], sz[1]), sz[2]
        it.run(f)
        chk.count('parsers of stored bytes')
        chk.count('uses of stored bytes', it.sinks)
    for fid, f in representatives(u, dr).items():
        if f.get('lambda') or '/include/z5/' not in f['file'] and '/python/lib/' not in f['file']:
            continue
        it = Stored(u, chk, inl, f, srcs)
        it.run(f)
        chk.count('readers of stored bytes')
        chk.count('uses of stored bytes', it.sinks)


class Untyped(Interp):
    """callers that have a whole chunk decoded into memory of theirs without passing its size"""
    MAXDEPTH = 14

    def __init__(self, u, chk, inl, entry, reads, asks):
        super().__init__(u)
        self.chk, self.inl, self.entry, self.reads, self.asks, self.hits = chk, inl, entry, reads, asks, 0

    def inline_ok(self, fn):
        return fn['fid'] in self.inl

    def opaque(self, s, name, n, obj, vs):
        if n.get('virt') and n.get('fid') in self.asks and len(vs) == 2:
            out = super().opaque(s, name, n, obj, vs)
            for s2, v in out:
                s2.tags[('asked', self.val(s2, vs[0]))] = (v, self.rd(s2, vs[1]))
            return out
        return super().opaque(s, name, n, obj, vs)

    def refers(self, st, t, goal, seen):
        for x in subterms(t):
            if x == goal:
                return True
            if isinstance(x, tuple) and x and x[0] in ('v', 'f', 'par', 'idx', 'new', 'obj') and x not in seen:
                seen.add(x)
                if ('alloc', x) in st.tags and self.refers(st, st.tags[('alloc', x)], goal, seen):
                    return True
                for k in (x, ('size', x)):
                    if k in st.store and self.refers(st, st.store[k], goal, seen):
                        return True
        return False

    def on_alloc(self, st, l, size, node):
        st.tags[('alloc', l)] = size

    def on_call(self, st, name, n, obj, vs, fn):
        if not (n.get('virt') and n.get('fid') in self.reads) or not self.report_ok():
            return
        self.hits += 1
        w = self.where(n)
        a = st.tags.get(('asked', self.val(st, vs[0])))
        ok = a is not None
        if ok and st.known(a[0]) is not False:
            ok = self.refers(st, self.val(st, vs[1]), a[1], set())
        self.chk.oblige(ok, w, '%s: the whole chunk is only decoded into the buffer after the chunk was found not to be of variable length or the buffer was sized by its stored length' %
                        self.entry['qn'], 'asked: %r' % (a,))


def contains(u, f, pred, seen=None):
    """the function or a function object written inside it"""
    seen = seen if seen is not None else set()
    seen.add(f['fid'])
    for n in facts.walk(f['body']) if f.get('body') is not None else ():
        if pred(n):
            return True
        if n['k'] == 'lambda' and any(x in u.funcs and x not in seen and contains(u, u.funcs[x], pred, seen) for x in n.get('fids', ())):
            return True
    return False


class HeaderReader(Interp):
    """which stored mode makes a header reader report a chunk of variable length"""

    def inline_ok(self, fn):
        return False

    def model(self, st, name, call, obj, args):
        if name.startswith('z5::util::reverseEndianness'):
            return [(st, VOID)]
        dst = None
        if name in COPY:
            dst = self.val(st, args[0])
        elif name.rsplit('::', 1)[-1] == 'read' and name.startswith('std::') and args:
            dst = self.val(st, args[0])
        if dst is not None and dst[0] == 'addr' and dst[1][0] in ('v', 'f'):
            k = st.tags.get('n', 0)
            st.tags['n'] = k + 1
            st.store[dst[1]] = ('stored', k)
            return [(st, VOID)]
        return None


def mode_agreement(chk, u):
    """every function that decides from a chunk header whether the chunk is of variable length decides it the same way"""
    for f in representatives(u, {x: f for x, f in u.funcs.items()}).values():
        if f.get('body') is None or u.ty(f.get('rt', -1)) != 'bool' or '/include/z5/' not in f['file']:
            continue
        outs = [p for p in f['params'] if plain(u.ty(p['t'])) in ('unsigned long', 'std::size_t', 'size_t') and u.ty(p['t']).rstrip().endswith('&')]
        hdr = any(n['k'] == 'call' and (n.get('fn') in COPY or (n.get('fn') or '').startswith('std::basic_istream::read')) for n in facts.walk(f['body']))
        if not outs or not hdr:
            continue
        it = HeaderReader(u)
        res = it.run(f)['ret']
        chk.count('header readers')
        w = '%s:%d' % (f['file'], f['l'])
        fact = ('==', ('stored', 0), ('c', 1))
        for s, v in res:
            t = it.condval(v) if not is_c(v) else v
            good = (v == TRUE and s.known(fact) is True) or (v == FALSE and s.known(fact) is False) or t == fact
            chk.oblige(good, w, '%s reports a variable length exactly for stored mode 1' % f['qn'], 'returns %r' % (v,))


def headerless_stores(chk, u):
    """a store on which checkVarlenChunk cannot recognise variable length chunks must not decode them either"""
    for f in u.funcs.values():
        if f['n'] != 'checkVarlenChunk' or not f.get('cls') or f.get('body') is None or not u.derives(f['cls'], 'z5::Dataset'):
            continue
        it = Sizes(u)
        if any(v != FALSE for _, v in it.run(f)['ret']):
            continue
        for r in u.funcs.values():
            if r['n'] == 'readChunk' and r.get('cls') == f['cls'] and r.get('body') is not None:
                chk.count('readers of stores without chunk headers')
                j = VarReader(u)
                outs = j.run(r)['ret']
                w = '%s:%d' % (r['file'], r['l'])
                for s, v in outs:
                    bad = any(g[0] == '==' and p and ('stored', 0) in g[1:] and ('c', 1) in g[1:] for g, p in s.facts.items())
                    chk.oblige(not bad, w, '%s::readChunk refuses chunks of variable length, which its checkVarlenChunk never reports' % f['cls'].split('<')[0])


class VarReader(HeaderReader):
    def inline_ok(self, fn):
        return '/include/z5/' in fn['file'] and (trivial(fn) or fn['n'] in ('buffer_to_data',) or any(is_bytes(self.u.ty(p['t'])) for p in fn['params'])) and fn['n'] != 'decompress' and \
            not (fn.get('cls') or '').endswith('Store') and 'Store' not in (fn.get('cls') or '')


def untyped_reads(chk, u):
    reads, asks = set(), set()
    for f in u.funcs.values():
        for n in facts.walk(f['body']) if f.get('body') is not None else ():
            if n['k'] == 'call' and n.get('virt'):
                if n.get('fn') == 'z5::Dataset::readChunk':
                    reads.add(n['fid'])
                elif n.get('fn') == 'z5::Dataset::checkVarlenChunk':
                    asks.add(n['fid'])
    g = Graph(u, virtual=False)
    sites = {fid for fid, f in u.funcs.items() if f.get('body') is not None and
             any(n['k'] == 'call' and n.get('virt') and n.get('fid') in reads | asks for n in facts.walk(f['body']))}
    reach = g.reaching(lambda x: x in sites)
    inl = reach | {x for x, f in u.funcs.items() if trivial(f)}
    roots = {fid for fid in reach if not u.funcs[fid].get('lambda') and ('/include/z5/' in u.funcs[fid]['file'] or '/python/lib/' in u.funcs[fid]['file'])}
    for fid, f in representatives(u, {x: u.funcs[x] for x in sorted(roots)}).items():
        if not contains(u, f, lambda n: n['k'] == 'call' and n.get('virt') and n.get('fid') in reads):
            continue
        it = Untyped(u, chk, inl, f, reads, asks)
        it.run(f)
        if it.hits:
            chk.count('callers that decode whole chunks')


def takes_bytes(u, f):
    return any(is_bytes(u.ty(p['t'])) or is_entries(u.ty(p['t'])) or ENTRY in u.ty(p['t']) or 'char *' in u.ty(p['t']) for p in f['params']) or trivial(f)


def main():
    chk = Check('P05', __doc__)
    units = facts.load(['core', 'core_s3', 'py_dataset'])
    for name, u in units.items():
        if not name.startswith('py_'):
            analyse(chk, u)
            mode_agreement(chk, u)
            headerless_stores(chk, u)
        untyped_reads(chk, u)
    chk.minimum('parsers of stored bytes', 20)
    chk.minimum('readers of stored bytes', 30)
    chk.minimum('uses of stored bytes', 500)
    chk.minimum('decoder calls', 100)
    chk.minimum('index validation loops', 10)
    chk.minimum('callers that decode whole chunks', 6)
    chk.minimum('header readers', 4)
    chk.assumptions += ['the storage returns a buffer whose size is the number of bytes it holds',
                        'a chunk is not replaced between the look at its header and the read that follows',
                        'array metadata (number of shard slots, chunk shape) is small enough not to overflow 64 bit products; P06 decides what metadata is accepted']
    chk.finish()


if __name__ == '__main__':
    main()
