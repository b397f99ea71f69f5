"""P04: a codec that fails is never taken for one that succeeded."""
from common import Check, facts, rel
from absint import *

C = 'codec'


def pos(r):
    return lambda st: st.entails_le(('c', 0), r, strict=True)


def nonzero(r):
    return lambda st: st.known(mk_cmp('==', r, ('c', 0))) is False or st.entails_le(('c', 0), r, strict=True)


def eq(r, v):
    return lambda st: st.known(mk_cmp('==', r, ('c', v))) is True


def zstd_ok(r):
    e = ('call', 'ZSTD_isError', r)
    return lambda st: (st.known(mk_cmp('==', e, ('c', 0))) is True) or st.known(e) is False


# name -> (what the success test is, key of the obligation, success predicate)
# 'key' groups calls of which only the last one counts (a retry, the steps of a stream)
STREAM = {'deflate': 1, 'inflate': 1, 'BZ2_bzCompress': 4, 'BZ2_bzDecompress': 4, 'lzma_code': 1}
INIT = {'deflateInit_': 0, 'deflateInit2_': 0, 'inflateInit2_': 0, 'inflateInit_': 0,
        'BZ2_bzCompressInit': 0, 'BZ2_bzDecompressInit': 0, 'lzma_easy_encoder': 0, 'lzma_stream_decoder': 0,
        'lzma_auto_decoder': 0, 'lzma_alone_decoder': 0, 'lzma_stream_encoder': 0}
RELEASE = {'deflateInit_': 'deflateEnd', 'deflateInit2_': 'deflateEnd', 'inflateInit2_': 'inflateEnd', 'inflateInit_': 'inflateEnd',
           'BZ2_bzCompressInit': 'BZ2_bzCompressEnd', 'BZ2_bzDecompressInit': 'BZ2_bzDecompressEnd',
           'lzma_easy_encoder': 'lzma_end', 'lzma_stream_decoder': 'lzma_end', 'lzma_auto_decoder': 'lzma_end',
           'lzma_stream_encoder': 'lzma_end', 'lzma_alone_decoder': 'lzma_end',
           'libdeflate_alloc_compressor': 'libdeflate_free_compressor',
           'libdeflate_alloc_decompressor': 'libdeflate_free_decompressor'}
# one-shot calls: (index of source, source length, destination, capacity)
ONESHOT = {
    'blosc_compress_ctx': (pos, (4, 3, 5, 6)),
    'blosc_decompress_ctx': (pos, (0, None, 1, 2)),
    'libdeflate_zlib_compress': (nonzero, (1, 2, 3, 4)), 'libdeflate_gzip_compress': (nonzero, (1, 2, 3, 4)),
    'libdeflate_deflate_compress': (nonzero, (1, 2, 3, 4)),
    'libdeflate_zlib_decompress': (lambda r: eq(r, 0), (1, 2, 3, 4)), 'libdeflate_gzip_decompress': (lambda r: eq(r, 0), (1, 2, 3, 4)),
    'libdeflate_deflate_decompress': (lambda r: eq(r, 0), (1, 2, 3, 4)),
    'LZ4_compress_default': (pos, (0, 2, 1, 3)), 'LZ4_compress_fast': (pos, (0, 2, 1, 3)), 'LZ4_decompress_safe': (pos, (0, 2, 1, 3)),
    'ZSTD_compress': (zstd_ok, (2, 3, 0, 1)), 'ZSTD_decompress': (zstd_ok, (2, 3, 0, 1)),
}
FREES = set(RELEASE.values())
# stream object fields
IN = {'deflate': ('next_in', 'avail_in'), 'inflate': ('next_in', 'avail_in'), 'BZ2_bzCompress': ('next_in', 'avail_in'),
      'BZ2_bzDecompress': ('next_in', 'avail_in'), 'lzma_code': ('next_in', 'avail_in')}
UNSAFE = {'LZ4_decompress_fast': 'decodes without an input bound', 'LZ4_uncompress': 'decodes without an input bound',
          'LZ4_compress': 'compresses without an output bound'}


class CodecInterp(Interp):
    CAP = 40

    def __init__(self, unit, chk, fn, encode):
        super().__init__(unit)
        self.chk, self.root, self.encode = chk, fn, encode
        self.calls = 0
        self.sizeT = None
        ps = fn['params']
        if encode:     # (dataIn, dataOut, sizeIn)
            self.src, self.dst, self.n = [('par', p['n'] or str(i), i) for i, p in enumerate(ps[:3])]
            et = unit.ty(ps[0]['t'])
        else:          # (dataIn, nBytesIn, dataOut, sizeOut)
            self.src, self.nin, self.dst, self.n = [('par', p['n'] or str(i), i) for i, p in enumerate(ps[:4])]
            et = unit.ty(ps[2]['t'])
        et = et.replace('const ', '').rstrip(' *')
        self.sizeT = {'signed char': 1, 'unsigned char': 1, 'char': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
                      'long': 8, 'unsigned long': 8, 'float': 4, 'double': 8, 'bool': 1,
                      'std::complex<float>': 8, 'std::complex<double>': 16, 'std::complex<long double>': 32}.get(et)

    def same(self, a, b):
        d = lin_sub(lin(a), lin(b))
        return not d[0] and d[1] == 0

    def bytes_n(self):
        return self.arith('*', ('c', self.sizeT), self.n)

    def inline_ok(self, fn):
        return True

    def pend(self, st, key, pred, what, node):
        w = self.where(node)

        def p(s, pred=pred):
            return pred(s)
        p.what, p.where = what, w
        st.pend[key] = p

    def model(self, st, name, n, obj, vs):
        if name in UNSAFE:
            if self.report_ok():
                self.chk.violate(self.where(n), '%s is called: it %s' % (name, UNSAFE[name]))
            return None
        if name in ONESHOT:
            pred, (isrc, ilen, idst, icap) = ONESHOT[name]
            r = ('u', 'res', next(self.uid), name)
            if self.report_ok():
                self.calls += 1
                self.chk.count('codec calls')
                w = self.where(n)
                src, dst, cap = self.val(st, vs[isrc]), vs[idst], self.val(st, vs[icap])
                self.oneshot_args(st, name, n, src, None if ilen is None else self.val(st, vs[ilen]), dst, cap)
                self.wrapper_args(st, name, n, vs)
            base = self.base_of(st, vs[idst])
            self.pend(st, ('oneshot', base), pred(r), 'the result of %s is tested for failure before the function returns normally' % name, n)
            for i, v in enumerate(vs):
                if i != idst and isinstance(v, tuple) and v[0] == 'addr' and i < len(n.get('pm', '')) and n['pm'][i] == 'p':
                    self.havoc(st, v[1], n)
            return [(st, r)]
        if name in STREAM:
            so = vs[0][1] if vs[0][0] == 'addr' else vs[0]
            r = ('u', 'res', next(self.uid), name)
            if self.report_ok():
                self.calls += 1
                self.chk.count('codec calls')
                self.stream_args(st, name, n, so, vs)
            self.pend(st, ('stream', so), eq(r, STREAM[name]), 'the final result of %s is tested to be "end of stream" before the function returns normally' % name, n)
            for f in ('avail_in', 'avail_out', 'next_in', 'next_out', 'total_out', 'total_in'):
                l = ('f', so, f)
                if f.startswith('avail') or f.startswith('total') or f.startswith('next'):
                    st.store[l] = ('u', 'strm', next(self.uid), f, so)
            return [(st, r)]
        if name in INIT:
            r = ('u', 'res', next(self.uid), name)
            so = vs[0][1] if vs[0][0] == 'addr' else vs[0]
            if self.report_ok():
                self.calls += 1
                self.chk.count('codec calls')
                self.wrapper_args(st, name, n, vs)
            self.pend(st, ('init', so), eq(r, 0), 'the result of %s is tested for success before the stream is used' % name, n)
            st.tags[('may', 'open', so)] = (RELEASE[name], r, self.where(n), name)
            return [(st, r)]
        if name in RELEASE:
            r = ('u', 'res', next(self.uid), name)
            if self.report_ok():
                self.calls += 1
                self.chk.count('codec calls')
            self.pend(st, ('alloc', r), lambda s: s.known(mk_cmp('==', r, NULL)) is False, 'the result of %s is tested for null before use' % name, n)
            st.tags[('may', 'open', r)] = (RELEASE[name], None, self.where(n), name)
            return [(st, r)]
        if name == 'blosc_cbuffer_sizes':
            if self.report_ok() and not self.encode:
                self.chk.oblige(st.entails_le(('c', 16), self.nin), self.where(n), 'the stored bytes hold a whole blosc header before it is read')
            for i, f in ((1, 'nbytes'), (2, 'cbytes'), (3, 'blocksize')):
                l = vs[i][1] if vs[i][0] == 'addr' else vs[i]
                st.store[l] = ('u', f, next(self.uid), self.val(st, vs[0]))
                self.unsigned.add(st.store[l])
            return [(st, VOID)]
        if name in FREES:
            so = self.val(st, vs[0])
            so = so[1] if so[0] == 'addr' else so
            t = st.tags.pop(('may', 'open', so), None)
            return [(st, VOID)]
        return None

    def base_of(self, st, v):
        v = v[1] if v[0] == 'addr' else v
        while v[0] in ('idx', 'op') and len(v) > 2:
            v = v[1] if v[0] == 'idx' else (v[2] if v[2] and v[2][0] != 'c' else v[3])
        return v

    def src_ok(self, st, src):
        return src == self.src or (src[0] == 'addr' and self.base_of(st, src) == self.src)

    def oneshot_args(self, st, name, n, src, ln, dst, cap):
        w = self.where(n)
        self.chk.oblige(self.src_ok(st, src), w, '%s reads the bytes it was given' % name, 'source is %r' % (src,))
        if self.encode:
            self.chk.oblige(self.same(ln, self.bytes_n()), w, '%s is given the whole input (element count times element size)' % name, 'length is %r' % (ln,))
            base = self.base_of(st, dst)
            sz = self.size_of(st, base)
            self.chk.oblige(base == self.dst and self.cap_le(st, cap, sz), w, '%s is told no more output space than the buffer has' % name,
                            'capacity %r, buffer size %r' % (cap, sz))
        else:
            if ln is not None:
                self.chk.oblige(self.same(ln, self.nin), w, '%s is given exactly the stored bytes as input' % name, 'length is %r' % (ln,))
            else:
                # blosc 1 takes no input length: the stored header must have been checked against it
                self.chk.oblige(self.blosc_validated(st), w, 'the stored length of a blosc buffer is checked against the bytes at hand before %s reads it' % name)
            self.chk.oblige(dst == self.dst and self.cap_le(st, cap, self.bytes_n()), w, '%s is told no more output space than the caller provided' % name,
                            'capacity %r of %r' % (cap, self.bytes_n()))

    def blosc_validated(self, st):
        # blosc_cbuffer_validate(src, nBytesIn, &n) == 0 on this path, or cbytes <= nBytesIn
        for f, p in st.facts.items():
            if f[0] == '==' and p and f[2] == ('c', 0) and 'blosc_cbuffer_validate' in repr(f[1]) and mentions(f[1], self.nin) and mentions(f[1], self.src):
                return True
        for f, p in st.facts.items():
            for t in subterms(f):
                if t[:1] == ('u',) and len(t) > 3 and t[1] == 'cbytes' and t[3] == self.src and st.entails_le(t, self.nin):
                    return True
        return False

    def cap_le(self, st, cap, size):
        return self.same(cap, size) or st.entails_le(cap, size)

    def stream_args(self, st, name, n, so, vs):
        w = self.where(n)
        first = st.tags.get(('stepped', so)) is None
        st.tags[('stepped', so)] = True
        ai, ao = self.rd(st, ('f', so, 'avail_in')), self.rd(st, ('f', so, 'avail_out'))
        ni, no = self.rd(st, ('f', so, 'next_in')), self.rd(st, ('f', so, 'next_out'))
        # input: set by us once; afterwards maintained by the library
        def lib(t):
            return t[:1] == ('u',) and t[1] in ('strm', 'loop')
        total = self.bytes_n() if self.encode else self.nin
        if not lib(ai):
            self.chk.oblige(self.same(ai, total), w, '%s is given the whole input' % name, 'avail_in is %r, expected %r' % (ai, total))
        if not lib(ni):
            self.chk.oblige(self.src_ok(st, ni), w, '%s reads the bytes it was given' % name, 'next_in is %r' % (ni,))
        # output: pointer + space must stay inside the buffer
        if not lib(no) or not lib(ao):
            base = self.base_of(st, no)
            if self.encode:
                sz = self.size_of(st, base)
                self.chk.oblige(self.cap_le(st, ao, sz) and not lib(no), w, '%s is told no more output space than the buffer has' % name, 'avail_out is %r, buffer %r size %r' % (ao, base, sz))
            else:
                # no = dst + pos (elements), ao = (n - pos) * sizeT
                good = False
                if no == self.dst:
                    good = self.cap_le(st, ao, self.bytes_n())
                elif no[0] == 'op' and no[1] == '+' and self.dst in no:
                    p = no[3] if no[2] == self.dst else no[2]
                    good = self.same(ao, self.arith('*', ('c', self.sizeT), self.arith('-', self.n, p)))
                self.chk.oblige(good, w, '%s is told no more output space than the caller provided' % name, 'next_out %r avail_out %r' % (no, ao))
        if name == 'deflate' or name == 'inflate':
            pass

    # the wrapper written must be the one the options declare
    def wrapper_args(self, st, name, n, vs):
        w = self.where(n)
        if not self.encode:
            return
        flag = None
        for f, p in st.facts.items():
            if f[0] == 'f' and f[1] == ('this',):
                t = [x for r in self.u.records if r['n'] == self.root['cls'] for x in r['fields'] if x['n'] == f[2]]
                if t and self.u.ty(t[0]['t']) == 'bool':
                    flag = p
        want = None
        if name in ('libdeflate_zlib_compress', 'deflateInit_'):
            want = True
        elif name == 'libdeflate_gzip_compress':
            want = False
        elif name == 'deflateInit2_':
            wb = self.val(st, vs[3])
            want = False if wb == ('c', 31) else True if wb == ('c', 15) else 'raw'
        if want is not None:
            self.chk.oblige(want == flag, w, '%s writes the wrapper (zlib or gzip) that the options declare' % name, 'declared zlib=%r, written zlib=%r' % (flag, want))

    def on_return(self, st, val, fn):
        for k, p in st.pend.items():
            self.chk.violate(p.where, p.what, 'a path of %s returns normally without it' % fn['qn'])
        self.leaks(st, 'normal return')
        if self.encode and not st.tags.get('nothing'):
            # the size the caller sees is the number of bytes produced
            pass

    def leaks(self, st, how):
        for k, v in st.tags.items():
            if isinstance(k, tuple) and k[:2] == ('may', 'open') and v != 'mixed':
                rel_, r, w, name = v
                if r is not None and st.known(mk_cmp('==', r, ('c', 0))) is False:
                    continue     # initialisation failed: nothing to release
                if r is None and st.known(mk_cmp('==', k[2], NULL)) is True:
                    continue
                self.chk.violate(w, 'what %s acquires is released by %s on every way out' % (name, rel_), how)


def final_size(it, st):
    """what the caller of compress() sees as the size of the output"""
    return it.size_of(st, it.dst)


def analyse(chk, units):
    seen_codecs = {}
    for un, u in units.items():
        for f in u.funcs.values():
            if f.get('pcls', '').startswith('z5::compression::') and f['n'] in ('compress', 'decompress') and f.get('ovr') and f.get('body'):
                enc = f['n'] == 'compress'
                cls = f['pcls'].split('::')[-1]
                it = CodecInterp(u, chk, f, enc)
                if it.sizeT is None:
                    raise RuntimeError('unknown element type in ' + f['cls'])
                before = set(chk.obl)
                out = it.run(f)
                chk.count('codec functions analysed')
                chk.count('paths', it.stats['paths'])
                for s, e in out['thr']:
                    it.leaks(s, 'a throwing path')
                if not out['ret']:
                    chk.oblige(it.calls == 0, '%s:%d' % (f['file'], f['l']), 'every path of %s::%s throws: no codec is run' % (cls, f['n']))
                    continue
                w = '%s:%d' % (f['file'], f['l'])
                chk.oblige(it.calls > 0, w, '%s::%s runs a codec on every path that returns normally' % (cls, f['n']))
                seen_codecs.setdefault((un, cls, f['n']), 0)
                seen_codecs[(un, cls, f['n'])] += 1
                for s, v in out['ret']:
                    for k in ('oneshot', 'stream', 'init', 'alloc'):
                        pass
                if enc:
                    for s, v in out['ret']:
                        check_output(chk, it, s, f, cls)
                # discharged typestate obligations
                for (w2, what) in [(p, q) for p, q in typestate_sites(it, f)]:
                    if (rel(w2), what) not in chk.obl:
                        chk.discharge(rel(w2), what)
    return seen_codecs


def typestate_sites(it, f):
    for file, line, name in it.visited_calls:
        if name in ONESHOT or name in STREAM or name in INIT or name in RELEASE:
            yield '%s:%d' % (file, line), 'failure of %s cannot reach a normal return' % name


def check_output(chk, it, st, f, cls):
    w = '%s:%d' % (f['file'], f['l'])
    sz = final_size(it, st)
    ok = False
    t = repr(sz)
    # resized to the number of bytes the library reports (its result, total_out, or space minus space left), or appended chunk by chunk
    if ("'res'" in t and any(k in t for k in ONESHOT)) or ("'strm'" in t and ('total_out' in t or 'avail_out' in t)):
        ok = True
    elif it.stats.get('appends'):
        ok = True
    app = st.tags.get(('may', 'append'))
    if app:
        ok = app == 'clean'
    chk.oblige(ok, w, '%s::compress leaves exactly the produced bytes in the output buffer, and none from before' % cls, 'output size is %s' % t[:200])


def main():
    chk = Check('P04', 'typestate analysis of every codec call: result tested on every path to a normal return, lengths and capacities passed correctly, '
                       'handles released, output replaced (path-sensitive abstract interpretation with helper inlining)')
    units = facts.load(['core', 'core_s3'])
    patch_append()
    codecs = analyse(chk, units)
    chk.minimum('codec functions analysed', 100)
    names = {c for _, c, _ in codecs}
    for need in ('BloscCompressor', 'Bzip2Compressor', 'Lz4Compressor', 'XzCompressor', 'ZlibCompressor', 'ZstdCompressor'):
        if need not in names:
            raise RuntimeError('codec class %s not found' % need)
    chk.assumptions += ['library contracts of blosc, bzip2, libdeflate, lz4, xz, zlib and zstd as written in the rule table',
                        'allocation failure inside the codec functions is not modelled']
    chk.finish()


def patch_append():
    """track growth of the output buffer by insertion"""
    old = CodecInterp.on_call

    def on_call(self, st, name, call, obj, args, fn):
        if obj is not None and self.encode and obj == self.dst and name.startswith('std::vector::'):
            b = name.rsplit('::', 1)[-1]
            if b in ('insert', 'push_back', 'emplace_back', 'append'):
                if ('may', 'append') not in st.tags:
                    cleared = st.store.get(('size', self.dst)) == ('c', 0) or st.tags.get('cleared')
                    st.tags[('may', 'append')] = 'clean' if cleared else 'dirty'
            if b == 'clear':
                st.tags['cleared'] = True
        return old(self, st, name, call, obj, args, fn)
    CodecInterp.on_call = on_call


if __name__ == '__main__':
    main()
