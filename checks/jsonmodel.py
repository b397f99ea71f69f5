"""Abstract interpretation with a model of nlohmann::json: members are locations
('f', document, 'json:<key>'), presence tests are facts ('has', document, key)."""
from absint import *

TYPETESTS = {'is_null', 'is_array', 'is_object', 'is_string', 'is_number', 'is_number_integer', 'is_number_unsigned', 'is_number_float', 'is_boolean', 'is_primitive', 'is_structured'}
VT = {'null': 'is_null', 'object': 'is_object', 'array': 'is_array', 'string': 'is_string', 'boolean': 'is_boolean'}


def isj(t):
    return 'nlohmann::basic_json<' in t and 'iter_impl' not in t and 'iteration_proxy' not in t and not t.startswith('std::')


class JsonInterp(Interp):
    CAP = 600
    MAXDEPTH = 10

    def on_unguarded(self, s, obj, key, n):
        """const operator[] on a member that may be missing"""

    def on_member(self, s, obj, key, n, how):
        """a member is read or created"""

    def on_convert(self, s, val, ty, n):
        """a value of a document is converted to a C++ type"""

    def base(self, s, obj):
        """the identity of a document: its location when it is being built here, its value otherwise"""
        v = self.rd(s, obj)
        return v

    def member(self, obj, key):
        if is_c(key) and isinstance(key[1], str):
            return ('f', obj, 'json:' + key[1])
        if is_c(key) and isinstance(key[1], int):
            return ('idx', obj, key)
        return ('f', obj, ('json', key))

    def has(self, s, obj, key):
        m = self.member(obj, key)
        if m in s.store:
            return TRUE
        return ('has', self.base(s, obj), key)

    wl = False

    def do_call(self, s, name, n, obj, vs, fn, dst=None, want_lv=False):
        self.wl = want_lv
        return super().do_call(s, name, n, obj, vs, fn, dst, want_lv)

    def out(self, s, l, wl):
        return [(s, l if wl else self.rd(s, l))]

    def e_ref(self, n, st):
        if n.get('dk') == 'enum' and 'nlohmann' in (n.get('qn') or '') and 'value_t' in n['qn']:
            return [(st, ('vt', n['qn'].rsplit('::', 1)[-1]))]
        return super().e_ref(n, st)

    def e_bin(self, n, st):
        return [(s, self.typetest(v)) for s, v in super().e_bin(n, st)]

    def typetest(self, v):
        if v[0] == 'not':
            return mk_not(self.typetest(v[1]))
        if v[0] == '==' and len(v) == 3:
            for x, y in ((v[1], v[2]), (v[2], v[1])):
                if x[0] == 'jtype' and y[0] == 'vt':
                    return ('isa', VT.get(y[1], y[1]), x[1])
        return v

    def model(self, s, name, n, obj, vs):
        base = name.rsplit('::', 1)[-1]
        wl = self.wl
        h = self.model2(s, name, n, obj, vs)
        if h is not None:
            return h
        if n.get('fid') in self.u.funcs:
            return None
        ot = self.u.ty(n.get('ot', -1)) if n.get('ot') is not None else ''
        at = [self.u.ty(a.get('t', -1)) if a else '' for a in n.get('a') or []]
        if n['k'] == 'ctor':
            if name == 'nlohmann::basic_json::basic_json':
                if len(vs) >= 1 and not n.get('cm'):
                    v = self.val(s, vs[0])
                    if v[0] == 'listv' and obj is not None:
                        return None
                    return [(s, v)]
                if not vs:
                    return [(s, NULL)]
            return None
        # map look-ups of name tables
        if name.startswith('std::map::') or name.startswith('std::unordered_map::'):
            if base == 'at':
                k = self.val(s, vs[0])
                t = self.tableid(s, obj)
                bad = s.copy()
                if bad.assume(('intable', t, k), False):
                    self.thr.append((bad, ('exc', 'std::out_of_range')))
                if not s.assume(('intable', t, k), True):
                    return []
                return [(s, ('entry', t, k))]
            if base in ('find', 'count', 'contains'):
                k = self.val(s, vs[0])
                t = self.tableid(s, obj)
                if base == 'find':
                    return [(s, ('mfind', t, k))]
                return [(s, ('intable', t, k))]
        if base in ('operator==', 'operator!='):
            a = [self.val(s, x) for x in (([obj] if obj is not None else []) + list(vs))]
            for x, y in (a, a[::-1]) if len(a) == 2 else ():
                if x[0] in ('find', 'mfind') and y[0] == 'call' and y[1] == 'end':
                    f = ('has', x[1], x[2]) if x[0] == 'find' else ('intable', x[1], x[2])
                    if x[0] == 'find' and self.member(x[3], x[2]) in s.store:
                        f = TRUE
                    return [(s, mk_not(f) if base == 'operator==' else f)]
                if x[0] == 'jtype' and y[0] == 'vt':
                    f = ('isa', VT.get(y[1], y[1]), x[1])
                    return [(s, f if base == 'operator==' else mk_not(f))]
        if obj is not None:
            ov = self.rd(s, obj)
            if ov[0] == 'find' and (base in ('operator*', 'operator->', 'value') or (n.get('op') in ('*', '->') and not vs)):
                l = self.member(ov[3], ov[2])
                self.on_member(s, ov[3], ov[2], n, 'find')
                if s.known(('has', ov[1], ov[2])) is not True and l not in s.store:
                    self.on_unguarded(s, ov[3], ov[2], n)
                if base == 'operator->' or n.get('op') == '->':
                    return [(s, ('addr', l))]
                return self.out(s, l, wl)
            if ov[0] == 'mfind' and n.get('op') in ('*', '->') and not vs:
                l = ('mentry', ov[1], ov[2])
                return [(s, ('addr', l) if n.get('op') == '->' else l)]
        if obj is None or not (isj(ot) or name.startswith('nlohmann::basic_json::')):
            return None
        if base in ('at', 'operator[]') and len(vs) == 1:
            k = self.val(s, vs[0])
            l = self.member(obj, k)
            self.on_member(s, obj, k, n, base)
            if is_c(k) and isinstance(k[1], str) or not is_c(k):
                h = self.has(s, obj, k)
                if base == 'at':
                    if not s.assume(h, True):
                        self.thr.append((s, ('exc', 'nlohmann::out_of_range')))
                        return []
                elif n.get('const') and s.known(h) is not True and 'int' not in at[0] and 'long' not in at[0]:
                    self.on_unguarded(s, obj, k, n)
            return self.out(s, l, wl)
        if base == 'find' and len(vs) == 1:
            k = self.val(s, vs[0])
            return [(s, ('find', self.base(s, obj), k, obj))]
        if base in ('contains', 'count') and len(vs) == 1:
            return [(s, self.has(s, obj, self.val(s, vs[0])))]
        if base == 'value' and len(vs) == 2:
            k = self.val(s, vs[0])
            self.on_member(s, obj, k, n, 'value')
            h = self.has(s, obj, k)
            b = s.copy()
            out = []
            if s.assume(h, True):
                out.append((s, self.rd(s, self.member(obj, k))))
            if b.assume(h, False):
                out.append((b, self.val(b, vs[1])))
            return out
        if base in TYPETESTS:
            v = self.rd(s, obj)
            if is_c(v):
                if base == 'is_null':
                    return [(s, ('c', v == NULL))]
            return [(s, ('isa', base, v))]
        if base == 'type' and not vs:
            return [(s, ('jtype', self.rd(s, obj)))]
        if base == 'get' or base.startswith('operator ') and not vs:
            v = self.rd(s, obj)
            self.on_convert(s, v, self.ty(n), n)
            return [(s, v)]
        if base in ('get_to',) and vs:
            v = self.rd(s, obj)
            self.on_convert(s, v, at[0], n)
            self.wr(s, vs[0], v, n)
            return [(s, VOID)]
        if base in ('size', 'empty') and not vs:
            sz = ('call', 'size', self.rd(s, obj))
            self.unsigned.add(sz)
            return [(s, sz if base == 'size' else mk_cmp('==', sz, ('c', 0)))]
        if base == 'operator=' and len(vs) == 1:
            v = self.val(s, vs[0])
            self.wr(s, obj, v, n)
            if isinstance(vs[0], tuple) and vs[0][0] in ('v', 'f', 'par', 'obj', 'idx', 'ver'):
                self.copy_fields(s, vs[0], obj)
            return [(s, obj)]
        return None

    def model2(self, s, name, n, obj, vs):
        return None

    def tableid(self, s, obj):
        v = self.rd(s, obj) if obj[0] not in ('lam', 'this') else obj
        return v if v[0] not in ('ver',) else obj
