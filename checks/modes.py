"""The open modes: what each of them permits, in the library, in the bindings and in Python."""
import ast
import facts, pysrc
from absint import *
from facts import walk

# python name -> (write, create, must not exist, truncate)
DOC = {'r': (0, 0, 0, 0), 'r+': (1, 0, 0, 0), 'w': (1, 1, 0, 1), 'w-': (1, 1, 1, 0), 'a': (1, 1, 0, 0)}
ENUM = {'r': 'r', 'r_p': 'r+', 'w': 'w', 'w_m': 'w-', 'a': 'a'}
PY = {'r': 'r', 'r+': 'r+', 'w': 'w', 'w-': 'w-', 'x': 'w-', 'a': 'a'}
PREDS = {'can_write': 0, 'can_create': 1, 'must_not_exist': 2, 'should_truncate': 3}
CPP = {'canWrite': 0, 'canCreate': 1, 'mustNotExist': 2, 'shouldTruncate': 3}


def values(u):
    """{documented mode name: numeric value}"""
    for e in u.enums:
        if e['qn'] == 'z5::FileMode::modes':
            return {ENUM[c['n']]: int(c['v']) for c in e['c'] if c['n'] in ENUM}
    return None


def predicate_values(u, f, field, vals, evalmode):
    """which modes a predicate of the mode class accepts"""
    it = Interp(u)
    r = it.run(f)
    out = {}
    for m, v in vals.items():
        t = ('f', ('this',), field)
        res = set()
        for st, val in r['ret']:
            if any((evalmode(x, t, v) is not None) and bool(evalmode(x, t, v)) != p for x, p in st.facts.items()):
                continue
            y = evalmode(it.condval(val), t, v)
            res.add(None if y is None else bool(y))
        out[m] = res.pop() if len(res) == 1 else None
    return out


def check(chk, units, field, evalmode, which=(0, 1, 2, 3)):
    """obligations on the mode table"""
    u = units['core']
    vals = values(u)
    if not vals or set(vals) != set(DOC):
        raise RuntimeError('the open modes of the library were not found')
    chk.oblige(len(set(vals.values())) == len(vals), 'include/z5/util/file_mode.hxx', 'the open modes are distinct', str(vals))
    n = 0
    for f in u.funcs.values():
        if f.get('pcls') == 'z5::FileMode' and f['n'] in CPP and CPP[f['n']] in which and f.get('body'):
            got = predicate_values(u, f, field, vals, evalmode)
            for m in DOC:
                n += 1
                chk.oblige(got[m] == bool(DOC[m][CPP[f['n']]]), '%s:%d' % (f['file'], f['l']),
                           '%s is %s for mode %s' % (f['n'], bool(DOC[m][CPP[f['n']]]), m), 'it is %s' % got[m])
    if n < 5 * len(which):
        raise RuntimeError('the permission predicates of the open mode were not found')
    chk.count('mode table entries', n)
    # bindings
    b = units.get('py_util')
    seen = 0
    for f in b.funcs.values():
        if f.get('body') is None or '/src/python/lib/' not in f['file']:
            continue
        for c in walk(f['body']):
            if c['k'] != 'call' or not c.get('fn'):
                continue
            if c['fn'] == 'nanobind::enum_::value' and len(c['a']) >= 2:
                s, v = strip(c['a'][0]), strip(c['a'][1])
                if s['k'] == 'str' and s['v'] in ENUM and v.get('dk') == 'enum' or 'FileMode' in str(v.get('qn', '')):
                    seen += 1
                    chk.oblige(int(v['v']) == vals[ENUM[s['v']]], '%s:%d' % (f['file'], c['l']), 'the Python name %s denotes the mode of that name' % s['v'], 'bound to value %s' % v['v'])
            if c['fn'] == 'nanobind::class_::def' and len(c['a']) >= 2:
                s, v = strip(c['a'][0]), strip(c['a'][1])
                if s['k'] == 'str' and s['v'] in PREDS and PREDS[s['v']] in which:
                    fn = v.get('fn') or (strip(v.get('e', {})).get('fn') if isinstance(v.get('e'), dict) else None)
                    name = (fn or '').rsplit('::', 1)[-1]
                    if name in CPP:
                        seen += 1
                        chk.oblige(CPP[name] == PREDS[s['v']], '%s:%d' % (f['file'], c['l']), 'the Python predicate %s is bound to the predicate of that meaning' % s['v'], 'bound to %s' % fn)
    chk.count('mode bindings', seen)
    # python mode strings
    tables = 0
    for mod, (p, tree) in pysrc.modules().items():
        for d in ast.walk(tree):
            if isinstance(d, ast.Dict) and d.values and all((pysrc.dotted(x) or '').split('.')[-2:-1] == ['FileMode'] for x in d.values):
                tables += 1
                for k, x in zip(d.keys, d.values):
                    key = k.value if isinstance(k, ast.Constant) else None
                    m = ENUM.get(pysrc.dotted(x).split('.')[-1])
                    chk.oblige(PY.get(key) == m, '%s:%d' % (p, x.lineno), 'the mode string %r opens in the mode of that name' % key, 'it opens in mode %r' % m)
                    chk.count('python mode strings')
    if not tables:
        chk.notes.append('no literal table of mode strings in the Python layer')
    return vals


def strip(n):
    while isinstance(n, dict) and (n.get('k') == 'cast' or (n.get('k') == 'un' and n.get('op') == '&')):
        n = n['e']
    return n
