"""Call graph over the resolved trees of one unit."""
import facts
from facts import walk


class Graph:
    def __init__(self, u, virtual=True):
        """virtual=False: a virtual call with several candidates has no edge"""
        self.u = u
        self.callees = {}
        self.ext = {}          # fid -> set of names of called functions (resolved or not)
        self.callers = {}
        for fid, f in u.funcs.items():
            cs, ex = set(), set()
            for root in (f.get('body'), f.get('inits')):
                if root is None:
                    continue
                for n in walk(root if isinstance(root, dict) else {'k': 'x', 'i': [i.get('e') for i in root if i.get('e')]}):
                    k = n['k']
                    if k in ('call', 'ctor'):
                        if n.get('fn'):
                            ex.add(n['fn'])
                        t = n.get('fid')
                        if t is not None:
                            if n.get('virt') and not n.get('nonvirt') and not virtual and u.over.get(t):
                                if len(u.over[t]) == 1 and t not in u.funcs:
                                    cs |= u.over[t]
                                continue
                            cs.add(t)
                            if n.get('virt'):
                                cs |= u.over.get(t, set())
                    elif k == 'lambda':
                        cs.update(n['fids'])
                    elif k in ('ref', 'mem') and n.get('fn') and n.get('fid') is not None:
                        cs.add(n['fid'])
                        ex.add(n['fn'])
            self.callees[fid] = cs
            self.ext[fid] = ex
        for a, cs in self.callees.items():
            for b in cs:
                self.callers.setdefault(b, set()).add(a)

    def reaching(self, pred):
        """fids of the functions from which a function satisfying pred(fid) is reachable"""
        seen = {f for f in self.u.funcs if pred(f)}
        st = list(seen)
        while st:
            x = st.pop()
            for c in self.callers.get(x, ()):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return seen

    def reachable(self, roots):
        seen = set(roots)
        st = list(seen)
        while st:
            x = st.pop()
            for c in self.callees.get(x, ()):
                if c not in seen and c in self.u.funcs:
                    seen.add(c)
                    st.append(c)
        return seen


def trivial(f, limit=12):
    """a small loop-free function (accessor or predicate)"""
    b = f.get('body')
    if b is None:
        return False
    n = 0
    for x in walk(b):
        n += 1
        if x['k'] in ('for', 'while', 'do', 'rfor', 'try', 'lambda') or n > limit * 4:
            return False
    return True
