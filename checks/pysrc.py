"""The Python layer: parsed modules of z5py."""
import ast, os
import facts

PYDIR = facts.REPO + '/src/python/module/z5py'


def modules():
    out = {}
    for f in sorted(os.listdir(PYDIR)):
        if f.endswith('.py'):
            p = os.path.join(PYDIR, f)
            with open(p) as fh:
                t = ast.parse(fh.read(), p)
            for n in ast.walk(t):
                for c in ast.iter_child_nodes(n):
                    c.parent = n
            out[f[:-3]] = (p, t)
    return out


def dotted(n):
    """a.b.c -> 'a.b.c'"""
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + '.' + n.attr
    return None


def functions(tree):
    """(qualified name, node) of every function"""
    out = []

    def rec(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + c.name, c))
                rec(c, pre + c.name + '.')
            elif isinstance(c, ast.ClassDef):
                rec(c, pre + c.name + '.')
            else:
                rec(c, pre)
    rec(tree, '')
    return out
