"""Where a package keeps data between calls, and which routines reach it (syntax only)."""
import ast
import glob
import os


def memory(root, pkg):
    """{function name: set of places where data can outlive a call that it reaches}."""
    direct, calls = {}, {}
    for path in sorted(glob.glob(os.path.join(root, pkg, '*.py'))):
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        mod = os.path.basename(path)[:-3]
        funcs = {n.name for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        state = set()
        for n in ast.walk(tree):
            if isinstance(n, ast.Global):
                state.update(n.names)
        for n in tree.body:
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)) and n.value is not None and not inert(n.value):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    state.update(x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            elif isinstance(n, (ast.For, ast.With, ast.Try, ast.If, ast.While)):
                state.update(x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        for n in tree.body:
            if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            d = direct.setdefault(n.name, set())
            c = calls.setdefault(n.name, set())
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    if x.id in state:
                        d.add(mod + '.' + x.id)
                    c.add(x.id)
                elif isinstance(x, ast.Attribute):
                    c.add(x.attr)
                    if isinstance(x.value, ast.Name) and x.value.id in funcs:
                        d.add('%s.%s.%s' % (mod, x.value.id, x.attr))
                elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    a = x.args
                    if any(not inert(v) for v in a.defaults + [v for v in a.kw_defaults if v is not None]):
                        d.add('%s.%s defaults' % (mod, n.name))
                    if getattr(x, 'decorator_list', None):
                        d.add('%s.%s decorators' % (mod, n.name))
            if isinstance(n, ast.ClassDef):
                d.add('%s.%s class' % (mod, n.name))
    out = {}
    for f in direct:
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g in seen or g not in direct:
                continue
            seen.add(g)
            todo += calls[g]
        out[f] = set().union(*(direct[g] for g in seen))
    return out


def inert(v):
    """Can the value not change between calls?"""
    if isinstance(v, (ast.Constant, ast.Name, ast.Attribute, ast.Lambda)):
        return True
    if isinstance(v, ast.UnaryOp):
        return inert(v.operand)
    if isinstance(v, ast.BinOp):
        return inert(v.left) and inert(v.right)
    if isinstance(v, ast.Tuple):
        return all(inert(x) for x in v.elts)
    return False
