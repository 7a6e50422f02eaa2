RULE = ('over the syntax tree and the symbol tables of every module: each name read in any scope is bound in it, in the module '
        'or in the builtins; each imported name and each attribute of a module (package, numpy, scipy, matplotlib, standard '
        'library) exists; each call of a package function fits its signature; and the abstract derivation of every public '
        'routine on valid arguments meets no missing name, attribute or ill-typed operation')
import ast
import builtins
import json
import os
import symtable
from ..ctx import *
from ..calls import catalogue

EXT = {k: (set(v) if isinstance(v, list) else v) for k, v in json.load(
    open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'extnames.json'))).items()}
IMPLICIT = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__',
            '__annotations__', '__class__', '__debug__'}
FAULTS = ('NameError', 'UnboundLocalError', 'AttributeError', 'TypeError', 'ImportError', 'ModuleNotFoundError')


class Pkg:
    """Syntax trees, symbol tables and module namespaces of the package."""

    def __init__(self, root):
        self.dir = os.path.join(root, PKG)
        self.mods = {}
        for d, _, fs in os.walk(self.dir):
            for f in sorted(fs):
                if f.endswith('.py') and '/tests' not in d:
                    p = os.path.join(d, f)
                    q = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    if q.endswith('.__init__'):
                        q = q[:-9]
                    src = open(p, encoding='utf-8').read()
                    t = ast.parse(src)
                    self.mods[q] = (os.path.relpath(p, self.dir), t, symtable.symtable(src, p, 'exec'))
        self.names = {q: self.namespace(q) for q in self.mods}

    def namespace(self, q):
        """Names bound at module level (or declared global in a function)."""
        f, t, st = self.mods[q]
        out = {s.get_name() for s in st.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}

        def deep(s):
            for y in s.get_children():
                out.update(x.get_name() for x in y.get_symbols() if x.is_declared_global() and x.is_assigned())
                deep(y)
        deep(st)
        if f.endswith('__init__.py'):
            out |= {m[len(q) + 1:].split('.')[0] for m in self.mods if m.startswith(q + '.')}
        return out

    def star(self, q):
        """Names brought in by star imports; None when unknown."""
        out = set()
        for n in ast.walk(self.mods[q][1]):
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                m = self.source(q, n)
                if m in self.mods:
                    x = {y for y in self.names[m] if not y.startswith('_')}
                elif m in EXT:
                    x = EXT[m]
                else:
                    return None
                out |= x
        return out

    def source(self, q, n):
        if not n.level:
            return n.module
        base = q.split('.')
        if not self.mods[q][0].endswith('__init__.py'):
            base = base[:-1]
        base = base[:len(base) - n.level + 1]
        return '.'.join(base + ([n.module] if n.module else []))

    def has(self, m, name):
        """Does module m define name?  None: module not known."""
        if m in self.mods:
            if '__getattr__' in self.names[m]:
                return None
            s = self.star(m)
            if name in self.names[m] or name in IMPLICIT or (s and name in s):
                return True
            return None if s is None else False
        if m in EXT:
            return name in EXT[m] or name in IMPLICIT or '%s.%s' % (m, name) in EXT or '%s.%s' % (m, name) in EXT['%submodules']
        return None


def dynamic(t):
    """Scopes are changed behind the symbol table."""
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals', 'eval', 'vars', 'setattr')
               for n in ast.walk(t))


def lines_of(t, name, fn=None):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load):
            return ':%d' % n.lineno
    return ''


def aliases(p, q, scope):
    """name -> (module, None) or (module, attribute), for imports of the scope."""
    out = {}
    for n in scope:
        if isinstance(n, ast.Import):
            for a in n.names:
                out.setdefault(a.asname or a.name.split('.')[0], set()).add(
                    (a.name if a.asname else a.name.split('.')[0], None))
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                m = p.source(q, n)
                full = '%s.%s' % (m, a.name)
                if full in p.mods and a.name not in p.names.get(m, ()) or full in EXT:
                    out.setdefault(a.asname or a.name, set()).add((full, None))
                else:
                    out.setdefault(a.asname or a.name, set()).add((m, a.name))
    return {k: next(iter(v)) for k, v in out.items() if len(v) == 1}


def rebound(t):
    """Names bound other than by an import."""
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def guarded(t):
    """Nodes inside a try that has handlers."""
    out = set()
    for n in ast.walk(t):
        if isinstance(n, ast.Try) and n.handlers:
            for s in n.body:
                out |= {id(x) for x in ast.walk(s)}
    return out


def resolve(p, q, imps, off, e):
    """Module and attribute a dotted expression denotes, when it is one."""
    if isinstance(e, ast.Name):
        if e.id in imps and e.id not in off:
            return imps[e.id]
        return None
    if isinstance(e, ast.Attribute):
        b = resolve(p, q, imps, off, e.value)
        if b is None:
            return None
        m, a = b
        if a is None:
            full = '%s.%s' % (m, e.attr)
            if full in EXT['%alias']:
                return EXT['%alias'][full], None
            if full in p.mods and e.attr not in p.names.get(m, ()) or full in EXT or full in EXT['%submodules']:
                return full, None
            if full in p.mods and m in p.mods:
                own = {s for n in ast.walk(p.mods[m][1]) if isinstance(n, ast.ImportFrom) for s in [x.asname or x.name for x in n.names]}
                if e.attr not in own:
                    return full, None
            return m, e.attr
    return None


def fits(fn, call, bound=0):
    """None when the call fits the signature, else what is wrong."""
    a = fn.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    only = [x.arg for x in a.kwonlyargs]
    if len(call.args) > len(pos) and a.vararg is None:
        return '%d positional arguments for %d parameters' % (len(call.args), len(pos))
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given:
            return 'two values for parameter %s' % k.arg
        if k.arg not in pos and k.arg not in only and a.kwarg is None:
            return 'no parameter %s' % k.arg
        given.add(k.arg)
    req = pos[:len(pos) - len(a.defaults)] + [x for x, d in zip(only, a.kw_defaults) if d is None]
    miss = [x for x in req if x not in given]
    return 'no value for parameter %s' % ', '.join(miss) if miss else None


def scopes(st):
    yield st
    for c in st.get_children():
        yield from scopes(c)


def names_ob(p, q):
    f, t, st = p.mods[q]
    if dynamic(t):
        raise Undecided('namespaces changed at run time')
    star = p.star(q)
    if star is None:
        raise Undecided('star import of an unknown module')
    n = 0
    ok = p.names[q] | star | set(dir(builtins)) | IMPLICIT
    for s in scopes(st):
        for x in s.get_symbols():
            if x.is_referenced() and (x.is_global() or s.get_type() == 'module'):
                n += 1
                Count.n += 1
                if x.get_name() not in ok:
                    raise Violation('name %r in %s is not defined anywhere' % (
                        x.get_name(), s.get_name()), f + lines_of(t, x.get_name()))
    Count.exact += n
    Count.analysed.add(q)


def attrs_ob(p, q):
    f, t, st = p.mods[q]
    safe = guarded(t)
    off = rebound(t)
    imps = aliases(p, q, [n for n in ast.walk(t) if isinstance(n, (ast.Import, ast.ImportFrom))])
    for n in ast.walk(t):
        if id(n) in safe:
            continue
        if isinstance(n, ast.ImportFrom):
            m = p.source(q, n)
            if m.split('.')[0] == PKG and m not in p.mods:
                raise Violation('import from the missing module %s' % m, '%s:%d' % (f, n.lineno))
            for a in n.names:
                Count.n += 1
                if a.name != '*' and p.has(m, a.name) is False and '%s.%s' % (m, a.name) not in p.mods:
                    raise Violation('%s has no %s to import' % (m, a.name), '%s:%d' % (f, n.lineno))
                Count.exact += 1
        elif isinstance(n, ast.Import):
            for a in n.names:
                Count.n += 1
                if a.name.split('.')[0] == PKG and a.name not in p.mods:
                    raise Violation('import of the missing module %s' % a.name, '%s:%d' % (f, n.lineno))
                Count.exact += 1
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            if no_such(p, off, n):
                raise Violation('no attribute %s of %s' % (n.attr, ast.unparse(n.value)[:60]), '%s:%d' % (f, n.lineno))
            r = resolve(p, q, imps, off, n)
            if r is not None and r[1] is not None and r[1] == n.attr:
                Count.n += 1
                if p.has(*r) is False:
                    raise Violation('module %s has no attribute %s' % r, '%s:%d' % (f, n.lineno))
                Count.exact += 1
    if '__all__' in p.names[q]:
        for n in t.body:
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == '__all__' for x in n.targets):
                try:
                    every = ast.literal_eval(n.value)
                except ValueError:
                    raise Undecided('computed __all__')
                for x in every:
                    Count.n += 1
                    if p.has(q, x) is False:
                        raise Violation('__all__ of %s lists %s, which does not exist' % (q, x), '%s:%d' % (f, n.lineno))
                    Count.exact += 1
    locals_ob(p, q)
    Count.analysed.add(q)


def no_such(p, off, n):
    """The attribute exists on no value the expression can have."""
    v = n.value
    for node, t in ((ast.JoinedStr, str), (ast.List, list), (ast.ListComp, list), (ast.Dict, dict), (ast.DictComp, dict),
                    (ast.Set, set), (ast.SetComp, set), (ast.Tuple, tuple)):
        if isinstance(v, node):
            return n.attr not in dir(t)
    if isinstance(v, ast.Constant) and isinstance(v.value, (str, int, float, complex, bytes)):
        return n.attr not in dir(type(v.value))
    of_type = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'type' and len(v.args) == 1 and \
        'type' not in off and not any('type' in p.names[q] for q in p.mods)
    if of_type or (n.attr.startswith('__') and n.attr.endswith('__')):
        return n.attr not in known(p)
    return False


LITERAL = ((ast.JoinedStr, str), (ast.List, list), (ast.ListComp, list), (ast.Dict, dict), (ast.DictComp, dict),
           (ast.Set, set), (ast.SetComp, set), (ast.Tuple, tuple))


def literal_type(v):
    if isinstance(v, ast.Constant) and isinstance(v.value, (str, int, float, complex)) and not isinstance(v.value, bool):
        return type(v.value)
    for node, t in LITERAL:
        if isinstance(v, node):
            return t
    if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mod)) and literal_type(v.left) is str:
        return str
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and literal_type(v.func.value) is str and \
            v.func.attr in ('format', 'join', 'strip', 'lower', 'upper', 'replace'):
        return str
    return None


def own(fn):
    """Nodes of the function that are not in a scope inside it."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                yield x
            else:
                todo.append(x)


def locals_ob(p, q):
    """Attributes of local variables that only ever hold literals of known types."""
    f, t, st = p.mods[q]
    safe = guarded(t)
    for fn in ast.walk(t):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        types, bad = {}, {x.arg for x in ast.walk(fn.args) if isinstance(x, ast.arg)}
        plain = set()
        body = list(own(fn))
        for n in body:
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                bad.update(n.names)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                bad.add(n.name)
                bad.update(x for y in ast.walk(n) if isinstance(y, ast.Nonlocal) for x in y.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bad.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                bad.update((a.asname or a.name).split('.')[0] for a in n.names)
            elif isinstance(n, ast.Assign):
                for x in n.targets:
                    if isinstance(x, ast.Name):
                        types.setdefault(x.id, set()).add(literal_type(n.value))
                        plain.add(id(x))
        for n in body:
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in plain:
                bad.add(n.id)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                bad.add(n.name)
        for n in body:
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and \
                    id(n) not in safe and n.value.id in types and n.value.id not in bad and None not in types[n.value.id]:
                Count.n += 1
                if not any(n.attr in dir(x) for x in types[n.value.id]):
                    raise Violation('no attribute %s of %s, which holds a %s' % (n.attr, n.value.id, ' or '.join(
                        sorted(x.__name__ for x in types[n.value.id]))), '%s:%d' % (f, n.lineno))
                Count.exact += 1


def known(p):
    """Attribute names of all classes and modules within reach."""
    if not hasattr(p, 'attrs'):
        u = set(IMPLICIT)
        for x in list(vars(builtins).values()) + [type(known), type(ast), type(known.__code__), type(p.dir.join), type(iter([]))]:
            u.update(dir(x))
        u.update(('__wrapped__', '__version__', '__all__', '__array__', '__array_interface__', '__array_struct__',
                  '__array_priority__', '__array_ufunc__', '__array_function__', '__slots__', '__mro__', '__bases__',
                  '__traceback__', '__cause__', '__context__', '__suppress_context__', '__author__', '__getattr__'))
        for k, v in EXT.items():
            if isinstance(v, set):
                u |= v
        for _, t, _ in p.mods.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                    u.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    u.add(n.name)
                elif isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    u.add(n.id)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                    u.add(n.value)
        p.attrs = u
    return p.attrs


def calls_ob(p, q):
    f, t, st = p.mods[q]
    off = rebound(t)
    imps = aliases(p, q, [n for n in ast.walk(t) if isinstance(n, (ast.Import, ast.ImportFrom))])
    once = {}
    for m, (_, tt, _) in p.mods.items():
        for s in tt.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                once.setdefault((m, s.name), []).append(s)
    plain = {k: v[0] for k, v in once.items() if len(v) == 1 and isinstance(v[0], ast.FunctionDef) and not v[0].decorator_list
             and k[1] not in stores(p.mods[k[0]][1])}
    inner = locals_of(t)
    for n in ast.walk(t):
        if not isinstance(n, ast.Call):
            continue
        fn = None
        if isinstance(n.func, ast.Name) and n.func.id not in inner and (q, n.func.id) in plain:
            fn = plain[q, n.func.id]
        else:
            r = resolve(p, q, imps, off, n.func)
            if r is not None and r[1] is not None:
                fn = plain.get(r)
        if fn is None:
            continue
        Count.n += 1
        bad = fits(fn, n)
        if bad:
            raise Violation('call of %s: %s' % (fn.name, bad), '%s:%d' % (f, n.lineno))
        Count.exact += 1
    Count.analysed.add(q)


def stores(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}


def locals_of(t):
    """Names that some function binds locally."""
    out = set()
    for s in ast.walk(t):
        if isinstance(s, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, ast.arg):
                    out.add(n.arg)
                elif isinstance(n, ast.FunctionDef) and n is not s:
                    out.add(n.name)
    return out


def obligations(s):
    p = Pkg(os.environ.get('SA_ROOT', '/repo'))
    for q in sorted(p.mods):
        f = 'solidspy/' + p.mods[q][0]
        s.add('names of %s' % q, f, lambda q=q: names_ob(p, q))
        s.add('imports and module attributes of %s' % q, f, lambda q=q: attrs_ob(p, q))
        s.add('calls of package functions in %s' % q, f, lambda q=q: calls_ob(p, q))
    for c in catalogue():
        w = where(c.qual)

        def f(c=c, w=w):
            I = new()
            c.setup(I)
            a, k = c.args(I, '')
            r = run(I, c.qual, *a, **k)
            name = c.qual.split('.')[-1]
            if r.error is not None:
                if r.error.etype in FAULTS:
                    raise Violation('%s always raises %s: %s' % (name, r.error.etype, r.error.msg), w + line(I, r.error))
                raise Undecided('raises %s' % r.error.etype)
            for g, e in r.raises:
                if getattr(e, 'etype', '') in FAULTS and g.t and not T.has_unknown(g):
                    if reachable(g, r):
                        raise Violation('%s raises %s: %s' % (name, e.etype, e.msg), w, condition=pretty(g)[:500])
                    raise Undecided('%s under a condition no valuation meets' % e.etype)
            Count.n += 1
            Count.exact += 1
        s.add('%s: %s' % (c.qual.split('.')[-1], c.label), w, f)


def reachable(g, r):
    from ..valuate import separates
    w = separates(g, ZERO, assume=r.asm)
    return bool(w)
