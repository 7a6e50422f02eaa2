"""Abstract interpreter for the Python subset used by the analysed package.

The program is never run: each function body is interpreted over the term
domain of :mod:`sa.terms`.  Branches are joined with gates, loops over
symbolic ranges are summarised as bounded sums / families of writes, calls to
functions of the package are analysed in context or replaced by contracts.
"""
import ast
import os
from .values import *
from .pymodel import skey, ready, map_fill, IterV, consume
from . import values as V
from . import terms as T


def capmul(a, b):
    """a*b, or just a when the product would blow up.

    b is an assumption (a gate known to be one on the surviving executions);
    leaving it out only loses precision.
    """
    if b == ONE or not a.t:
        return a
    if len(a.t) * len(b.t) > 48:
        return a
    return a * b


def asm_and(a, g):
    """Strengthen assumption a with gate g unless it grows too large."""
    if g == ONE:
        return a
    if len(a.t) * len(g.t) > 16:
        return a if a.t else a
    r = a * g
    if len(r.t) > 12:
        return a
    return r


def asm_join(c, a, b):
    if a == b:
        return a
    if len(c.t) * (len(a.t) + len(b.t)) > 24:
        return ONE
    return ite(c, a, b)


# functions that do not read all of the iterators given to them at once
LAZY = {'next', 'iter', 'zip', 'enumerate', 'map', 'isinstance', 'id', 'callable', 'print', 'hasattr', 'partial',
        'islice', 'lru_cache', 'type', 'len'}


class Flow:
    __slots__ = ('status', 'pc', 'asm', 'locals', 'heap', 'val', 'node')

    def __init__(self, status, pc, asm, locals_, heap, val=None, node=None):
        self.status = status
        self.pc = pc
        self.asm = asm
        self.locals = locals_
        self.heap = heap
        self.val = val
        self.node = node


class Frame:
    def __init__(self, func, module, env):
        self.func = func
        self.module = module
        self.locals = {}
        self.env = env          # enclosing frame (closures)
        self.globals_decl = set()
        self.nonlocals = set()


class Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class Module:
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.globals = {}


def leaves_loop(body):
    """Is there a break (of this loop) in the body?"""
    for x in body:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for k in ast.iter_child_nodes(x):
            if isinstance(k, ast.stmt) and leaves_loop([k]) or isinstance(k, ast.ExceptHandler) and leaves_loop(k.body):
                return True
    return False


def arrays_of(v):
    if isinstance(v, Arr):
        return [v]
    if isinstance(v, (tuple, list)):
        return [a for x in v for a in arrays_of(x)]
    return []


class Interp:
    def __init__(self, root='/repo', pkg='solidspy'):
        self.root = root
        self.pkg = pkg
        self.modules = {}
        self.stubs = {}
        self.frames = []
        self.pc = ONE
        self.asm = ONE
        self.base = ONE
        self.raises = []
        self.depth = 0
        self.trystack = []
        self.cache = {}
        self.notes = []
        self.node = None
        self.steps = 0
        self.analysed = set()
        self.call_sites = 0
        self.max_steps = 3000000
        M.reset()
        M.I = self
        self.effects = PyList()
        from . import npmodel
        self.np = npmodel
        self.builtins = npmodel.BUILTINS

    # ------------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.split('.')
        path = os.path.join(self.root, *rel)
        if name == 'sa.prelude':
            path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'prelude')
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path = path + '.py'
        if not os.path.exists(path):
            raise PyRaise('ModuleNotFoundError', 'No module named %r' % name)
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        m = Module(name, path, tree)
        self.modules[name] = m
        saved = (self.frames, self.pc, self.asm, self.base, self.raises)
        self.frames, self.pc, self.asm, self.base, self.raises = [], ONE, ONE, ONE, []
        fr = Frame(None, m, None)
        known = set(M.heap)
        fr.locals = m.globals
        m.globals['__name__'] = name
        m.globals['__file__'] = path
        self.frames.append(fr)
        try:
            exits, alive = self.exec_block(tree.body)
            m.globals = self.frames[-1].locals
            if not alive:
                for f in exits:
                    raise f.val if isinstance(f.val, PyRaise) else PyRaise('ImportError', name)
        finally:
            self.frames, self.pc, self.asm, self.base, self.raises = saved
        for ref in list(M.heap):
            if ref.origin is None and ref not in known:
                ref.origin = ('module', name)
        return m

    def func(self, qual):
        mod, name = qual.rsplit('.', 1)
        m = self.load(mod)
        if name not in m.globals:
            raise Undecided('anchor %s is not defined' % qual)
        return m.globals[name]

    # -------------------------------------------------------------- states
    def capture(self):
        return (dict(self.frames[-1].locals), dict(M.heap), self.pc, self.asm)

    def restore(self, s):
        fr = self.frames[-1]
        fr.locals = dict(s[0])
        if fr.func is None:
            fr.module.globals = fr.locals
        M.heap = dict(s[1])
        self.pc = s[2]
        self.asm = s[3]

    def install(self, loc, heap, pc, asm):
        fr = self.frames[-1]
        fr.locals = loc
        if fr.func is None:
            fr.module.globals = loc
        M.heap = heap
        self.pc = pc
        self.asm = asm

    def mix_states(self, c, l1, h1, l2, h2):
        """Gate two states: (locals, heap)."""
        heap = dict(h1)
        diff = []
        for r, v in h2.items():
            w = heap.get(r)
            if w is None:
                heap[r] = v
            elif w is not v:
                diff.append(r)
        save = M.heap
        M.heap = heap
        try:
            for r in diff:
                heap[r] = self.mix_content(c, h1[r], h2[r], r)
            loc = {}
            for k in list(l1) + [k for k in l2 if k not in l1]:
                a = l1.get(k, UNBOUND)
                b = l2.get(k, UNBOUND)
                if a is b:
                    loc[k] = a
                else:
                    loc[k] = self.mix(c, a, b, h1, h2)
        finally:
            M.heap = save
        return loc, heap

    def mix_content(self, c, a, b, ref=None):
        if a is b:
            return a
        if isinstance(a, Dense) and isinstance(b, Dense) and a.shape == b.shape:
            cells = {}
            for k, x in a.cells.items():
                y = b.cells[k]
                cells[k] = x if x == y else ite(c, x, y)
            return Dense(cells, a.shape)
        if isinstance(a, (WChain, Lazy, PreC, UnkC, Mix)) and isinstance(b, (WChain, Lazy, PreC, UnkC, Mix)):
            ca = []
            x = a
            while isinstance(x, WChain):
                ca.append(x)
                x = x.parent
            ca.append(x)
            sa = {id(w): i for i, w in enumerate(ca)}
            cb = []
            y = b
            while id(y) not in sa and isinstance(y, WChain):
                cb.append(y)
                y = y.parent
            if id(y) in sa:
                pre = ca[:sa[id(y)]]
                out = y
                for w in reversed(pre):
                    out = WChain(out, w.bvs, w.guard * c, w.idx, w.val, w.mode)
                for w in reversed(cb):
                    out = WChain(out, w.bvs, w.guard * (ONE - c), w.idx, w.val, w.mode)
                return out
            return Mix(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            n = 0
            while n < len(a) and n < len(b) and a[n] is b[n]:
                n += 1
            ra, rb = a[n:], b[n:]
            if len(ra) == len(rb) and not any(isinstance(x, (Gen, Guarded, PreSeg, UnkSeg)) for x in ra + rb) \
                    and self.effects is not ref:
                return a[:n] + tuple(self.mix(c, x, y) for x, y in zip(ra, rb))
            out = a[:n]
            if ra:
                out += (Guarded(c, ra),)
            if rb:
                out += (Guarded(ONE - c, rb),)
            return out
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [k for k in b if k not in a]:
                out[k] = self.mix(c, a.get(k, UNBOUND), b.get(k, UNBOUND))
            return out
        if isinstance(a, (Dense, WChain, Lazy, PreC, UnkC, Mix)) and isinstance(b, (Dense, WChain, Lazy, PreC, UnkC, Mix)):
            return Mix(c, a, b)
        return self.mix(c, a, b)

    def mix(self, c, a, b, h1=None, h2=None):
        """Value that is a if c else b."""
        if a is b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            if a.p == b.p and a.k == b.k:
                return a
            return Num(ite(c, a.p, b.p), jk(a.k, b.k))
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if a is None and b is None:
            return None
        if isinstance(a, TypeV) and isinstance(b, TypeV) and a == b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and \
                all(x == y for x, y in zip(a.shape, b.shape)):
            if a.store is b.store and a.imap is b.imap:
                return a
            fa, fb = a.frozen(), b.frozen()
            return from_fn(a.shape, lambda i: ite(c, fa.get(i), fb.get(i)), jk(a.kind, b.kind))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mix(c, x, y) for x, y in zip(a, b))
        if isinstance(a, PyList) and isinstance(b, PyList):
            ia, ib = a.items, b.items
            if len(ia) == len(ib) and a.concrete() and b.concrete():
                return PyList([self.mix(c, x, y) for x, y in zip(ia, ib)])
        if isinstance(a, Sparse) and isinstance(b, Sparse) and a.fmt == b.fmt:
            return Sparse(self.mix(c, a.arr, b.arr), a.fmt)
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.env is b.env:
            return a
        alts = []
        for g, v in ((c, a), (ONE - c, b)):
            if isinstance(v, Choice):
                alts += [(g * g2, v2) for g2, v2 in v.alts]
            else:
                alts.append((g, v))
        merged = []
        for g, v in alts:
            if not g.t:
                continue
            for i, (g2, v2) in enumerate(merged):
                if v2 is v or (isinstance(v, str) and isinstance(v2, str) and v == v2):
                    merged[i] = (g2 + g, v2)
                    break
            else:
                merged.append((g, v))
        if len(merged) == 1:
            return merged[0][1]
        return Choice(merged)

    def merge_flows(self, flows):
        """Join flows of one frame; installs the joined state, returns value."""
        f = flows[-1]
        loc, heap, val, asm, pc = f.locals, f.heap, f.val, f.asm, f.pc
        for g in reversed(flows[:-1]):
            c = g.pc
            l2, h2 = self.mix_states(c, g.locals, g.heap, loc, heap)
            save = M.heap
            M.heap = h2
            val = self.mix(c, g.val, val)
            h2 = M.heap
            M.heap = save
            asm = asm_join(c, g.asm, asm)
            loc, heap = l2, h2
            pc = pc + g.pc
        self.install(loc, heap, pc, asm)
        return val

    # --------------------------------------------------------------- raises
    def cond_raise(self, guard, etype, msg=''):
        """The program raises etype here if guard."""
        if not guard.t:
            return
        if guard == ONE:
            raise PyRaise(etype, msg, self.node)
        self.raises.append(Flow('raise', capmul(self.base * self.pc * guard, self.asm), None,
                                dict(self.frames[-1].locals) if self.frames else {},
                                dict(M.heap) if self.trystack else None,
                                PyRaise(etype, msg, self.node), self.node))
        self.raises[-1].asm = (self.pc * guard, len(self.frames))
        self.asm = asm_and(self.asm, ONE - guard)

    # ----------------------------------------------------------- statements
    def exec_block(self, stmts):
        exits = []
        for s in stmts:
            ex, alive = self.exec_stmt(s)
            exits += ex
            if not alive:
                return exits, False
        return exits, True

    def leave(self, status, val=None, node=None):
        return Flow(status, self.pc, self.asm, dict(self.frames[-1].locals), dict(M.heap), val, node)

    def exec_stmt(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undecided('analysis budget exhausted')
        self.node = s
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s' % type(s).__name__)
        nf = len(self.frames)
        try:
            r = m(s)
        except PyRaise as e:
            if e.node is None:
                e.node = s
            del self.frames[nf:]
            return [self.leave('raise', e, s)], False
        return r if r is not None else ([], True)

    def st_Pass(self, s):
        return None

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value)

    def st_Import(self, s):
        for a in s.names:
            top = a.name.split('.')[0]
            if top == self.pkg:
                self.load(a.name)
            if a.asname:
                self.bind(a.asname, ModV(a.name))
            else:
                self.bind(top, ModV(top))
            if top != self.pkg:
                self.np.check_module(self, a.name)

    def st_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.frames[-1].module.name.split('.')
            ispkg = self.frames[-1].module.path.endswith('__init__.py')
            k = s.level - (1 if ispkg else 0)
            base = base[:len(base) - k] if k else base
            mod = '.'.join(base + ([mod] if mod else []))
        if mod == '__future__':
            return
        for a in s.names:
            if mod.split('.')[0] == self.pkg:
                m = self.load(mod)
                if a.name == '*':
                    for k, v in m.globals.items():
                        if not k.startswith('_'):
                            self.bind(k, v)
                    continue
                if a.name in m.globals:
                    v = m.globals[a.name]
                else:
                    try:
                        self.load(mod + '.' + a.name)
                        v = ModV(mod + '.' + a.name)
                    except PyRaise:
                        raise PyRaise('ImportError', 'cannot import name %r from %r' % (a.name, mod))
            else:
                if a.name == '*':
                    raise Undecided('star import of %s' % mod)
                v = self.np.mod_attr(self, mod, a.name)
            self.bind(a.asname or a.name, v)

    def st_FunctionDef(self, s):
        fr = self.frames[-1]
        defaults = [self.ev(d) for d in s.args.defaults]
        for d in defaults:
            if isinstance(d, Ref):
                d.origin = ('default', s.name)
            if isinstance(d, Arr):
                d.store.origin = ('default', s.name)
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.ev(d)
        qual = (fr.func.qual + '.' + s.name) if fr.func else fr.module.name + '.' + s.name
        f = FuncV(s, fr.module, fr if fr.func else None, s.name, defaults, kwd, qual)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            v = self.decorate(dv, v)
        self.bind(s.name, v)

    def decorate(self, dv, v):
        if isinstance(dv, Builtin) and dv.name in ('functools.lru_cache', 'functools.cache', 'functools.wraps'):
            if isinstance(v, FuncV) and dv.name != 'functools.wraps':
                v.cached = True
            return v
        return self.call(dv, [v], {})

    def st_ClassDef(self, s):
        self.bind(s.name, Opq('class', s))

    def st_Global(self, s):
        self.frames[-1].globals_decl |= set(s.names)

    def st_Nonlocal(self, s):
        self.frames[-1].nonlocals |= set(s.names)

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        return [self.leave('ret', v, s)], False

    def st_Break(self, s):
        return [self.leave('brk')], False

    def st_Continue(self, s):
        return [self.leave('cnt')], False

    def st_Raise(self, s):
        if s.exc is None:
            e = self.frames[-1].locals.get('%exc')
            if isinstance(e, PyRaise):
                raise e
            raise PyRaise('Exception', '', s)
        v = self.ev(s.exc)
        if isinstance(v, ExcV):
            raise PyRaise(v.etype, v.msg, s)
        if isinstance(v, TypeV):
            raise PyRaise(v.name, '', s)
        raise PyRaise('Exception', '', s)

    def st_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.cond_raise(ONE - c, 'AssertionError')

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].locals.pop(t.id, None)
            else:
                raise Undecided('del')

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            a = self.load_name(t.id)
            b = self.ev(s.value)
            if isinstance(a, Arr):
                self.arr_iop(a, op, b)
                return
            if isinstance(a, PyList) and op == 'Add':
                self.list_extend(a, b)
                return
            self.bind(t.id, self.binop(op, a, b))
            return
        if isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_index(t.slice)
            if isinstance(o, Choice):
                raise Undecided('augmented assignment to a choice')
            if isinstance(o, Arr):
                b = self.ev(s.value)
                self.np.arr_setop(self, o, k, op, b)
                return
            old = self.getitem(o, k)
            b = self.ev(s.value)
            if isinstance(old, Arr):
                self.arr_iop(old, op, b)
                return
            if isinstance(old, PyList) and op == 'Add':
                self.list_extend(old, b)
                return
            self.setitem(o, k, self.binop(op, old, b))
            return
        if isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, t.attr)
            if isinstance(old, Arr):
                self.arr_iop(old, op, self.ev(s.value))
                return
            self.setattr(o, t.attr, self.binop(op, old, self.ev(s.value)))
            return
        raise Undecided('augmented assignment')

    def arr_iop(self, a, op, b):
        self.np.arr_setop(self, a, ELL, op, b)

    def st_Match(self, s):
        return self.run_match(s.cases, self.ev(s.subject))

    def run_match(self, cases, v):
        if not cases:
            return [], True
        if isinstance(v, Choice):
            g, x = v.alts[0]
            if len(v.alts) == 1:
                return self.run_match(cases, x)
            return self.branch(g, lambda: self.run_match(cases, x),
                               lambda: self.run_match(cases, Choice(v.alts[1:])))
        c = cases[0]
        binds = []
        g = self.matches(c.pattern, v, binds)

        def body():
            for n, x in binds:
                self.bind(n, x)
            if c.guard is None:
                return self.exec_block(c.body)
            h = self.truth(self.ev(c.guard))
            if h.is_const():
                return self.exec_block(c.body) if h.const() else self.run_match(cases[1:], v)
            return self.branch(h, lambda: self.exec_block(c.body), lambda: self.run_match(cases[1:], v))
        if g.is_const():
            return body() if g.const() else self.run_match(cases[1:], v)
        return self.branch(g, body, lambda: self.run_match(cases[1:], v))

    def matches(self, p, v, binds):
        """Condition under which the pattern matches; names it binds."""
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('Eq', v, self.ev(p.value)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('Is', v, p.value))
        if isinstance(p, ast.MatchAs):
            g = ONE if p.pattern is None else self.matches(p.pattern, v, binds)
            if p.name is not None:
                binds.append((p.name, v))
            return g
        if isinstance(p, ast.MatchOr):
            out = ONE
            for q in p.patterns:
                nb = []
                g = self.matches(q, v, nb)
                if nb:
                    raise Undecided('alternatives that bind names')
                out = out * (ONE - g)
            return ONE - out
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (Num, str, dict)) or v is None or isinstance(v, (PyDict, Arr)):
                return ZERO
            xs = self.np.unpack_any(self, v)
            star = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                k = star[0]
                m = len(p.patterns) - 1
                if len(xs) < m:
                    return ZERO
                e = k - m
                parts = xs[:k] + [PyList(xs[k:len(xs) + e])] + (xs[e:] if e else [])
            else:
                if len(xs) != len(p.patterns):
                    return ZERO
                parts = xs
            g = ONE
            for q, x in zip(p.patterns, parts):
                if isinstance(q, ast.MatchStar):
                    if q.name is not None:
                        binds.append((q.name, x))
                else:
                    g = g * self.matches(q, x, binds)
            return g
        raise Undecided('pattern %s' % type(p).__name__)

    def st_If(self, s):
        c = self.truth(self.ev(s.test))
        if c.is_const():
            return self.exec_block(s.body if c.const() != 0 else s.orelse)
        return self.branch(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def branch(self, c, f1, f2):
        s0 = self.capture()
        self.pc = s0[2] * c
        if not self.pc.t or not capmul(self.pc, self.asm).t:
            # infeasible
            self.pc = s0[2]
            return f2()
        p2 = s0[2] * (ONE - c)
        if not p2.t or not capmul(p2, self.asm).t:
            self.pc = s0[2]
            return f1()
        ex1, al1 = f1()
        s1 = (self.frames[-1].locals, M.heap, self.pc, self.asm)
        self.restore(s0)
        self.pc = p2
        ex2, al2 = f2()
        s2 = (self.frames[-1].locals, M.heap, self.pc, self.asm)
        exits = ex1 + ex2
        if al1 and al2:
            loc, heap = self.mix_states(c, s1[0], s1[1], s2[0], s2[1])
            pc = s0[2] if not any(f.status != 'raise' for f in exits) else s1[2] + s2[2]
            asm = asm_join(c, s1[3], s2[3])
            self.install(loc, heap, pc, asm)
            return exits, True
        if al1 or al2:
            s, g, other = (s1, c, ex2) if al1 else (s2, ONE - c, ex1)
            pc, asm = s[2], s[3]
            if all(f.status == 'raise' for f in other):
                if all(f.status == 'raise' for f in exits):
                    pc = s0[2]
                asm = asm_and(asm, g)
            self.install(s[0], s[1], pc, asm)
            return exits, True
        return exits, False

    def st_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.exec_block(s.body)

    def st_Try(self, s):
        n0 = len(self.raises)
        depth = len(self.frames)
        s0 = self.capture()
        self.trystack.append(depth)
        try:
            exits, alive = self.exec_block(s.body)
        finally:
            self.trystack.pop()
        if alive:
            end = (self.frames[-1].locals, M.heap, self.pc, self.asm)
        caught = []
        for r in self.raises[n0:]:
            h = self.find_handler(s, r.val)
            if h is not None:
                guard, nfr = r.asm
                # guard is relative to the frame that raised
                absg = r.pc
                f = Flow('raise', None, s0[3], dict(r.locals) if nfr == depth else dict(s0[0]),
                         r.heap if r.heap is not None else dict(s0[1]), r.val)
                # recover the guard relative to this frame
                f.pc = self.strip_base(absg)
                caught.append((h, f, r))
        for h, f, r in caught:
            self.raises.remove(r)
        rest = []
        flows = []
        for f in exits:
            if f.status == 'raise':
                h = self.find_handler(s, f.val)
                if h is not None:
                    caught.append((h, f, None))
                    continue
            rest.append(f)
        flows = rest
        normal = []
        if alive:
            if s.orelse:
                self.install(*end)
                ex, al = self.exec_block(s.orelse)
                flows += ex
                if al:
                    normal.append(self.leave('n'))
            else:
                normal.append(Flow('n', end[2], end[3], end[0], end[1]))
        # group handlers by handler node, run each from its raise state
        for h, f, _ in caught:
            self.install(dict(f.locals), dict(f.heap), f.pc, f.asm if isinstance(f.asm, Poly) else s0[3])
            if h.name:
                self.bind(h.name, ExcV(f.val.etype, f.val.msg))
            self.frames[-1].locals['%exc'] = f.val
            ex, al = self.exec_block(h.body)
            flows += ex
            if al:
                normal.append(self.leave('n'))
        if normal:
            self.merge_flows(normal)
            if s.finalbody:
                ex, al = self.exec_block(s.finalbody)
                return flows + ex, al
            return flows, True
        if s.finalbody:
            self.restore(s0)
            self.exec_block(s.finalbody)
        return flows, False

    def strip_base(self, g):
        return g

    def find_handler(self, s, e):
        for h in s.handlers:
            if h.type is None:
                return h
            t = self.ev(h.type)
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                if isinstance(x, TypeV) and self.np.exc_matches(e.etype, x.name):
                    return h
        return None

    # ---------------------------------------------------------------- loops
    def st_For(self, s):
        it = self.ev(s.iter)
        return self.run_for(s, it)

    def run_for(self, s, it):
        if isinstance(it, Choice):
            g, v = it.alts[0]
            if len(it.alts) == 1:
                return self.run_for(s, v)
            return self.branch(g, lambda: self.run_for(s, v), lambda: self.run_for(s, Choice(it.alts[1:])))
        segs = self.np.iterate(self, it)
        return self.for_segs(s, segs)

    def for_segs(self, s, segs):
        """segs: list of ('v', value) | ('loop', n, fn, guardfn)."""
        breaks = []
        exits = []
        pc0 = self.pc
        asm_alive = True
        for seg in segs:
            if seg[0] == 'v':
                self.assign(s.target, seg[1])
                ex, alive = self.exec_block(s.body)
            elif seg[0] == 'if':
                g, inner = seg[1], seg[2]
                ex, alive = self.branch(g, lambda: self.for_segs_inner(s, inner), lambda: ([], True))
            else:
                ex, alive = self.sym_for(s, seg)
            cn = [f for f in ex if f.status == 'cnt']
            breaks += [f for f in ex if f.status == 'brk']
            exits += [f for f in ex if f.status in ('ret', 'raise')]
            if cn:
                if alive:
                    cn.append(self.leave('n'))
                self.merge_flows(cn)
                alive = True
            if not alive:
                asm_alive = False
                break
        if asm_alive and s.orelse:
            ex, asm_alive = self.exec_block(s.orelse)
            exits += ex
        if breaks:
            for f in breaks:
                f.val = None
            if asm_alive:
                breaks.append(self.leave('n'))
            self.merge_flows(breaks)
            asm_alive = True
        if asm_alive and not any(f.status in ('ret',) for f in exits):
            self.pc = pc0
        return exits, asm_alive

    def for_segs_inner(self, s, segs):
        class _N:
            pass
        n = _N()
        n.target, n.body, n.orelse = s.target, s.body, []
        return self.for_segs(n, segs)

    def sym_for(self, s, seg):
        t, n, fn, gfn = seg
        if t == 'nest':
            if leaves_loop(s.body):
                if gfn is not None:
                    return self.sym_for(s, gfn)
                raise Undecided('break in a loop over an irregular list')
            return self.sym_loop(n, lambda i: self.for_segs_inner(s, fn(i)))

        def body(i):
            v = fn(i)
            if gfn is not None:
                g = gfn(i)
                if g != ONE:
                    def inner():
                        self.assign(s.target, v)
                        return self.loop_body(s.body)
                    return self.branch(g, inner, lambda: ([], True))
            self.assign(s.target, v)
            return self.loop_body(s.body)
        return self.sym_loop(n, body)

    def loop_body(self, stmts):
        ex, alive = self.exec_block(stmts)
        cn = [f for f in ex if f.status == 'cnt']
        if cn:
            if alive:
                cn.append(self.leave('n'))
            self.merge_flows(cn)
            alive = True
            ex = [f for f in ex if f.status != 'cnt']
        return ex, alive

    def st_While(self, s):
        exits = []
        breaks = []
        pc0 = self.pc
        for it in range(400):
            snap = self.capture()
            c = self.truth(self.ev(s.test))
            if not c.is_const():
                self.restore(snap)
                ex, alive = self.sym_while(s)
                exits += [f for f in ex if f.status != 'brk']
                breaks += [f for f in ex if f.status == 'brk']
                break
            if c.const() == 0:
                alive = True
                break
            if it == 0 and self.counted(s.test):
                here = self.capture()
                n0 = len(self.raises)
                try:
                    self.restore(snap)
                    ex, alive = self.sym_while(s)
                    exits += [f for f in ex if f.status != 'brk']
                    breaks += [f for f in ex if f.status == 'brk']
                    break
                except Undecided:
                    del self.raises[n0:]
                    self.restore(here)
            ex, alive = self.loop_body(s.body)
            breaks += [f for f in ex if f.status == 'brk']
            exits += [f for f in ex if f.status != 'brk']
            if not alive:
                break
        else:
            raise Undecided('while loop')
        if breaks:
            for f in breaks:
                f.val = None
            if alive:
                breaks.append(self.leave('n'))
            self.merge_flows(breaks)
            alive = True
        if alive and not any(f.status == 'ret' for f in exits):
            self.pc = pc0
        return exits, alive

    def counted(self, t):
        """A comparison of numbers with a symbolic difference."""
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return False
        a, b = self.ev(t.left), self.ev(t.comparators[0])
        return isinstance(a, Num) and isinstance(b, Num) and not (a.p - b.p).is_const()

    def sym_while(self, s):
        """while v < n (and cond): ... v += 1"""
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq)):
            # find the induction variable: a name in the test stepped by a constant
            names = [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
            for nm in names:
                cur = self.frames[-1].locals.get(nm)
                if not isinstance(cur, Num):
                    continue
                snap = self.capture()
                tok = fresh('w', integer=True, lo=None)
                self.frames[-1].locals[nm] = Num(Poly.of(tok), cur.k)
                n0 = len(self.raises)
                try:
                    ex, alive = self.loop_body(s.body)
                    new = self.frames[-1].locals.get(nm)
                except (Undecided, PyRaise):
                    new = None
                del self.raises[n0:]
                self.restore(snap)
                if not isinstance(new, Num):
                    continue
                step = new.p - Poly.of(tok)
                k = step.as_int()
                if not k:
                    continue
                a = self.ev(t.left)
                b = self.ev(t.comparators[0])
                d = b.p - a.p
                # value of d as function of nm: substitute
                self.frames[-1].locals[nm] = Num(Poly.of(tok), cur.k)
                a2, b2 = self.ev(t.left).p, self.ev(t.comparators[0]).p
                self.restore(snap)
                ld = T.linear_in(b2 - a2, tok)
                if ld is None:
                    continue
                coef = ld[0] * k
                op = type(t.ops[0]).__name__
                if op in ('Gt', 'GtE'):
                    d, coef = -d, -coef
                if op in ('LtE', 'GtE'):
                    d = d + 1
                if op == 'NotEq' and coef > 0:
                    d, coef = -d, -coef
                if coef != -1:
                    continue
                n = d

                def body(i, nm=nm, cur=cur, k=k):
                    self.frames[-1].locals[nm] = Num(cur.p + i * k, cur.k)
                    return self.loop_body(s.body)
                return self.sym_loop(n, body)
        raise Undecided('while loop with a symbolic condition')

    def sym_loop(self, n, body):
        """Summarise ``for i < n: body(i)``."""
        k = n.as_int()
        if k is not None and k <= 0:
            return [], True
        if k is not None and k <= 40:
            exits = []
            breaks = []
            alive = True
            for j in range(k):
                ex, alive = body(P(j))
                cn = [f for f in ex if f.status == 'cnt']
                breaks += [f for f in ex if f.status == 'brk']
                exits += [f for f in ex if f.status in ('ret', 'raise')]
                if not alive:
                    break
            if breaks:
                return exits + breaks, alive
            return exits, alive
        return LoopSummary(self, n, body).run()

    # ------------------------------------------------------------- binding
    def bind(self, name, v):
        fr = self.frames[-1]
        if name in fr.globals_decl:
            self.effects_add(('global', fr.module.name + '.' + name, v))
            fr.module.globals[name] = v
            return
        if name in fr.nonlocals:
            e = fr.env
            while e is not None:
                if name in e.locals:
                    e.locals[name] = v
                    return
                e = e.env
        fr.locals[name] = v

    def effects_add(self, ev):
        M.heap[self.effects] = M.heap[self.effects] + (ev,)

    def load_name(self, name):
        fr = self.frames[-1]
        e = fr
        while e is not None:
            if name in e.locals and name not in fr.globals_decl:
                v = e.locals[name]
                if isinstance(v, Unbound):
                    raise PyRaise('UnboundLocalError', name)
                if isinstance(v, Choice) and any(isinstance(x, Unbound) for _, x in v.alts):
                    g = ZERO
                    rest = []
                    for gg, x in v.alts:
                        if isinstance(x, Unbound):
                            g = g + gg
                        else:
                            rest.append((gg, x))
                    self.cond_raise(g, 'UnboundLocalError', name)
                    v = rest[0][1] if len(rest) == 1 else Choice(rest)
                    e.locals[name] = v
                return v
            e = e.env
        g = fr.module.globals
        if name in g:
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise('NameError', "name '%s' is not defined" % name)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                vals = self.np.unpack_any(self, v)
                i = star[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, PyList(vals[i:len(vals) - after]))
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x)
                return
            vals = self.np.unpack(self, v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            self.setitem(o, self.ev_index(t.slice), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Undecided('assignment target')

    def setattr(self, o, attr, v):
        if isinstance(o, Arr) and attr == 'shape':
            raise Undecided('shape assignment')
        if isinstance(o, FuncV):
            self.effects_add(('setattr', o.qual, attr, v))
            return
        if isinstance(o, Opq):
            self.effects_add(('setattr', o.tag, attr, v))
            return
        raise Undecided('attribute assignment')

    def setitem(self, o, k, v):
        if isinstance(o, Choice):
            self.split(o, lambda x: self.setitem(x, k, v))
            return
        if isinstance(o, Arr):
            self.np.arr_set(self, o, k, v)
        elif isinstance(o, PyList):
            self.np.list_set(self, o, k, v)
        elif isinstance(o, PyDict):
            self.np.dict_set(self, o, k, v)
        elif isinstance(o, (Opq, Builtin, ModV)):
            self.effects_add(('setitem', getattr(o, 'tag', getattr(o, 'name', '')), k, v))
        elif isinstance(o, tuple):
            raise PyRaise('TypeError', "'tuple' object does not support item assignment")
        else:
            raise Undecided('item assignment on %s' % type(o).__name__)

    # ---------------------------------------------------------- expressions
    def ev(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s' % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return Num(P(v), 'i')
        if isinstance(v, float):
            return Num(P(T.Fraction(repr(v))) if v == v and v not in (float('inf'), -float('inf'))
                       else fn(repr(v)), 'f')
        if isinstance(v, complex):
            return Num(P(T.Fraction(repr(v.real))) + I * P(T.Fraction(repr(v.imag))), 'c')
        if v is Ellipsis:
            return ELL
        return v

    def ex_Name(self, e):
        return self.load_name(e.id)

    def ex_Tuple(self, e):
        return tuple(self.ev_star(e.elts))

    def ex_List(self, e):
        out = []
        for x in e.elts:
            if not isinstance(x, ast.Starred):
                out.append(self.ev(x))
                continue
            v = self.ev(x.value)
            if isinstance(v, PyList) and not v.concrete():
                out += v.items
                continue
            try:
                out += self.np.unpack_any(self, v)
            except Undecided:
                out += self.np.to_items(self, v)
        return PyList(out)

    def ex_Set(self, e):
        out = self.ev_star(e.elts)
        if all(isinstance(x, Num) for x in out) or all(self.np.dkey(x) is not None for x in out):
            return self.np.to_set(self, PyList(out))
        return PySet(out)

    def ev_star(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.np.unpack_any(self, self.ev(x.value))
            else:
                out.append(self.ev(x))
        return out

    def ex_Dict(self, e):
        d = PyDict() if e.keys else ready(PyDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                for kk, vv in o.items.items():
                    M.heap[d][kk] = vv
            else:
                self.np.dict_set(self, d, self.ev(k), self.ev(v))
        return d

    def ex_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        return self.unop(type(e.op).__name__, v)

    def unop(self, op, v):
        if isinstance(v, Choice):
            return self.split(v, lambda x: self.unop(op, x))
        if op == 'Not':
            return Num(ONE - self.truth(v), 'b')
        if isinstance(v, Sparse):
            return Sparse(self.unop(op, v.arr), v.fmt)
        if isinstance(v, Opq):
            return Opq('un' + op, v)
        if isinstance(v, (PyList, tuple)):
            raise PyRaise('TypeError', 'bad operand type for unary operator')
        if op == 'USub':
            return ew(lambda x: -x, self.np.kind(v), v)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if self.np.kind(v) == 'b':
                if isinstance(v, Num):
                    return Num(-v.p - 1, 'i')
                return ew(lambda x: ONE - x, 'b', v)
            return ew(lambda x: -x - 1, 'i', v)
        raise Undecided('unary ' + op)

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0])
        for x in e.values[1:]:
            c = self.truth(v)
            if c.is_const():
                if (c.const() != 0) == isand:
                    v = self.ev(x)
                else:
                    return v
                continue
            g = c if isand else ONE - c
            s0 = self.capture()
            self.pc = self.pc * g
            try:
                w = self.ev(x)
            except PyRaise as ex:
                self.restore(s0)
                self.cond_raise(g, ex.etype, ex.msg)
                continue
            h1, l1, a1 = M.heap, self.frames[-1].locals, self.asm
            self.pc = s0[2]
            if a1 != s0[3]:
                self.asm = asm_join(g, a1, s0[3])
            cw = None
            if isinstance(v, Num) and v.k == 'b' and isinstance(w, Num) and w.k == 'b':
                v = Num(v.p * w.p if isand else b_or(v.p, w.p), 'b')
            else:
                v = self.mix(g, w, v)
        return v

    def ex_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if c.is_const():
            return self.ev(e.body if c.const() != 0 else e.orelse)
        return self.gate(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def gate(self, c, f1, f2):
        """Evaluate two expressions under c / not c and join."""
        s0 = self.capture()
        r = []
        for g, f in ((c, f1), (ONE - c, f2)):
            self.restore(s0)
            self.pc = s0[2] * g
            if not self.pc.t or not capmul(self.pc, self.asm).t:
                r.append(None)
                continue
            nf = len(self.frames)
            try:
                v = f()
                r.append((g, v, self.frames[-1].locals, M.heap, self.asm, None))
            except PyRaise as ex:
                del self.frames[nf:]
                r.append((g, None, None, None, None, ex))
        ok = [x for x in r if x is not None and x[5] is None]
        bad = [x for x in r if x is not None and x[5] is not None]
        if not ok:
            self.restore(s0)
            if len(bad) == 2:
                self.cond_raise(bad[0][0], bad[0][5].etype, bad[0][5].msg)
            raise bad[-1][5]
        if len(ok) == 2:
            a, b = ok
            loc, heap = self.mix_states(c, a[2], a[3], b[2], b[3])
            M.heap = heap
            v = self.mix(c, a[1], b[1])
            heap = M.heap
            asm = asm_join(c, a[4], b[4])
            self.install(loc, heap, s0[2], asm)
            return v
        a = ok[0]
        self.install(a[2], a[3], s0[2], a[4])
        if bad:
            n0 = self.asm
            self.asm = s0[3]
            self.cond_raise(bad[0][0], bad[0][5].etype, bad[0][5].msg)
            self.asm = asm_and(n0, ONE - bad[0][0])
        return a[1]

    def split(self, ch, f):
        """Apply f to each alternative of a Choice and join the results."""
        alts = ch.alts
        if len(alts) == 1:
            return f(alts[0][1])
        g, v = alts[0]
        rest = Choice(alts[1:]) if len(alts) > 2 else alts[1][1]
        if isinstance(v, Unbound):
            self.cond_raise(g, 'KeyError')
            return f(rest) if not isinstance(rest, Choice) else self.split(rest, f)
        return self.gate(g, lambda: f(v), lambda: f(rest) if not isinstance(rest, Choice) else self.split(rest, f))

    def ex_Compare(self, e):
        a = self.ev(e.left)
        out = None
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r)
            c = self.compare(type(op).__name__, a, b)
            if out is None:
                out = c
            else:
                ta, tb = self.truth(out), self.truth(c)
                out = Num(ta * tb, 'b')
            a = b
        return out

    def compare(self, op, a, b):
        if isinstance(a, Choice):
            return self.split(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Choice):
            return self.split(b, lambda x: self.compare(op, a, x))
        return self.np.compare(self, op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Choice):
            return self.split(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Choice):
            return self.split(b, lambda x: self.binop(op, a, x))
        return self.np.binop(self, op, a, b)

    def truth(self, v):
        if isinstance(v, Num):
            return v.p if v.k == 'b' else truth(v.p)
        if v is None:
            return ZERO
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, (tuple,)):
            return ONE if v else ZERO
        if isinstance(v, PyList):
            n = seq_len(v.items)
            return truth(n) if not n.is_const() else (ONE if n.const() else ZERO)
        if isinstance(v, PyDict):
            return ONE if v.items else ZERO
        if isinstance(v, Arr):
            if all(d == ONE for d in v.shape):
                p = v.get((ZERO,) * len(v.shape))
                return p if v.kind == 'b' else truth(p)
            raise PyRaise('ValueError', 'truth value of an array is ambiguous')
        if isinstance(v, Choice):
            out = ZERO
            for g, x in v.alts:
                if isinstance(x, Unbound):
                    continue
                out = out + g * self.truth(x)
            return out
        if isinstance(v, (FuncV, Builtin, ModV, TypeV)):
            return ONE
        if isinstance(v, Opq):
            return Poly.of(atom('truth', self.np.canon(v), boolean=True))
        raise Undecided('truth of %s' % type(v).__name__)

    def ex_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def getattr(self, o, name):
        if isinstance(o, Choice):
            return self.split(o, lambda x: self.getattr(x, name))
        if isinstance(o, ModV):
            if o.name.split('.')[0] == self.pkg:
                m = self.load(o.name)
                if name in m.globals:
                    return m.globals[name]
                try:
                    self.load(o.name + '.' + name)
                    return ModV(o.name + '.' + name)
                except PyRaise:
                    raise PyRaise('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
            return self.np.mod_attr(self, o.name, name)
        return self.np.get_attr(self, o, name)

    def ex_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.ev_index(e.slice))

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x) for x in s.elts)
        return self.ev(s)

    def ex_Slice(self, s):
        return self.ev_index(s)

    def getitem(self, o, k):
        if isinstance(o, Choice):
            return self.split(o, lambda x: self.getitem(x, k))
        if isinstance(k, Choice):
            return self.split(k, lambda x: self.getitem(o, x))
        return self.np.getitem(self, o, k)

    def ex_Starred(self, e):
        raise Undecided('starred')

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                spec = self.ev(v.format_spec) if v.format_spec is not None else ''
                parts.append(self.np.fmt_val(self, x, spec, chr(v.conversion) if v.conversion > 0 else None))
        return self.np.strcat(self, parts)

    def ex_Lambda(self, e):
        fr = self.frames[-1]
        node = ast.FunctionDef(name='<lambda>', args=e.args,
                               body=[ast.copy_location(ast.Return(value=e.body), e)],
                               decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        defaults = [self.ev(d) for d in e.args.defaults]
        return FuncV(node, fr.module, fr if fr.func else None, '<lambda>', defaults, {},
                     (fr.func.qual if fr.func else fr.module.name) + '.<lambda>')

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def ex_ListComp(self, e):
        return self.comp(e, lambda: self.ev(e.elt))

    def ex_GeneratorExp(self, e):
        return IterV(self.comp(e, lambda: self.ev(e.elt)))

    def ex_SetComp(self, e):
        return self.np.to_set(self, self.comp(e, lambda: self.ev(e.elt)))

    def ex_DictComp(self, e):
        l = self.comp(e, lambda: (self.ev(e.key), self.ev(e.value)))
        if not l.concrete():
            d = ready(PyDict())
            map_fill(self, d, l.items)
            return d
        d = PyDict()
        for k, v in l.items:
            self.np.dict_set(self, d, k, v)
        return d

    def comp(self, e, elt):
        """Comprehensions are loops appending to a list."""
        fr = self.frames[-1]
        out = PyList()

        class N:
            pass

        def level(d):
            if d == len(e.generators):
                v = elt()
                M.heap[out] = M.heap[out] + (v,)
                return [], True
            g = e.generators[d]
            it = self.ev(g.iter)

            def inside():
                def conds(i):
                    if i == len(g.ifs):
                        return level(d + 1)
                    c = self.truth(self.ev(g.ifs[i]))
                    if c.is_const():
                        return conds(i + 1) if c.const() else ([], True)
                    return self.branch(c, lambda: conds(i + 1), lambda: ([], True))
                return conds(0)
            def run(it):
                if isinstance(it, Choice):
                    c, v = it.alts[0]
                    if len(it.alts) == 1:
                        return run(v)
                    return self.branch(c, lambda: run(v), lambda: run(Choice(it.alts[1:])))
                return self.run_segs(self.np.iterate(self, it), g.target, inside)
            return run(it)
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {k: fr.locals[k] for k in names if k in fr.locals}
        ex, alive = level(0)
        for f in ex:
            if f.status == 'raise':
                raise f.val
        fr = self.frames[-1]
        for k in names:
            fr.locals.pop(k, None)
        fr.locals.update(saved)
        return out

    def run_segs(self, segs, target, inside):
        exits = []
        for seg in segs:
            if seg[0] == 'v':
                self.assign(target, seg[1])
                ex, alive = inside()
            elif seg[0] == 'if':
                ex, alive = self.branch(seg[1], lambda: self.run_segs(seg[2], target, inside),
                                        lambda: ([], True))
            else:
                t, n, fn_, gfn = seg
                if t == 'nest':
                    ex, alive = self.sym_loop(n, lambda i: self.run_segs(fn_(i), target, inside))
                    exits += ex
                    if not alive:
                        return exits, False
                    continue

                def body(i):
                    v = fn_(i)
                    if gfn is not None:
                        g = gfn(i)
                        if g != ONE:
                            def inner():
                                self.assign(target, v)
                                return inside()
                            return self.branch(g, inner, lambda: ([], True))
                    self.assign(target, v)
                    return inside()
                ex, alive = self.sym_loop(n, body)
            exits += ex
            if not alive:
                return exits, False
        return exits, True

    # ---------------------------------------------------------------- calls
    def ex_Call(self, e):
        f = self.ev(e.func)
        args = self.ev_star(e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, PyDict):
                    for kk, vv in d.items.items():
                        kw[kk[1] if isinstance(kk, tuple) else kk] = vv
                else:
                    raise Undecided('**kwargs')
            else:
                kw[k.arg] = self.ev(k.value)
        self.node = e
        self.call_sites += 1
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Choice):
            return self.split(f, lambda x: self.call(x, args, kw))
        if isinstance(f, FuncV):
            h = self.stubs.get(f.qual)
            if h is not None:
                b = self.bind_args(f, args, kw)
                return h(self, b)
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            if f.name not in LAZY:
                args = [consume(self, x, f.name in ('any', 'all')) if isinstance(x, IterV) else x for x in args]
            try:
                return f.fn(self, *args, **kw)
            except TypeError as ex:
                if 'argument' in str(ex) and ('unexpected keyword' in str(ex) or 'positional' in str(ex)
                                              or 'multiple values' in str(ex)):
                    if getattr(f.fn, 'exact', False):
                        raise PyRaise('TypeError', '%s() %s' % (f.name, str(ex).split(')', 1)[-1].strip()))
                    raise Undecided('call of %s: %s' % (f.name, ex))
                raise
        if isinstance(f, TypeV):
            args = [consume(self, x) if isinstance(x, IterV) else x for x in args]
            return self.np.call_type(self, f, args, kw)
        if isinstance(f, Opq):
            return self.np.call_opaque(self, f, args, kw)
        if isinstance(f, (Num, str, tuple, PyList, PyDict, Arr)) or f is None:
            raise PyRaise('TypeError', 'object is not callable')
        raise Undecided('call of %s' % type(f).__name__)

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        b = {}
        kw = dict(kw)
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError', '%s() takes %d positional arguments but %d were given' % (
                    f.name, len(names), len(args)))
            b[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            b[a.vararg.arg] = ()
        for n, v in zip(names, args):
            b[n] = v
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in b:
                    raise PyRaise('TypeError', '%s() got multiple values for argument %r' % (f.name, k))
                b[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                raise PyRaise('TypeError', '%s() got an unexpected keyword argument %r' % (f.name, list(kw)[0]))
            d = PyDict()
            for k, v in kw.items():
                M.heap[d][('s', k)] = v
            b[a.kwarg.arg] = d
        elif a.kwarg is not None:
            b[a.kwarg.arg] = PyDict()
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:] if nd else [], f.defaults):
            b.setdefault(n, d)
        for k, d in f.kwdefaults.items():
            b.setdefault(k, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in b:
                raise PyRaise('TypeError', '%s() missing required argument %r' % (f.name, n))
        return b

    def call_func(self, f, args, kw):
        b = self.bind_args(f, args, kw)
        if len(self.frames) > 40:
            raise Undecided('recursion')
        if f.cached:
            k = tuple(sorted((n, self.hashed(v)) for n, v in b.items()))
            if all(x is not None for _, x in k) and self.pc == ONE:
                v = self.cache.get((f.qual, k))
                if v is None or any(a.store not in M.heap for a in arrays_of(v)):
                    v = self.cache[f.qual, k] = self.run_func(f, b)
                return v
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
            return self.call_generator(f, b)
        return self.run_func(f, b)

    def hashed(self, v):
        """Key of a value in the table of a memoised function."""
        if isinstance(v, (Arr, PyList, PyDict)):
            raise PyRaise('TypeError', 'unhashable type')
        k = skey(v)
        return None if k is None else repr(k)

    def call_generator(self, f, b):
        """A generator is analysed as the list of what it yields."""
        out = PyList()
        self.run_func(f, b, out)
        return IterV(out)

    def ex_Yield(self, e):
        out = self.frames[-1].locals.get('%yield')
        v = self.ev(e.value) if e.value is not None else None
        M.heap[out] = M.heap[out] + (v,)
        return None

    def ex_YieldFrom(self, e):
        out = self.frames[-1].locals.get('%yield')
        v = self.ev(e.value)
        self.list_extend(out, v)
        return None

    def run_func(self, f, b, yield_to=None):
        if f.module.name != 'sa.prelude':
            self.analysed.add(f.qual)
        saved = (self.pc, self.asm, self.base)
        self.base = capmul(self.base * self.pc, self.asm)
        self.pc = ONE
        self.asm = ONE
        fr = Frame(f, f.module, f.env)
        fr.locals = dict(b)
        if yield_to is not None:
            fr.locals['%yield'] = yield_to
        nf = len(self.frames)
        node = self.node
        self.frames.append(fr)
        try:
            exits, alive = self.exec_block(f.node.body)
            rets = [x for x in exits if x.status == 'ret']
            rs = [x for x in exits if x.status == 'raise']
            if alive:
                rets.append(self.leave('ret', None))
            if not rets:
                for r in rs[:-1]:
                    self.record_raise(r)
                e = rs[-1].val
                raise e
            v = self.merge_flows(rets)
            for r in rs:
                self.record_raise(r)
            asm = self.asm
        finally:
            del self.frames[nf:]
            self.pc, self.asm, self.base = saved
            self.node = node
        self.asm = asm_and(self.asm, asm)
        return v

    def record_raise(self, r):
        x = Flow('raise', capmul(self.base * r.pc, r.asm), None, dict(self.frames[-1].locals),
                 r.heap, r.val, r.node)
        x.asm = (r.pc, len(self.frames))
        self.raises.append(x)

    def list_extend(self, l, v):
        items = self.np.to_items(self, v)
        M.heap[l] = M.heap[l] + tuple(items)

    # ------------------------------------------------------------ top level
    def analyse(self, qual, *args, **kw):
        """Analyse a function in the given abstract context."""
        f = self.func(qual) if isinstance(qual, str) else qual
        self.frames = [Frame(None, self.load(self.pkg + '.femutil') if False else _TOP, None)]
        self.pc = self.asm = self.base = ONE
        self.raises = []
        n0 = len(M.heap[self.effects])
        r = Result()
        heap0 = dict(M.heap)
        try:
            r.value = self.call(f, list(args), kw)
        except PyRaise as e:
            r.error = e
        r.raises = [(x.pc, x.val) for x in self.raises]
        if r.error is not None:
            r.raises.append((ONE, r.error))
        r.effects = M.heap[self.effects][n0:]
        r.asm = self.asm
        r.heap0 = heap0
        return r


class _Top:
    name = '<top>'
    globals = {}
    path = ''


_TOP = _Top()


class Result:
    def __init__(self):
        self.value = None
        self.error = None
        self.raises = []
        self.effects = ()
        self.asm = ONE
        self.heap0 = {}


# ------------------------------------------------------------------- loops
_tok = [0]


def has_pre(p, tok=None):
    for a in T.pdeps(p):
        if a.head == 'pre' and (tok is None or a.args[0] == tok or (isinstance(a.args[0], tuple) and a.args[0][0] == tok)):
            return True
    return False


def join_writes(ws):
    """The same value written in several branches is one write."""
    out = []
    for w in ws:
        v = out[-1] if out else None
        if v is not None and v.bvs == w.bvs and v.mode == w.mode and v.idx == w.idx and v.val == w.val:
            both = v.guard * w.guard
            if w.mode == 'set' or not both.t:
                out[-1] = WChain(v.parent, v.bvs, v.guard + w.guard - both, v.idx, v.val, v.mode)
                continue
        out.append(w)
    return out


class LoopSummary:
    def __init__(self, I, n, body):
        self.I = I
        self.n = n
        self.body = body
        _tok[0] += 1
        self.tok = _tok[0]
        self.kinds = {}

    def lpre_atom(self, k, kind):
        return atom('pre', (self.tok, 'L' + k, kind), (), integer=kind in 'ib', boolean=kind == 'b')

    # a local which is a tuple is taken apart: every component is a local of its own while the loop is summarised
    def parts(self, k, v, out):
        if isinstance(v, tuple):
            for j, x in enumerate(v):
                self.parts('%s.%d' % (k, j), x, out)
        else:
            out[k] = v
        return out

    def join(self, k, like, loc):
        if isinstance(like, tuple):
            return tuple(self.join('%s.%d' % (k, j), x, loc) for j, x in enumerate(like))
        return loc[k]

    def apart(self, ks):
        I = self.I
        inner = self.body
        like = {k: I.frames[-1].locals[k] for k in ks}
        mark = Opq('stale', 'tuple')
        lists = {}
        for k in ks:
            if isinstance(like[k], PyList):
                lists[k] = I.frames[-1].locals[k] = PyList(M.heap[like[k]])
                continue
            I.frames[-1].locals.update(self.parts(k, like[k], {}))
            I.frames[-1].locals[k] = mark

        def body(i):
            loc = I.frames[-1].locals
            for k in ks:
                if k not in lists:
                    loc[k] = self.join(k, like[k], loc)
            ex, alive = inner(i)
            if any(f.status in ('brk', 'ret') for f in ex):
                raise Undecided('tuple carried by a loop that may be left early')
            if alive:
                loc = I.frames[-1].locals
                for k, own in lists.items():
                    v = loc[k]
                    if v is own:
                        continue
                    if not isinstance(v, PyList) or any(x is own for x in loc.values()) or any(
                            isinstance(c, tuple) and r is not v and any(x is own for q in c if not isinstance(q, (PreSeg, UnkSeg))
                                for x in (q.kids if isinstance(q, (Gen, Guarded)) else (q,)))
                            for r, c in M.heap.items()):
                        raise Undecided('list rebound in a loop')
                    M.heap[own] = M.heap[v]
                    loc[k] = own
                for k in ks:
                    if k in lists:
                        continue
                    new = self.parts(k, loc[k], {})
                    if set(new) != set(self.parts(k, like[k], {})):
                        raise Undecided('tuple of changing size in a loop')
                    loc.update(new)
                    loc[k] = mark
            return ex, alive
        self.body = body

        def back():
            loc = I.frames[-1].locals
            for k in ks:
                if k in lists:
                    continue
                v = self.join(k, like[k], loc)
                for x in self.parts(k, like[k], {}):
                    del loc[x]
                loc[k] = v
        return back

    def run(self):
        I = self.I
        self.back = lambda: None
        r = self.run_loop()
        if r is None:
            # once more, with the tuples in parts
            ks = self.tuples
            self.back = self.apart(sorted(ks))
            self.tuples = None
            r = self.run_loop()
            self.back()
        return r

    tuples = ()

    def run_loop(self):
        I = self.I
        s0 = I.capture()
        self.s0 = s0
        nr = len(I.raises)
        i = fresh('i', hi=self.n)
        self.i = i
        # pass 0: what does the body modify
        mod_loc, mod_ref = set(), set()
        for rnd in range(4):
            I.restore(s0)
            self.place(mod_loc, mod_ref)
            del I.raises[nr:]
            start_l = dict(I.frames[-1].locals)
            start_h = dict(M.heap)
            M.depth_token += 1
            ex, alive = self.body(Poly.of(i))
            bad = [f for f in ex if f.status in ('brk', 'ret')]
            if not alive and not bad:
                # every iteration raises
                I.restore(s0)
                c = lt(ZERO, self.n)
                e = [f for f in ex if f.status == 'raise']
                if e:
                    if c == ONE:
                        raise e[0].val
                    I.cond_raise(c, e[0].val.etype, e[0].val.msg)
                    return [], True
                raise Undecided('loop body never completes')
            l2 = {k for k, v in I.frames[-1].locals.items()
                  if k in start_l and v is not start_l[k] and not self.eqv(v, start_l[k])}
            r2 = {r for r, c in M.heap.items() if r in start_h and c is not start_h[r]
                  and not self.eqc(c, start_h[r])}
            if self.tuples is not None and rnd == 0:
                ks = {k for k in l2 if isinstance(s0[0].get(k), tuple) and s0[0][k] != ()
                      and isinstance(I.frames[-1].locals[k], tuple)
                      or isinstance(s0[0].get(k), PyList) and isinstance(I.frames[-1].locals[k], PyList)}
                if ks and alive:
                    self.tuples = ks
                    I.restore(s0)
                    del I.raises[nr:]
                    return None
            kinds = {}
            for k in l2 | mod_loc:
                v, v0 = I.frames[-1].locals.get(k), s0[0].get(k)
                if isinstance(v, Num) and isinstance(v0, Num):
                    kinds[k] = jk(v.k, v0.k, self.kinds.get(k, v0.k))
            if l2 <= mod_loc and r2 <= mod_ref and all(self.kinds.get(k, s0[0][k].k) == x for k, x in kinds.items()):
                break
            self.kinds.update(kinds)
            mod_loc |= l2
            mod_ref |= r2
        else:
            raise Undecided('loop effects do not stabilise')
        if bad and not alive:
            # the loop always leaves in its first iteration
            raise Undecided('loop leaves unconditionally')
        self.mod_loc, self.mod_ref = mod_loc, mod_ref
        self.collect()
        self.flag_adds()
        self.solve()
        # pass 2..: run again with the known prefix values
        ok = False
        for rnd in range(4):
            I.restore(s0)
            self.place_prefix()
            del I.raises[nr:]
            ex, alive = self.body(Poly.of(i))
            keep = {k: v for k, v in self.prefix.items() if k not in self.unsolved}
            self.collect()
            self.solve()
            # the recurrences solved on the placeholders stay as they are
            self.prefix.update({k: v for k, v in keep.items() if k in self.scal})
            self.unsolved = {k: v for k, v in self.unsolved.items() if k not in keep}
            if not self.leftover():
                ok = True
                break
        brk = [f for f in ex if f.status in ('brk', 'ret')]
        raises = [f for f in ex if f.status == 'raise']
        # raises recorded inside callees are relative to the generic iteration
        rec = I.raises[nr:]
        del I.raises[nr:]
        fr_now = dict(I.frames[-1].locals)
        heap_now = dict(M.heap)
        I.restore(s0)
        self.finish(fr_now, heap_now)
        for f in rec:
            g = exists([i], f.pc) if i in f.pc.fv else f.pc * lt(ZERO, self.n)
            f.pc = g
            I.raises.append(f)
        for f in raises:
            g = exists([i], f.pc) if i in f.pc.fv else f.pc * lt(ZERO, self.n)
            f.pc = g
            f.asm = s0[3]
            x = Flow('raise', I.base * g, None, dict(I.frames[-1].locals), f.heap, f.val, f.node)
            x.asm = (g, len(I.frames))
            I.raises.append(x)
        if brk:
            return self.leave_early(brk, s0)
        return [], True

    def leave_early(self, brk, s0):
        I = self.I
        i = self.i
        end = (dict(I.frames[-1].locals), dict(M.heap), I.pc, I.asm)
        g = ZERO
        for f in brk:
            if has_pre(f.pc):
                raise Undecided('loop exit depends on earlier iterations')
            g = g + f.pc
        g0 = s0[2]
        E = exists([i], g)
        first = nth(i, g, ZERO)
        out = []
        mp = {i: first}
        for f in brk:
            loc = dict(end[0])
            for k, v in f.locals.items():
                if k in s0[0] and s0[0][k] is v:
                    loc[k] = v
                else:
                    loc[k] = self.subst_val(v, mp)
            heap = dict(s0[1])
            for r, c in f.heap.items():
                if r in s0[1] and s0[1][r] is not c:
                    if r in self.mod_ref:
                        raise Undecided('loop with effects that may be left early')
                if r not in s0[1]:
                    heap[r] = c
            c = subst(f.pc, mp) if len(brk) > 1 else ONE
            fl = Flow(f.status, E * c * g0, s0[3], loc, heap, None, f.node)
            if f.status == 'ret':
                save = M.heap
                M.heap = heap
                fl.val = self.subst_val(f.val, mp)
                M.heap = save
            out.append(fl)
        I.install(end[0], end[1], s0[2] * (ONE - E), end[3])
        return out, True

    # .............................................................
    def eqv(self, a, b):
        if isinstance(a, Num) and isinstance(b, Num):
            return a.p == b.p and a.k == b.k
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        return False

    def eqc(self, a, b):
        if isinstance(a, Dense) and isinstance(b, Dense):
            return a.cells == b.cells
        return False

    def place(self, mod_loc, mod_ref):
        """Install placeholders for everything the loop may modify."""
        I = self.I
        loc = I.frames[-1].locals
        self.lpre, self.rpre = {}, {}
        for k in mod_loc:
            v = loc.get(k)
            if isinstance(v, Num):
                kind = self.kinds.get(k, v.k)
                p = Poly.of(self.lpre_atom(k, kind))
                loc[k] = Num(p, kind)
                self.lpre[k] = loc[k]
            elif isinstance(v, Arr):
                st = Store(v.kind, None)
                if v.ishape() is not None and small(v.shape) is not None:
                    ish = v.ishape()
                    cells = {ix: Poly.of(atom('pre', (self.tok, 'A' + k), tuple(P(j) for j in ix),
                                              integer=v.kind in 'ib')) for ix in all_idx(ish)}
                    M.heap[st] = Dense(cells, ish)
                else:
                    M.heap[st] = PreC((self.tok, 'A' + k), v.kind)
                a = Arr(st, v.shape)
                loc[k] = a
                self.lpre[k] = a
            elif isinstance(v, PyList) and False:
                pass
            else:
                # other values: they must not be read before being assigned
                loc[k] = Opq('stale', k)
                self.lpre[k] = None
        for r in mod_ref:
            c = M.heap[r]
            if isinstance(r, Store):
                if isinstance(c, Dense):
                    cells = {ix: Poly.of(atom('pre', (self.tok, 'R%d' % r.id), tuple(P(j) for j in ix),
                                              integer=r.kind in 'ib')) for ix in c.cells}
                    M.heap[r] = Dense(cells, c.shape)
                else:
                    M.heap[r] = PreC((self.tok, 'R%d' % r.id), r.kind)
            elif isinstance(c, tuple):
                if not any(isinstance(x, (Gen, Guarded, PreSeg, UnkSeg)) for x in c) and r is not I.effects \
                        and isinstance(r, PyList) and self.inplace.get(r):
                    raise Undecided('list modified in place in a loop')
                M.heap[r] = (PreSeg((self.tok, 'R%d' % r.id)),)
            elif isinstance(c, dict):
                d = {}
                for kk, vv in c.items():
                    if isinstance(vv, Num):
                        d[kk] = Num(Poly.of(atom('pre', (self.tok, 'D%d.%s' % (r.id, kk)), (),
                                                 integer=vv.k in 'ib')), vv.k)
                    else:
                        d[kk] = vv
                M.heap[r] = d
            self.rpre[r] = M.heap[r]

    inplace = {}

    def collect(self):
        """Read off the effect of one generic iteration."""
        I = self.I
        self.scal = {}        # key -> [pre atom, new, init, kind]
        self.writes = {}      # ref -> list of WChain (oldest first) | None
        self.appends = {}
        self.bad = {}
        loc = I.frames[-1].locals
        for k in self.mod_loc:
            v = loc.get(k)
            init = self.s0[0].get(k)
            if isinstance(init, Num) and isinstance(v, Num):
                a = self.lpre_atom(k, self.kinds.get(k, init.k))
                self.scal['L' + k] = [a, v.p, init.p, jk(v.k, init.k)]
            elif isinstance(init, Arr) and isinstance(v, Arr) and len(init.shape) == len(v.shape):
                ish = init.ishape()
                if ish is not None and small(init.shape) is not None and v.ishape() == ish:
                    for ix in all_idx(ish):
                        ii = tuple(P(j) for j in ix)
                        a = atom('pre', (self.tok, 'A' + k), ii, integer=init.kind in 'ib')
                        self.scal[('A' + k, ix)] = [a, v.get(ii), read_in(init, self.s0[1], ii), jk(v.kind, init.kind)]
                else:
                    self.bad['A' + k] = (init, v)
            else:
                pass
        for r in self.mod_ref:
            c = M.heap[r]
            c0 = self.s0[1][r]
            if isinstance(r, Store) and isinstance(c0, Dense):
                if not isinstance(c, Dense):
                    raise Undecided('array content')
                for ix, v in c.cells.items():
                    ii = tuple(P(j) for j in ix)
                    a = atom('pre', (self.tok, 'R%d' % r.id), ii, integer=r.kind in 'ib')
                    self.scal[(r, ix)] = [a, v, c0.cells[ix], r.kind]
            elif isinstance(r, Store):
                ws = []
                x = c
                while isinstance(x, WChain) and x is not self.rpre.get(r):
                    ws.append(x)
                    x = x.parent
                if x is not self.rpre.get(r):
                    raise Undecided('array content in a loop')
                ws.reverse()
                self.writes[r] = join_writes(ws)
            elif isinstance(c, tuple):
                p0 = self.rpre[r]
                np_ = len(p0)
                if len(c) >= np_ and all(x is y for x, y in zip(c[:np_], p0)):
                    self.appends[r] = c[np_:]
                    self.heap_rec = dict(M.heap)
                else:
                    raise Undecided('list modified in a loop')
            elif isinstance(c, dict):
                if set(c) != set(c0):
                    raise Undecided('dictionary filled in a loop')
                for kk, vv in c.items():
                    if isinstance(vv, Num) and isinstance(c0[kk], Num):
                        a = atom('pre', (self.tok, 'D%d.%s' % (r.id, kk)), (), integer=c0[kk].k in 'ib')
                        self.scal[('D', r, kk)] = [a, vv.p, c0[kk].p, jk(vv.k, c0[kk].k)]
                    elif vv is not c0[kk]:
                        raise Undecided('dictionary filled in a loop')

    def solve(self):
        """Prefix value of each loop-carried scalar at iteration i."""
        i = self.i
        self.prefix = {}
        todo = dict(self.scal)
        known = {}
        for _ in range(len(todo) + 1):
            progress = False
            for k, (a, new, init, kind) in list(todo.items()):
                nw = subst(new, known) if known else new
                r = self.recur(a, nw, init)
                if r is not None:
                    self.prefix[k] = r          # function of an index poly
                    known[a] = r(Poly.of(i))
                    del todo[k]
                    progress = True
            if not todo or not progress:
                break
        self.unsolved = todo
        for k, (a, new, init, kind) in todo.items():
            why = 'loop-carried value'
            self.prefix[k] = lambda x, why=why: unknown(why)

    def recur(self, a, new, init):
        i = self.i
        ip = Poly.of(i)
        if new == Poly.of(a):
            return lambda x: init
        if a not in T.pdeps(new):
            if has_pre(new, self.tok):
                return None

            def over(x):
                c = lt(ZERO, x)
                if c.t and new.is_const() and new == init:
                    return init
                v = subst(new, {i: x - 1}) if i in new.fv else new
                if not c.t:
                    return init
                return ite(c, v, init)
            return over
        # linear in a: new = A*a + B
        A, B = {}, {}
        for m, c in new.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            if any(a in T.deps(x) for x in d):
                return None
            if e == 0:
                B[m] = c
            elif e == 1:
                A[tuple(sorted(d.items(), key=T._mk))] = c
            else:
                return None
        A, B = Poly(A), Poly(B)
        if has_pre(A, self.tok) or has_pre(B, self.tok):
            return None
        if A == ONE:
            def acc(x):
                j = fresh('j', hi=x)
                return init + mk_sum([j], subst(B, {i: Poly.of(j)}))
            return acc
        if is_bool01(A):
            g = ONE - A            # overwritten when g

            def lastv(x):
                j = fresh('j', hi=x)
                gj = subst(g, {i: Poly.of(j)})
                e = exists([j], gj)
                # B = g*h
                h = self.quotient(B, g)
                if h is None:
                    if same(B * A, ZERO) is False:
                        return unknown('loop-carried value')
                    h = B
                if i not in h.fv:
                    return e * h + (ONE - e) * init
                hj = subst(h, {i: Poly.of(j)})
                return e * binder('last', [j], gj, hj) + (ONE - e) * init
            if not (B * A).t:
                return lastv
        if A.is_const() and not B.t and A.const() > 0:
            return lambda x: init * fn('pow', A, x)
        return None

    def quotient(self, B, g):
        """h with B == g*h for a boolean g (B vanishing when g is false)."""
        if not B.t:
            return ZERO
        if g == B:
            return ONE
        gm = g.single()
        if gm and gm[0] == 1:
            gs = dict(gm[1])
            out = {}
            for m, c in B.t.items():
                d = dict(m)
                for x in gs:
                    if x not in d:
                        return None
                    d.pop(x)
                out[tuple(sorted(d.items(), key=T._mk))] = c
            return Poly(out)
        return None

    def place_prefix(self):
        """Install, as state at iteration i, the solved prefix values."""
        I = self.I
        ip = Poly.of(self.i)
        loc = I.frames[-1].locals
        self.rpre = {}
        arrs = {}
        dense = {}
        dicts = {}
        for k, f in self.prefix.items():
            # what is not solved yet stays a placeholder
            v = Poly.of(self.scal[k][0]) if k in self.unsolved else f(ip)
            if k[0] == 'L' and isinstance(k, str):
                loc[k[1:]] = Num(v, self.scal[k][3])
            elif isinstance(k, tuple) and isinstance(k[0], str) and k[0] == 'D':
                dicts.setdefault(k[1], {})[k[2]] = Num(v, self.scal[k][3])
            elif isinstance(k, tuple) and isinstance(k[0], str):
                arrs.setdefault(k[0][1:], {})[k[1]] = v
            else:
                dense.setdefault(k[0], {})[k[1]] = v
        for name, cells in arrs.items():
            init = self.s0[0][name]
            loc[name] = Arr(Store(init.kind, Dense(cells, init.ishape())), init.shape)
        for name in self.mod_loc:
            v = self.s0[0].get(name)
            if isinstance(v, Num) or name in arrs:
                continue
            loc[name] = Opq('stale', name)
        for r, cells in dense.items():
            M.heap[r] = Dense(cells, self.s0[1][r].shape)
        for r, d in dicts.items():
            n = dict(self.s0[1][r])
            n.update(d)
            M.heap[r] = n
        for r in self.mod_ref:
            c0 = self.s0[1][r]
            if r in self.writes:
                M.heap[r] = self.chain(r, c0, Poly.of(self.i), solved=True)
            elif r in self.appends:
                j = fresh('j', hi=ip)
                save = M.heap
                M.heap = {**self.heap_rec, **M.heap}
                kids = self.subst_items(self.appends[r], {self.i: Poly.of(j)})
                for rr in M.heap:
                    if rr not in save:
                        save[rr] = M.heap[rr]
                M.heap = save
                if kids is not None and not self.items_pre(kids):
                    M.heap[r] = c0 + (Gen(j, ONE, kids),)
                else:
                    M.heap[r] = (PreSeg((self.tok, 'R%d' % r.id)),)
            self.rpre[r] = M.heap[r]

    def items_pre(self, items):
        for x in items:
            if isinstance(x, Gen):
                if has_pre(x.guard, self.tok) or self.items_pre(x.kids):
                    return True
            elif isinstance(x, Guarded):
                if has_pre(x.guard, self.tok) or self.items_pre(x.kids):
                    return True
            elif isinstance(x, Num) and has_pre(x.p, self.tok):
                return True
            elif isinstance(x, tuple) and self.items_pre(x):
                return True
            elif isinstance(x, dict) and self.items_pre(x.values()):
                return True
            elif isinstance(x, Opq) and self.items_pre(x.parts):
                return True
        return False

    def known_map(self):
        ip = Poly.of(self.i)
        return {v[0]: self.prefix[k](ip) for k, v in self.scal.items() if k in self.prefix}

    def chain(self, r, c0, hi, solved=False):
        """Content after the iterations < hi of this loop."""
        ws = self.writes[r]
        if not ws:
            return c0
        i = self.i
        out = c0
        ws = self.norm_writes(r)
        if not self.order_free(ws):
            return UnkC('writes of different iterations overlap')
        for w in ws:
            j = fresh('j', hi=hi)
            mp = {i: Poly.of(j)}
            if solved:
                for x in self.unsolved.values():
                    mp[x[0]] = unknown('loop-carried value')
            bvs = [j]
            for b in w.bvs:
                if i in b.hi.fv:
                    nb = fresh('b', hi=subst(b.hi, mp))
                    mp[b] = Poly.of(nb)
                    bvs.append(nb)
                else:
                    bvs.append(b)
            out = WChain(out, bvs, subst(w.guard, mp), tuple(subst(x, mp) for x in w.idx),
                         subst(w.val, mp), w.mode)
        return out

    def flag_adds(self):
        """A[x] = A[x] + v is an accumulation (decided on placeholders)."""
        self.addflag = set()
        for r, ws in self.writes.items():
            for k, w in enumerate(ws):
                if w.mode == 'add' or self.mentions(w.guard, r):
                    continue
                if w.bvs and not pinned(w.bvs, w.idx):
                    continue
                x = read(w.parent, w.idx)
                if not self.mentions(x, r):
                    continue
                d = w.val - x
                if not self.mentions(d, r) and not any(self.mentions(y, r) for y in w.idx):
                    self.addflag.add((r, k))

    def norm_writes(self, r):
        out = []
        for k, w in enumerate(self.writes[r]):
            if w.mode == 'set' and (r, k) in self.addflag:
                out.append(WChain(w.parent, w.bvs, w.guard, w.idx, w.val - read(w.parent, w.idx), 'add'))
            else:
                out.append(w)
        return out

    def mentions(self, p, r):
        key = (self.tok, 'R%d' % r.id)
        return any(a.head == 'pre' and a.args[0] == key for a in T.pdeps(p))

    def order_free(self, ws):
        """Does the order of the iterations not matter between writes?"""
        if len(ws) == 1 or all(w.mode == 'add' for w in ws):
            return True
        i = self.i
        for x in range(len(ws)):
            for y in range(len(ws)):
                if x == y:
                    continue
                a, b = ws[x], ws[y]
                if a.mode == 'add' and b.mode == 'add':
                    continue
                j = fresh('j', hi=self.n)
                mp = {i: Poly.of(j)}
                for v in b.bvs:
                    mp[v] = Poly.of(fresh('b', hi=subst(v.hi, mp)))
                c = a.guard * subst(b.guard, mp)
                for p, q in zip(a.idx, b.idx):
                    c = c * eq(p, subst(q, mp))
                    if not c.t:
                        break
                c = c * (ONE - eq(Poly.of(i), Poly.of(j)))
                if c.t and not (a.mode == b.mode == 'set' and not (c * (a.val - subst(b.val, mp))).t):
                    return False
        return True

    def leftover(self):
        """Are there unresolved references to earlier iterations?"""
        for k, (a, new, init, kind) in self.scal.items():
            if has_pre(new, self.tok):
                return True
        for r, ws in self.writes.items():
            for w in ws:
                if has_pre(w.val, self.tok) or has_pre(w.guard, self.tok) or any(has_pre(x, self.tok) for x in w.idx):
                    return True
        return False

    def subst_items(self, items, mp):
        return tuple(self.subst_val(x, mp) for x in items)

    def subst_val(self, v, mp):
        if isinstance(v, Num):
            return Num(subst(v.p, mp), v.k)
        if isinstance(v, Gen):
            h = subst(v.bv.hi, mp)
            m2 = dict(mp)
            nb = v.bv
            if h != v.bv.hi:
                nb = fresh('g', hi=h)
                m2[v.bv] = Poly.of(nb)
            return Gen(nb, subst(v.guard, m2), tuple(self.subst_val(x, m2) for x in v.kids))
        if isinstance(v, Guarded):
            return Guarded(subst(v.guard, mp), tuple(self.subst_val(x, mp) for x in v.kids))
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, mp) for x in v)
        if isinstance(v, dict):
            return {k: self.subst_val(x, mp) for k, x in v.items()}
        if isinstance(v, Arr):
            fz = v.frozen()
            shp = tuple(subst(d, mp) for d in v.shape)
            ks = list(mp)

            def g(idx):
                # the index may mention the substituted symbols themselves
                clash = any(k in x.fv for x in idx for k in ks)
                if not clash:
                    return subst(fz.get(idx), mp)
                tmp = {}
                bk = {}
                for d, x in enumerate(idx):
                    if any(k in x.fv for k in ks):
                        t = fresh('t', hi=v.shape[d])
                        tmp[d] = Poly.of(t)
                        bk[t] = x
                r = subst(fz.get(tuple(tmp.get(d, x) for d, x in enumerate(idx))), mp)
                return subst(r, bk)
            return from_fn(shp, g, v.kind)
        if isinstance(v, PyList):
            if v in self.s0[1]:
                return v
            return PyList(self.subst_items(v.items, mp))
        if isinstance(v, PyDict):
            return v
        if isinstance(v, Choice):
            return Choice([(subst(g, mp), self.subst_val(x, mp)) for g, x in v.alts])
        if isinstance(v, Opq):
            return Opq(v.tag, *[self.subst_val(x, mp) for x in v.parts])
        if isinstance(v, Sparse):
            return Sparse(self.subst_val(v.arr, mp), v.fmt)
        if isinstance(v, Poly):
            return subst(v, mp)
        return v

    def finish(self, loc_now, heap_now):
        """State after the loop."""
        I = self.I
        n = self.n
        loc = I.frames[-1].locals
        s0l, s0h = self.s0[0], self.s0[1]
        for r, c in heap_now.items():
            if r not in M.heap:
                M.heap[r] = c
        arrs, dense, dicts = {}, {}, {}
        for k, f in self.prefix.items():
            v = f(n)
            if isinstance(k, str):
                loc[k[1:]] = Num(v, self.scal[k][3])
            elif isinstance(k[0], str) and k[0] == 'D':
                dicts.setdefault(k[1], {})[k[2]] = Num(v, self.scal[k][3])
            elif isinstance(k[0], str):
                arrs.setdefault(k[0][1:], {})[k[1]] = v
            else:
                dense.setdefault(k[0], {})[k[1]] = v
        for name, cells in arrs.items():
            init = s0l[name]
            kind = [v[3] for kk, v in self.scal.items() if isinstance(kk, tuple) and kk[0] == 'A' + name][0]
            loc[name] = Arr(Store(kind, Dense(cells, init.ishape())), init.shape)
        for r, cells in dense.items():
            M.heap[r] = Dense(cells, s0h[r].shape)
        for r, d in dicts.items():
            nn = dict(s0h[r])
            nn.update(d)
            M.heap[r] = nn
        for r in self.mod_ref:
            c0 = s0h[r]
            if r in self.writes:
                if any(has_pre(w.val, self.tok) or has_pre(w.guard, self.tok) or
                       any(has_pre(x, self.tok) for x in w.idx) for w in self.norm_writes(r)):
                    M.heap[r] = UnkC('array updated from its own earlier iterations')
                else:
                    M.heap[r] = self.chain(r, c0, n)
            elif r in self.appends:
                items = self.appends[r]
                j = fresh('e', hi=n)
                save = M.heap
                M.heap = {**heap_now, **M.heap}
                kids = tuple(self.subst_val(self.freeze_item(x, heap_now), {self.i: Poly.of(j)}) for x in items)
                for rr in M.heap:
                    if rr not in save:
                        save[rr] = M.heap[rr]
                M.heap = save
                if kids:
                    if self.items_pre(kids):
                        M.heap[r] = c0 + (UnkSeg('list filled from earlier iterations'),)
                    else:
                        M.heap[r] = c0 + (Gen(j, ONE, kids),)
                else:
                    M.heap[r] = c0
        # other locals: value of the last iteration
        c = lt(ZERO, n)
        mp = {self.i: n - 1}
        for k, v in loc_now.items():
            if k in s0l and (v is s0l[k] or self.eqv(v, s0l[k])) and k not in self.mod_loc:
                continue
            if 'L' + k in self.prefix or k in arrs or k.startswith('%'):
                continue
            if isinstance(v, Opq) and v.tag == 'stale':
                loc[k] = s0l.get(k, UNBOUND)
                continue
            try:
                nv = self.subst_val(v, mp)
            except Undecided:
                nv = Opq('loopvar', k)
            old = s0l.get(k, UNBOUND)
            if c == ONE:
                loc[k] = nv
            elif not c.t:
                if old is not UNBOUND:
                    loc[k] = old
            else:
                loc[k] = I.mix(c, nv, old)

    def freeze_item(self, x, heap_now):
        if isinstance(x, Arr) and x.store not in self.s0[1]:
            return x.frozen()
        return x


def read_in(a, heap, idx):
    save = M.heap
    M.heap = heap
    try:
        return a.get(idx)
    finally:
        M.heap = save
