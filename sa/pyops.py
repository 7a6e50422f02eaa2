"""Operators, attribute access and builtin functions."""
from .pymodel import *
from . import terms as T

OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**'}


def power(p, q):
    if q.is_const():
        c = q.const()
        if c.denominator == 1:
            n = int(c)
            if n < 0:
                return inverse(p ** (-n)) if not p.is_const() else P(1 / (p.const() ** -n))
            return p ** n
        if c == T.Fraction(1, 2):
            return sqrt(p)
        if c == T.Fraction(-1, 2):
            return inverse(sqrt(p))
        if c.denominator == 2:
            r = sqrt(p)
            return r ** int(2 * c) if c > 0 else inverse(r ** int(-2 * c))
    if p == ONE:
        return ONE
    return fn('pow', p, q)


def div(p, q):
    if q.is_const():
        if q.const() == 0:
            return fn('div0', p)
        return p * (1 / q.const())
    return p * inverse(q)


def scalar_op(op, kinds):
    """(function on polys, kind)."""
    k = jk(*kinds)
    if op == 'Add':
        if k == 'b':
            return (lambda a, b: b_or(a, b)), 'b'
        return (lambda a, b: a + b), k
    if op == 'Sub':
        return (lambda a, b: a - b), k
    if op == 'Mult':
        return (lambda a, b: a * b), k
    if op == 'Div':
        return div, 'c' if k == 'c' else 'f'
    if op == 'FloorDiv':
        return fdiv, 'i' if k == 'b' else k
    if op == 'Mod':
        return mod, 'i' if k == 'b' else k
    if op == 'Pow':
        return power, k
    if op == 'BitAnd':
        return ((lambda a, b: a * b), 'b') if k == 'b' else ((lambda a, b: fn('and', a, b, integer=True)), k)
    if op == 'BitOr':
        return (b_or, 'b') if k == 'b' else ((lambda a, b: fn('or', a, b, integer=True)), k)
    if op == 'BitXor':
        return ((lambda a, b: a + b - 2 * a * b), 'b') if k == 'b' else \
            ((lambda a, b: fn('xor', a, b, integer=True)), k)
    if op == 'LShift':
        return (lambda a, b: a * power(P(2), b)), k
    raise Undecided('operator ' + op)


def binop(I, op, a, b):
    if isinstance(a, (Seq, Rng)) or isinstance(b, (Seq, Rng)):
        if isinstance(a, Arr) or isinstance(b, Arr):
            a = toarr(a) if not isinstance(a, Num) else a
            b = toarr(b) if not isinstance(b, Num) else b
        else:
            raise PyRaise('TypeError', 'unsupported operand type(s) for %s' % OPS.get(op, op))
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        return sparse_op(I, op, a, b)
    if op == 'MatMult':
        from .npfun import np_matmul
        return np_matmul(I, a, b)
    if isinstance(a, Num) and isinstance(b, Num):
        f, k = scalar_op(op, (a.k, b.k))
        if op in ('Div', 'FloorDiv', 'Mod') and b.p.is_const() and b.p.const() == 0:
            raise PyRaise('ZeroDivisionError', 'division by zero')
        if op in ('Add', 'Sub', 'Mult') and a.k == 'b' and b.k == 'b':
            f, k = scalar_op(op, ('i', 'i'))
        if op == 'Pow' and k in 'bi':
            k = 'i'
            if b.p.is_const() and b.p.const() < 0:
                k = 'f'
        return Num(f(a.p, b.p), k)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq('op' + op, freeze(a), freeze(b))
        if isinstance(a, (str, PyDict, PySet)) or isinstance(b, (str, PyDict, PySet)) or a is None or b is None:
            raise PyRaise('TypeError', 'unsupported operand type(s) for %s' % OPS.get(op, op))
        x = a if isinstance(a, Num) else toarr(a)
        y = b if isinstance(b, Num) else toarr(b)
        f, k = scalar_op(op, (kind(x), kind(y)))
        return ew(f, k, x, y)
    if isinstance(a, str) or isinstance(b, str):
        if op == 'Add':
            if isinstance(a, (str, Opq, SymObj)) and isinstance(b, (str, Opq, SymObj)):
                return strcat(I, [a, b])
            raise PyRaise('TypeError', 'can only concatenate str to str')
        if op == 'Mod' and isinstance(a, str):
            return fmt_percent(I, a, b)
        if op == 'Mult' and isinstance(b, Num) and b.p.as_int() is not None:
            return a * b.p.as_int()
        if op == 'Mult' and isinstance(a, Num) and a.p.as_int() is not None:
            return b * a.p.as_int()
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq('op' + op, a, b)
        raise PyRaise('TypeError', 'unsupported operand type(s) for %s' % OPS.get(op, op))
    if isinstance(a, Opq) or isinstance(b, Opq):
        if isinstance(a, Opq) and a.tag == 'strcat' or isinstance(b, Opq) and b.tag == 'strcat':
            if op == 'Add':
                return strcat(I, [a, b])
        return Opq('op' + op, freeze(a), freeze(b))
    if isinstance(a, SymObj) or isinstance(b, SymObj):
        if op == 'Div':
            return Opq('path', a, b)
        if op == 'Add':
            return strcat(I, [a, b])
        return Opq('op' + op, a, b)
    if op == 'Add':
        if isinstance(a, PyList) and isinstance(b, PyList):
            return PyList(joined(a.items, b.items))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (PyList, tuple)) and isinstance(y, Num):
                if y.k in 'fc':
                    raise PyRaise('TypeError', "can't multiply sequence by non-int")
                items = x.items if isinstance(x, PyList) else x
                n = y.p.as_int()
                if n is not None:
                    r = ()
                    for _ in range(n):
                        r = joined(r, items)
                    return PyList(r) if isinstance(x, PyList) else r
                if any(isinstance(z, (PyList, PyDict)) for z in items):
                    raise Undecided('repetition of mutable items')
                j = fresh('l', hi=y.p)
                return PyList([Gen(j, ONE, items)])
    if (isinstance(a, SymSet) or set_mapped(a)) and isinstance(b, (SymSet, PySet)) or \
            isinstance(a, PySet) and (isinstance(b, SymSet) or set_mapped(b)):
        return set_op(a, b, op)
    if isinstance(a, PySet) and isinstance(b, PySet):
        ka, kb = [dkey(x) for x in a.items], [dkey(x) for x in b.items]
        if op == 'BitOr':
            return to_set(I, PyList(a.items + b.items))
        if op == 'BitAnd':
            return PySet([x for x, k in zip(a.items, ka) if k in kb])
        if op == 'Sub':
            return PySet([x for x, k in zip(a.items, ka) if k not in kb])
        if op == 'BitXor':
            return PySet([x for x, k in zip(a.items, ka) if k not in kb] + [x for x, k in zip(b.items, kb) if k not in ka])
    if isinstance(a, PyDict) and isinstance(b, PyDict) and op == 'BitOr':
        return PyDict({**a.items, **b.items})
    if isinstance(a, TypeV) or isinstance(b, TypeV):
        return Opq('op' + op, a, b)
    if isinstance(a, SymSet) or isinstance(b, SymSet):
        raise Undecided('set operation')
    raise PyRaise('TypeError', 'unsupported operand type(s) for %s: %s and %s' % (
        OPS.get(op, op), type(a).__name__, type(b).__name__))


def sparse_op(I, op, a, b):
    from .npfun import np_matmul
    x = a.arr if isinstance(a, Sparse) else a
    y = b.arr if isinstance(b, Sparse) else b
    fmt = a.fmt if isinstance(a, Sparse) else b.fmt
    if op in ('Add', 'Sub'):
        if isinstance(a, Sparse) and isinstance(b, Sparse):
            r = binop(I, op, x, y)
            return Sparse(r, 'csr' if fmt == 'coo' else fmt)
        if isinstance(b, Num) or isinstance(a, Num):
            if (b if isinstance(b, Num) else a).p == ZERO:
                return Sparse(x if isinstance(a, Sparse) else y, fmt)
            raise PyRaise('NotImplementedError', 'adding a nonzero scalar to a sparse array is not supported')
        return binop(I, op, x, y)
    if op in ('Mult', 'Div') and (isinstance(b, Num) or isinstance(a, Num) and op == 'Mult'):
        return Sparse(binop(I, op, x, y), fmt)
    if op == 'Mult' or op == 'MatMult':
        # "*" on the matrix classes is the matrix product
        if op == 'Mult' and fmt.endswith('array'):
            return Sparse(binop(I, op, toarr(x), toarr(y)), fmt)
        r = np_matmul(I, x, y)
        if isinstance(a, Sparse) and isinstance(b, Sparse):
            return Sparse(r, 'csr')
        return r
    if op == 'Pow' and isinstance(b, Num) and fmt.endswith('array') is False:
        n = b.p.as_int()
        if n is not None and n >= 1:
            r = x
            for _ in range(n - 1):
                r = np_matmul(I, r, x)
            return Sparse(r, fmt)
    raise Undecided('sparse operator ' + op)


# ------------------------------------------------------------------ strings
def strcat(I, parts):
    flat = []
    for p in parts:
        if isinstance(p, Opq) and p.tag == 'strcat':
            flat += list(p.parts)
        elif isinstance(p, Num) and p.p.is_const() and p.k in 'ib' and False:
            flat.append(str(p.p.const()))
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != '' or not isinstance(p, str):
            out.append(p)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Opq('strcat', *[freeze(x) for x in out])


def fmt_val(I, x, spec='', conv=None):
    """One value formatted in a string."""
    if isinstance(x, Choice):
        return I.split(x, lambda y: fmt_val(I, y, spec, conv))
    if isinstance(conv, str) and conv in 'ra' and conv and not (isinstance(x, Num)):
        return Opq('repr', freeze(x), spec)
    c = None
    if isinstance(x, Num) and x.p.is_const() and x.k in 'if':
        c = x.p.const()
        c = int(c) if x.k == 'i' else float(c)
    elif isinstance(x, Num) and x.p.is_const() and x.k == 'b':
        c = bool(x.p.const())
    elif isinstance(x, str) or x is None:
        c = x
    if (c is not None or x is None) and isinstance(spec, str):
        try:
            return format(str(c) if x is None else c, spec)
        except ValueError as e:
            raise PyRaise('ValueError', str(e))
    if spec == '':
        return cast_str(x)
    return Opq('format', freeze(x), spec)


def cast_str(x):
    if isinstance(x, (Opq, SymObj)):
        return x if isinstance(x, Opq) and x.tag in ('strcat', 'path', 'fmt', 'format') else Opq('str', x)
    return Opq('str', freeze(x))


def fmt_brace(I, s, args, kw):
    import string
    parts, auto = [], 0
    try:
        fields = list(string.Formatter().parse(s))
    except ValueError as e:
        raise PyRaise('ValueError', str(e))
    for lit, name, spec, conv in fields:
        if lit:
            parts.append(lit)
        if name is None:
            continue
        if '{' in (spec or '') or '.' in name or '[' in name:
            return Opq('fmt', s, *[freeze(x) for x in args], *[(kk, freeze(v)) for kk, v in sorted(kw.items())])
        if name == '' or name.isdigit():
            k = int(name) if name else auto
            auto += 1
            if k >= len(args):
                raise PyRaise('IndexError', 'Replacement index %d out of range for positional args tuple' % k)
            v = args[k]
        elif name in kw:
            v = kw[name]
        else:
            raise PyRaise('KeyError', name)
        parts.append(fmt_val(I, v, spec or '', conv))
    return strcat(I, parts)


def fmt_percent(I, s, b):
    import re
    vals = list(b) if isinstance(b, tuple) else [b]
    if isinstance(b, (Opq, PyDict)) or '%(' in s:
        return Opq('fmt', s, freeze(b))
    parts, pos, k = [], 0, 0
    for m in re.finditer(r'%([-#0 +]*)(\d*)(\.\d+)?([a-zA-Z%])', s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        fl, wd, pr, t = m.groups()
        if t == '%':
            parts.append('%')
            continue
        if k >= len(vals):
            raise PyRaise('TypeError', 'not enough arguments for format string')
        x = vals[k]
        k += 1
        if t in 'sr' and not (fl or wd or pr):
            parts.append(fmt_val(I, x, '', 'r' if t == 'r' else None))
            continue
        if isinstance(x, str) and t not in 'srac':
            raise PyRaise('TypeError', '%%%s format: a real number is required, not str' % t)
        if t in 'di' and not (fl or wd or pr) and isinstance(x, Num) and x.k == 'i':
            parts.append(fmt_val(I, x))
        elif '-' in fl or '#' in fl:
            parts.append(Opq('format', freeze(x), m.group(0)))
        else:
            if t in 'di' and isinstance(x, Num) and x.k == 'f':
                x = call_type(I, "int", [x], {})
            parts.append(fmt_val(I, x, ('>' if t == 's' and wd else '') + fl + wd + (pr or '') + ('d' if t == 'i' else t)))
    if k < len(vals):
        raise PyRaise('TypeError', 'not all arguments converted during string formatting')
    parts.append(s[pos:])
    return strcat(I, parts)


def path_join(I, *parts):
    flat = []
    for p in parts:
        if isinstance(p, Opq) and p.tag == 'path':
            flat += list(p.parts)
        else:
            flat.append(p)
    if all(isinstance(p, str) for p in flat):
        return os.path.join(*flat)
    return Opq('path', *flat)


# --------------------------------------------------------------- comparison
CMP = {'Eq': eq, 'NotEq': lambda a, b: ONE - eq(a, b), 'Lt': lt, 'LtE': le,
       'Gt': lambda a, b: lt(b, a), 'GtE': lambda a, b: le(b, a)}


def compare(I, op, a, b):
    if op in ('Is', 'IsNot'):
        r = identical(I, a, b)
        return Num(r if op == 'Is' else ONE - r, 'b')
    if op in ('In', 'NotIn'):
        r = contains(I, b, a)
        return Num(r if op == 'In' else ONE - r, 'b')
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        raise Undecided('comparison of sparse matrices')
    if isinstance(a, Num) and isinstance(b, Num):
        return Num(CMP[op](a.p, b.p), 'b')
    if isinstance(a, Arr) or isinstance(b, Arr):
        other = b if isinstance(a, Arr) else a
        if other is None or isinstance(other, (str, Opq)):
            if op in ('Eq', 'NotEq'):
                arr = a if isinstance(a, Arr) else b
                return full(arr.shape, ZERO if op == 'Eq' else ONE, 'b')
            raise PyRaise('TypeError', 'unorderable types')
        x = a if isinstance(a, Num) else toarr(a)
        y = b if isinstance(b, Num) else toarr(b)
        r = ew(CMP[op], 'b', x, y)
        return r
    if op in ('Eq', 'NotEq'):
        r = equal(I, a, b)
        return Num(r if op == 'Eq' else ONE - r, 'b')
    if isinstance(a, tuple) and isinstance(b, tuple):
        return Num(tuple_cmp(I, op, a, b), 'b')
    if isinstance(a, str) and isinstance(b, str):
        r = {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        return Num(ONE if r else ZERO, 'b')
    if isinstance(a, (Opq, SymObj)) or isinstance(b, (Opq, SymObj)):
        return Num(Poly.of(atom('cmp' + op, canon(a), canon(b), boolean=True)), 'b')
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        raise PyRaise('TypeError', "'<' not supported between instances")
    raise Undecided('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


def tuple_cmp(I, op, a, b):
    out = ZERO
    pre = ONE
    for x, y in zip(a, b):
        out = out + pre * I.truth(compare(I, 'Lt' if op in ('Lt', 'LtE') else 'Gt', x, y))
        pre = pre * I.truth(compare(I, 'Eq', x, y))
    if op in ('Lt', 'LtE'):
        end = len(a) < len(b) if op == 'Lt' else len(a) <= len(b)
    else:
        end = len(a) > len(b) if op == 'Gt' else len(a) >= len(b)
    return out + (pre if end else ZERO)


def equal(I, a, b):
    if a is b:
        return ONE
    if isinstance(a, Num) and isinstance(b, Num):
        return eq(a.p, b.p)
    if isinstance(a, str) and isinstance(b, str):
        return ONE if a == b else ZERO
    if isinstance(a, (Opq, SymObj)) or isinstance(b, (Opq, SymObj)):
        ca, cb = canon(a), canon(b)
        if ca == cb:
            return ONE
        ks = sorted([ca, cb], key=repr)
        return Poly.of(atom('same', ks[0], ks[1], boolean=True))
    if type(a) is not type(b):
        if isinstance(a, Arr) or isinstance(b, Arr):
            raise Undecided('array equality')
        return ZERO
    if isinstance(a, tuple) or isinstance(a, PyList):
        if isinstance(a, PyList) and not (a.concrete() and b.concrete()):
            raise Undecided('equality of symbolic lists')
        ia = a if isinstance(a, tuple) else a.items
        ib = b if isinstance(b, tuple) else b.items
        if len(ia) != len(ib):
            return ZERO
        c = ONE
        for x, y in zip(ia, ib):
            c = c * I.truth(compare(I, 'Eq', x, y))
        return c
    if isinstance(a, TypeV):
        return ONE if a == b else ZERO
    if isinstance(a, FuncV):
        return ONE if a.node is b.node else ZERO
    if isinstance(a, (Builtin, ModV)):
        return ONE if a.name == b.name else ZERO
    raise Undecided('equality of %s' % type(a).__name__)


def identical(I, a, b):
    if a is b:
        return ONE
    for x, y in ((a, b), (b, a)):
        if x is None:
            if isinstance(y, Choice):
                return equal_choice_none(y)
            if isinstance(y, Opq) and y.tag.startswith('unknown'):
                raise Undecided('identity of an unknown object')
            return ZERO
    if isinstance(a, Num) and isinstance(b, Num) and a.k == 'b' and b.k == 'b':
        return eq(a.p, b.p)
    if isinstance(a, TypeV) and isinstance(b, TypeV):
        return ONE if a == b else ZERO
    if isinstance(a, (FuncV, Builtin)) and isinstance(b, (FuncV, Builtin)):
        return ONE if (isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node) or \
            (isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name) else ZERO
    if type(a) is not type(b):
        return ZERO
    if isinstance(a, Num):
        return eq(a.p, b.p)
    if isinstance(a, str):
        return ONE if a == b else ZERO
    if isinstance(a, Ref):
        return ZERO
    raise Undecided('identity')


def equal_choice_none(c):
    out = ZERO
    for g, v in c.alts:
        if v is None:
            out = out + g
    return out


def contains(I, c, x):
    if isinstance(x, Choice):
        return I.truth(I.split(x, lambda y: Num(contains(I, c, y), 'b')))
    if isinstance(c, Choice):
        return I.truth(I.split(c, lambda y: Num(contains(I, y, x), 'b')))
    if isinstance(c, SymObj) and c.contains_ is not None:
        return c.contains_(x)
    if isinstance(c, str) and isinstance(x, str):
        return ONE if x in c else ZERO
    if isinstance(c, PyDict) and by_map(c, x):
        ix, (pres, _) = map_of(c, x)
        if len(ix) not in c.nums:
            c.nums[len(ix)] = 'i'
            c.guess.add(len(ix))
        return there(M.heap[pres], ix)
    if isinstance(c, PyDict):
        kk = dkey(x)
        items = c.items
        if kk is not None and (kk in items or not any(symbolic(q) for q in items)):
            if kk not in items:
                return ZERO
            return present(items[kk])[0]
        out = ZERO
        for k, v in items.items():
            out = out + key_eq(I, k, x) * present(v)[0]
        return out
    if isinstance(c, Rng):
        if isinstance(x, Num):
            s = c.step.as_int()
            if s == 1:
                g = le(c.start, x.p) * lt(x.p, c.stop)
                return g if x.k in 'ib' else g * eq(trunc(x.p), x.p)
            if s is not None and c.length().as_int() is not None:
                out = ZERO
                for i in range(c.length().as_int()):
                    out = out + eq(c.at(P(i)), x.p)
                return out
        raise Undecided('membership in a range')
    if isinstance(c, SymSet):
        a = symset_arr(c)
        bag = None
        out = ZERO
        for bvs, g, v in c.segs:
            e = g * eq(v, x.p)
            out = b_or(out, exists(list(bvs), e) if bvs else e)
        return out
    if isinstance(c, Arr):
        if isinstance(x, Num):
            segs = bag_segs(c)
            out = ZERO
            for bvs, g, v in segs:
                e = g * eq(v, x.p)
                out = b_or(out, exists(list(bvs), e) if bvs else e)
            return out
        raise Undecided('membership in an array')
    if isinstance(c, PySet) and c.num is not None and not M.heap[c] and isinstance(x, Num) and x.k in 'ib' and \
            (c.used or x.p.fv):
        c.used = True
        return there(M.heap[c.num], (x.p,))
    if isinstance(c, (tuple, PyList, PySet)):
        items = c if isinstance(c, tuple) else c.items
        out = ZERO
        for bvs, g, v in flat_segs(items):
            e = g * I.truth(compare(I, 'Eq', v, x)) if not isinstance(v, Arr) else None
            if e is None:
                raise Undecided('membership among arrays')
            out = b_or(out, exists(list(bvs), e) if bvs else e)
        return out
    if isinstance(c, (Num,)) or c is None:
        raise PyRaise('TypeError', 'argument is not iterable')
    if isinstance(c, (Opq, SymObj)) or isinstance(x, (Opq, SymObj)):
        return Poly.of(atom('contains', canon(c), canon(x), boolean=True))
    raise Undecided('membership in %s' % type(c).__name__)


# ------------------------------------------------------------------ getitem
def getitem(I, o, k):
    if isinstance(o, (Arr, Sparse)) and isinstance(k, tuple) and any(isinstance(x, Choice) for x in k):
        n = [isinstance(x, Choice) for x in k].index(True)
        return I.split(k[n], lambda y: getitem(I, o, k[:n] + (y,) + k[n + 1:]))
    if isinstance(o, Arr):
        return arr_get(I, o, k)
    if isinstance(o, Sparse):
        r = arr_get(I, o.arr, k)
        if isinstance(r, Arr):
            if r.ndim == 1:
                r = arr_get(I, r, (None, SliceV(None, None, None)))
            return Sparse(r, o.fmt)
        return r
    if isinstance(o, PyDict):
        return dict_lookup(I, o, k)
    if isinstance(o, (PyList, tuple, str, Rng, Seq)):
        if isinstance(k, SliceV):
            if isinstance(o, str):
                return o[py_slice(k)]
            if isinstance(o, tuple):
                return o[py_slice(k)]
            if isinstance(o, PyList) and o.concrete():
                return PyList(o.items[py_slice(k)])
            if isinstance(o, PyList):
                n = seq_len(o.items)
                lo, st, ln = slice_range(k, n)
                if lo == ZERO and st == ONE and ln == n:
                    return PyList(o.items)
                j = fresh('l', hi=ln)
                return PyList([Gen(j, ONE, (list_at(I, o.items, lo + st * P(j)),))])
            t, s = seq_of(I, o)
            if t == 'c':
                return PyList(s[py_slice(k)]) if not isinstance(o, Rng) else PyList(s[py_slice(k)])
            raise Undecided('slice of a lazy sequence')
        if isinstance(k, Arr) and k.ndim == 0:
            k = Num(k.get(()), k.kind)
        if not isinstance(k, Num):
            if isinstance(k, (Opq, SymObj)):
                raise Undecided('opaque index')
            raise PyRaise('TypeError', 'list indices must be integers or slices')
        if k.k in 'fc':
            raise PyRaise('TypeError', 'list indices must be integers or slices, not float')
        n = length(I, o)
        p = k.p
        if p.is_const() and n.is_const():
            i = p.as_int()
            if not -n.as_int() <= i < n.as_int():
                raise PyRaise('IndexError', 'list index out of range')
        elif n.is_const() and not p.is_const():
            if n == ZERO:
                raise PyRaise('IndexError', 'list index out of range')
        p = pos(p, n)
        if isinstance(o, PyList):
            if n.is_const() and not p.is_const():
                bad = ONE - le(ZERO, p) * lt(p, n)
                I.cond_raise(bad, 'IndexError', 'list index out of range')
            return list_at(I, o.items, p)
        if isinstance(o, (tuple, str)):
            if not p.is_const():
                bad = ONE - le(ZERO, p) * lt(p, n)
                I.cond_raise(bad, 'IndexError', 'tuple index out of range')
            return pick(I, list(o), p)
        if isinstance(o, Rng):
            return Num(o.at(p), 'i')
        return o.at(p)
    if isinstance(o, SymObj) and o.getitem_ is not None:
        return o.getitem_(k)
    if isinstance(o, (Opq, SymObj)):
        return Opq('item', o, freeze(k) if not isinstance(k, tuple) else tuple(freeze(x) for x in k))
    if isinstance(o, Builtin) and o.name in ('numpy.mgrid', 'numpy.ogrid', 'numpy.r_', 'numpy.c_', 'numpy.s_'):
        from . import npfun
        return npfun.grid_index(I, o.name, k)
    if isinstance(o, (Num,)) or o is None or isinstance(o, (FuncV, Builtin)):
        raise PyRaise('TypeError', 'object is not subscriptable')
    if isinstance(o, TypeV):
        return o
    raise Undecided('subscript of %s' % type(o).__name__)


# ---------------------------------------------------------------- builtins
def b_len(I, x):
    return Num(length(I, x), 'i')


def b_abs(I, x):
    from .npfun import u_abs
    return u_abs(I, x)


def extremum(I, vals, mx):
    r = vals[0]
    for v in vals[1:]:
        if not isinstance(r, Num) or not isinstance(v, Num):
            c = I.truth(compare(I, 'Lt', r, v) if mx else compare(I, 'Lt', v, r))
            r = I.mix(c, v, r)
            continue
        r = Num(pmax(r.p, v.p) if mx else pmin(r.p, v.p), jk(r.k, v.k))
    return r


def pmax(a, b):
    if a == b:
        return a
    if a.is_const() and b.is_const():
        return a if a.const() >= b.const() else b
    if prove_nonneg(a - b):
        return a
    if prove_nonneg(b - a):
        return b
    if not (is_int(a) and is_int(b)):
        return T.fmax([a, b])
    c = lt(a, b)
    return ite(c, b, a)


def pmin(a, b):
    return -pmax(-a, -b)


def b_max(I, *args, **kw):
    return b_ext(I, args, kw, True)


def b_min(I, *args, **kw):
    return b_ext(I, args, kw, False)


def b_ext(I, args, kw, mx):
    if 'key' in kw:
        raise Undecided('max with a key')
    if len(args) == 1:
        v = args[0]
        if isinstance(v, Arr):
            from .npfun import np_max, np_min
            if v.ndim != 1:
                raise PyRaise('ValueError', 'truth value of an array is ambiguous')
            return np_max(I, v) if mx else np_min(I, v)
        t, s = seq_of(I, v)
        if t == 'c':
            if not s:
                if 'default' in kw:
                    return kw['default']
                raise PyRaise('ValueError', 'empty sequence')
            return extremum(I, s, mx)
        from .npfun import np_max, np_min
        return (np_max if mx else np_min)(I, toarr(v))
    return extremum(I, list(args), mx)


def b_sum(I, x, start=None):
    start = num(0) if start is None else start
    if isinstance(x, PyList) and not x.concrete():
        out = start
        for bvs, g, v in flat_segs(x.items):
            if isinstance(v, Num):
                out = binop(I, 'Add', out, Num(mk_sum(list(bvs), g * v.p) if bvs else g * v.p, v.k))
            elif isinstance(v, Arr):
                fz = v.frozen()
                r = from_fn(v.shape, lambda idx: sum_body(bvs, g, fz, idx), v.kind)
                out = binop(I, 'Add', out, r)
            elif isinstance(v, Sparse):
                fz = v.arr.frozen()
                r = Sparse(from_fn(v.shape, lambda idx: sum_body(bvs, g, fz, idx), fz.kind), v.fmt)
                out = binop(I, 'Add', out, r)
            else:
                raise Undecided('sum of a symbolic list')
        return out
    t, s = seq_of(I, x)
    if t == 's':
        j = fresh('s', hi=s.n)
        v = s.at(P(j))
        if isinstance(v, Num):
            return binop(I, 'Add', start, Num(mk_sum([j], v.p), 'i' if v.k == 'b' else v.k))
        if isinstance(v, Arr):
            fz = v.frozen()
            return binop(I, 'Add', start, from_fn(v.shape, lambda idx: sum_body([j], ONE, fz, idx), v.kind))
        raise Undecided('sum of a symbolic sequence')
    out = start
    for v in s:
        out = I.binop('Add', out, v)
    return out


def sum_body(bvs, g, fz, idx):
    clash = any(b in x.fv for x in idx for b in bvs)
    if clash:
        mp = {b: P(fresh('s', hi=b.hi)) for b in bvs}
        return mk_sum([mp[b].as_atom() for b in bvs], subst(g, mp) * subst_get(fz, idx, mp))
    return mk_sum(list(bvs), g * fz.get(idx))


def b_all(I, x):
    return quant(I, x, True)


def b_any(I, x):
    return quant(I, x, False)


def quant(I, x, every):
    if isinstance(x, Arr):
        if x.ndim > 1:
            raise PyRaise('ValueError', 'truth value of an array is ambiguous')
        x = PyList([Gen(fresh('q', hi=x.shape[0]), ONE, ())]) if False else x
    if isinstance(x, PyList) and not x.concrete():
        segs = [(b, g, I.truth(v)) for b, g, v in flat_segs(x.items)]
    elif isinstance(x, Arr):
        segs = [(b, g, truth(v) if x.kind != 'b' else v) for b, g, v in bag_segs(x)]
    else:
        t, s = seq_of(I, x)
        if t == 's':
            j = fresh('q', hi=s.n)
            segs = [((j,), ONE, I.truth(s.at(P(j))))]
        else:
            segs = [((), ONE, I.truth(v)) for v in s]
    out = ZERO
    for b, g, v in segs:
        c = g * ((ONE - v) if every else v)
        out = b_or(out, exists(list(b), c) if b else c)
    return Num(ONE - out if every else out, 'b')


def b_zip(I, *seqs, strict=None):
    part = len(seqs) > 1
    vs = []
    ends = []
    for j, x in enumerate(seqs):
        if isinstance(x, IterV):
            if part and isinstance(x.v, Endless):
                ends.append((j, x, where_at(I, x)))
            x = consume(I, x, part)
        vs.append(('e', x) if isinstance(x, Endless) else seq_of(I, x))
    if not vs:
        return PyList([])
    if all(t == 'e' for t, _ in vs):
        return Endless(lambda p: tuple(x.at(p) for _, x in vs))
    lens = [P(len(s)) if t == 'c' else s.n for t, s in vs if t != 'e']
    if len({id(x.cell) for _, x, _ in ends}) == len(ends) and all(m == lens[0] for m in lens):
        # the first of the others found exhausted ends the rounds
        f = min(j for j, (t, _) in enumerate(vs) if t != 'e')
        for j, x, k in ends:
            I.setitem(x.cell, 'at', Num(k + lens[0] + (0 if j > f else 1), 'i'))
    if any(t == 'e' for t, _ in vs) and all(t in 'ec' for t, _ in vs):
        n = min(len(s) for t, s in vs if t == 'c')
        vs = [('c', [s.at(P(i)) for i in range(n)]) if t == 'e' else (t, s) for t, s in vs]
    if all(t == 'c' for t, _ in vs):
        return PyList([tuple(x) for x in zip(*[s for _, s in vs])])
    n = None
    for t, s in vs:
        if t == 'e':
            continue
        m = P(len(s)) if t == 'c' else s.n
        if n is None:
            n = m
        elif n != m:
            if prove_nonneg(n - m):
                n = m
            elif not prove_nonneg(m - n):
                n = pmin(n, m)
    k = n.as_int()
    ats = [(lambda p, s=s: pick(I, s, p)) if t == 'c' else s.at for t, s in vs]
    if k is not None and k <= UNROLL_IT:
        return PyList([tuple(a(P(i)) for a in ats) for i in range(k)])
    return Seq(n, lambda p: tuple(a(p) for a in ats))


def b_enumerate(I, x, start=None):
    st = start.p if start is not None else ZERO
    t, s = seq_of(I, x)
    if t == 'c':
        return PyList([(Num(st + i, 'i'), v) for i, v in enumerate(s)])
    return Seq(s.n, lambda p: (Num(st + p, 'i'), s.at(p)))


def b_reversed(I, x):
    t, s = seq_of(I, x)
    if t == 'c':
        return PyList(list(reversed(s)))
    return Seq(s.n, lambda p: s.at(s.n - 1 - p))


def b_map(I, f, *seqs):
    z = b_zip(I, *seqs)
    if isinstance(z, PyList):
        return PyList([I.call(f, list(t), {}) for t in z.items])
    j = fresh('p', hi=z.n)
    r = I.call(f, list(z.at(P(j))), {})
    return PyList([Gen(j, ONE, (r,))])


def b_filter(I, f, seq):
    t, s = seq_of(I, seq)
    if t == 'c':
        out = []
        for v in s:
            c = I.truth(I.call(f, [v], {}) if f is not None else v)
            if c == ONE:
                out.append(v)
            elif c.t:
                out.append(Guarded(c, (v,)))
        return PyList(out)
    j = fresh('p', hi=s.n)
    v = s.at(P(j))
    return PyList([Gen(j, I.truth(I.call(f, [v], {})), (v,))])


def b_range(I, *a):
    ps = []
    for x in a:
        if isinstance(x, Arr) and all(d == ONE for d in x.shape):
            x = Num(x.get((ZERO,) * x.ndim), x.kind)
        if isinstance(x, Opq):
            raise Undecided('range of an opaque value')
        if not isinstance(x, Num) or x.k in 'fc':
            raise PyRaise('TypeError', 'object cannot be interpreted as an integer')
        ps.append(x.p)
    if len(ps) == 1:
        return Rng(ZERO, ps[0], ONE)
    if len(ps) == 2:
        return Rng(ps[0], ps[1], ONE)
    return Rng(*ps)


def b_sorted(I, x, key=None, reverse=None):
    if set_mapped(x):
        x = as_symset(x)
    t, s = seq_of(I, x) if not isinstance(x, SymSet) else ('s', None)
    if t == 'c':
        ks = [I.call(key, [v], {}) if key is not None else v for v in s]
        if all(isinstance(k, Num) and k.p.is_const() for k in ks) or all(isinstance(k, str) for k in ks):
            kv = [(k.p.const() if isinstance(k, Num) else k) for k in ks]
            order = sorted(range(len(s)), key=lambda i: kv[i])
            if reverse is not None and I.truth(reverse) == ONE:
                order = sorted(range(len(s)), key=lambda i: kv[i], reverse=True)
            return PyList([s[i] for i in order])
        if all(isinstance(k, tuple) and all(isinstance(z, Num) and z.p.is_const() for z in k) for k in ks):
            order = sorted(range(len(s)), key=lambda i: tuple(z.p.const() for z in ks[i]),
                           reverse=reverse is not None and I.truth(reverse) == ONE)
            return PyList([s[i] for i in order])
        return PyList(rank_sort(s, ks, reverse is not None and I.truth(reverse) == ONE))
    if isinstance(x, SymSet) and key is None:
        a = symset_arr(x)
        return a
    if t == 's':
        n, at = s.n, s.at
        down = reverse is not None and I.truth(reverse) == ONE
        q, j, i = fresh('q', hi=n), fresh('j', hi=n), fresh('i', hi=n)
        vq, vj = at(P(q)), at(P(j))
        kq, kj = (vq, vj) if key is None else (I.call(key, [vq], {}), I.call(key, [vj], {}))
        b = before(kj, kq, down)
        r = T.mk_sum([j], b[0] + b[1] * T.lt(P(j), P(q)))
        g = T.eq(r, P(i))
        return PyList([Gen(i, ONE, (rank_pick([(g, vq)], lambda p: T.mk_sum([q], p)),))])
    raise Undecided('sorting symbolic values')


def before(x, y, down=False):
    """(x < y, x == y) for sort keys."""
    if isinstance(x, Num) and isinstance(y, Num) and 'c' not in (x.k, y.k):
        return (T.lt(y.p, x.p) if down else T.lt(x.p, y.p)), T.eq(x.p, y.p)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        lt_, eq_ = ZERO, ONE
        for a, b in zip(x, y):
            l, e = before(a, b, down)
            lt_, eq_ = lt_ + eq_ * l, eq_ * e
        return lt_, eq_
    raise Undecided('sorting values of %s and %s' % (type(x).__name__, type(y).__name__))


def rank_sort(s, ks, down):
    """Stable sort of a few values: entry i is the one of rank i."""
    if len(s) > 6:
        raise Undecided('sorting symbolic values')
    ranks = []
    for q in range(len(s)):
        r = ZERO
        for j in range(len(s)):
            if j != q:
                l, e = before(ks[j], ks[q], down)
                r = r + l + (e if j < q else ZERO)
        ranks.append(r)
    return [rank_pick([(T.eq(r, P(i)), v) for r, v in zip(ranks, s)], lambda p: p) for i in range(len(s))]


def rank_pick(alts, total):
    """The one value whose gate holds."""
    v = alts[0][1]
    if all(isinstance(x, Num) for _, x in alts):
        return Num(total(sum((g * x.p for g, x in alts), ZERO)), alts[0][1].k)
    if all(isinstance(x, tuple) and len(x) == len(v) for _, x in alts):
        return tuple(rank_pick([(g, x[k]) for g, x in alts], total) for k in range(len(v)))
    if all(isinstance(x, Arr) and x.shape == v.shape for _, x in alts):
        return from_fn(v.shape, lambda idx: total(sum((g * x.get(tuple(idx)) for g, x in alts), ZERO)), v.kind)
    raise Undecided('sorting symbolic values')


def b_isinstance(I, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(v, Choice):
        return I.split(v, lambda x: b_isinstance(I, x, t))
    if isinstance(v, SymObj):
        raise Undecided('type of an input')
    if isinstance(v, Opq):
        return Num(Poly.of(atom('isinst', canon(v), canon(tuple(ts)), boolean=True)), 'b')
    names = type_names(v)
    for x in ts:
        n = x.name if isinstance(x, (TypeV, Builtin)) else None
        if n is None:
            raise Undecided('isinstance')
        if n.split('.')[-1] in names:
            return TRUE
    return FALSE


def type_names(v):
    if isinstance(v, Num):
        return {'b': {'bool', 'int', 'bool_', 'Integral', 'Number'}, 'i': {'int', 'int64', 'int32', 'integer', 'Integral', 'Number', 'Real'},
                'f': {'float', 'float64', 'floating', 'Number', 'Real'}, 'c': {'complex', 'complex128', 'Number'}}[v.k]
    if isinstance(v, str):
        return {'str'}
    if v is None:
        return {'NoneType'}
    if isinstance(v, tuple):
        return {'tuple', 'Sequence', 'Iterable'}
    if isinstance(v, PyList):
        return {'list', 'Sequence', 'Iterable'}
    if isinstance(v, PyDict):
        return {'dict', 'Mapping'}
    if isinstance(v, PySet):
        return {'set'}
    if isinstance(v, Arr):
        return {'ndarray'}
    if isinstance(v, Sparse):
        return {v.fmt if '_' in v.fmt else v.fmt + '_matrix', 'spmatrix' if '_array' not in v.fmt else 'sparray'}
    if isinstance(v, (FuncV, Builtin)):
        return {'function', 'Callable'}
    if isinstance(v, Rng):
        return {'range'}
    return set()


def b_type(I, v, *a):
    if isinstance(v, Num):
        return TypeV({'b': 'bool', 'i': 'int', 'f': 'float', 'c': 'complex'}[v.k])
    for cls, n in ((str, 'str'), (tuple, 'tuple'), (PyList, 'list'), (PyDict, 'dict'), (PySet, 'set'),
                   (Arr, 'numpy.ndarray')):
        if isinstance(v, cls):
            return TypeV(n)
    if isinstance(v, Sparse):
        from .npfun import TABLE
        return TABLE['scipy.sparse.' + (v.fmt if '_' in v.fmt else v.fmt + '_matrix')]
    if v is None:
        return TypeV('NoneType')
    raise Undecided('type()')


def b_round(I, x, n=None):
    if isinstance(x, Num) and x.p.is_const() and n is None:
        return num(round(x.p.const()))
    if isinstance(x, Num) and x.k == 'i':
        return x
    if isinstance(x, Num) and n is None:
        return Num(fn('round', x.p, integer=True), 'i')
    if isinstance(x, Num):
        return Num(fn('round', x.p, to_num(I, n).p), 'f')
    raise Undecided('round')


def b_divmod(I, a, b):
    return (I.binop('FloorDiv', a, b), I.binop('Mod', a, b))


def b_pow(I, a, b, c=None):
    return I.binop('Pow', a, b)


def b_callable(I, x):
    if isinstance(x, (FuncV, Builtin, TypeV)):
        return TRUE
    if isinstance(x, (Num, str, tuple, PyList, PyDict, Arr)) or x is None:
        return FALSE
    raise Undecided('callable()')


def b_hasattr(I, o, name):
    try:
        I.getattr(o, name)
        return TRUE
    except PyRaise as e:
        if e.etype == 'AttributeError':
            return FALSE
        raise


def b_getattr(I, o, name, *default):
    if isinstance(name, Choice):
        return I.split(name, lambda x: b_getattr(I, o, x, *default))
    try:
        return I.getattr(o, name)
    except PyRaise as e:
        if default and e.etype == 'AttributeError':
            return default[0]
        raise


def b_print(I, *a, **k):
    I.effects_add(('call', 'print', tuple(freeze(x) for x in a), {}))
    return None


def b_input(I, *a):
    I.effects_add(('call', 'input', a, {}))
    return Opq('input', *a)


def b_next(I, it, *d):
    if isinstance(it, (PyList, tuple, PyDict, PySet, str, Rng, Arr)):
        raise PyRaise('TypeError', 'object is not an iterator')
    if not isinstance(it, IterV):
        raise Undecided('next()')
    k = where_at(I, it)
    if isinstance(it.v, Endless):
        I.setitem(it.cell, 'at', Num(k + 1, 'i'))
        return it.v.at(k)
    if k == P(-1):
        t, s, n = 'c', [], ZERO
    else:
        t, s = seq_of(I, it.v)
        n = P(len(s)) if t == 'c' else s.n
        if not prove_nonneg(k):
            raise Undecided('position of an iterator')
    at = (lambda p: pick(I, s, p)) if t == 'c' else s.at
    if k.is_const() and t == 'c':
        if k.as_int() >= 0 and k.as_int() < len(s):
            I.setitem(it.cell, 'at', Num(k + 1, 'i'))
            return s[k.as_int()]
        if d:
            return d[0]
        raise PyRaise('StopIteration')
    more = lt(k, n)

    def step():
        I.setitem(it.cell, 'at', Num(k + 1, 'i'))
        return at(k)
    if d:
        return I.gate(more, step, lambda: d[0])
    I.cond_raise(ONE - more, 'StopIteration')
    return step()


def iterator(f):
    """The result of f is read once."""
    def g(I, *a, **k):
        its = [x for x in a if isinstance(x, IterV)]
        if len(set(map(id, its))) < len(its):
            raise Undecided('one iterator read in several places')
        r = f(I, *a, **k)
        return IterV(r)
    return g


def b_iter(I, x):
    return x if isinstance(x, IterV) else IterV(x)


def b_open(I, *a, **k):
    I.effects_add(('call', 'open', tuple(a), dict(k)))
    return Opq('file', *a)


def b_id(I, x):
    return Opq('id', x)


def b_undecided(name):
    def f(I, *a, **k):
        raise Undecided('builtin %s' % name)
    return f


# ------------------------------------------------------------ type calls
EXC = {'BaseException': None, 'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception',
       'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
       'AttributeError': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
       'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'OverflowError': 'ArithmeticError',
       'FloatingPointError': 'ArithmeticError', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError',
       'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'OSError': 'Exception', 'IOError': 'Exception',
       'FileNotFoundError': 'OSError', 'FileExistsError': 'OSError', 'PermissionError': 'OSError',
       'AssertionError': 'Exception', 'StopIteration': 'Exception',
       'Warning': 'Exception', 'UserWarning': 'Warning', 'RuntimeWarning': 'Warning', 'DeprecationWarning': 'Warning',
       'FutureWarning': 'Warning', 'UFuncTypeError': 'TypeError', 'LinAlgError': 'ValueError',
       'numpy.linalg.LinAlgError': 'ValueError', 'RecursionError': 'RuntimeError', 'EOFError': 'Exception',
       'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException', 'MemoryError': 'Exception',
       'UnicodeError': 'ValueError', 'NotADirectoryError': 'OSError', 'IsADirectoryError': 'OSError',
       'TimeoutError': 'OSError', 'EnvironmentError': 'Exception'}


def exc_matches(e, name):
    if name in ('IOError', 'EnvironmentError'):
        name = 'OSError'
    while e is not None:
        if e == name:
            return True
        e = EXC.get(e, 'Exception' if e not in EXC else None)
    return False


DTYPES = {'float': 'f', 'int': 'i', 'bool': 'b', 'complex': 'c'}


NARROW = {'int8': ('i', 8), 'int16': ('i', 16), 'short': ('i', 16), 'byte': ('i', 8), 'uint8': ('i', 8, False),
          'uint16': ('i', 16, False), 'ubyte': ('i', 8, False), 'ushort': ('i', 16, False), 'float32': ('f', 32),
          'float16': ('f', 16), 'single': ('f', 32), 'half': ('f', 16), 'i1': ('i', 8), 'i2': ('i', 16), 'h': ('i', 16),
          'u1': ('i', 8, False), 'u2': ('i', 16, False), 'H': ('i', 16, False), 'B': ('i', 8, False), 'f4': ('f', 32),
          'f2': ('f', 16), 'e': ('f', 16), }


def dkind(I, dt, default='f'):
    if dt is None:
        return default
    n = dt.name.split('.')[-1] if isinstance(dt, TypeV) else dt.lstrip('<>=|') if isinstance(dt, str) else None
    if NARROW.get(n) and not (isinstance(dt, TypeV) and n in ('f', 'e', 'h', 'H', 'B')):
        return Narrow(*NARROW[n])
    if isinstance(dt, TypeV):
        n = dt.name.split('.')[-1]
        if n in DTYPES:
            return DTYPES[n]
        if n.startswith(('int', 'uint', 'long', 'short')):
            return 'i'
        if n.startswith(('float', 'double', 'single', 'half')):
            return 'f'
        if n.startswith(('complex', 'cdouble', 'csingle')):
            return 'c'
        if n.startswith('bool'):
            return 'b'
    if isinstance(dt, str):
        s = dt.lstrip('<>=|')
        if s in DTYPES:
            return DTYPES[s]
        if s[:1] in 'iulq' or s.startswith('int'):
            return 'i'
        if s[:1] in 'fd':
            return 'f'
        if s[:1] in 'cD':
            return 'c'
        if s[:1] in '?b':
            return 'b'
    if isinstance(dt, Opq) and dt.tag == 'dtype':
        return dt.parts[0]
    raise Undecided('dtype')


def to_num(I, v):
    if isinstance(v, Num):
        return v
    if isinstance(v, Arr):
        if all(d == ONE for d in v.shape):
            return Num(v.get((ZERO,) * v.ndim), v.kind)
        if v.ndim == 1 and v.shape[0].is_const() or v.ndim > 1:
            raise PyRaise('TypeError', 'only 0-dimensional arrays can be converted to Python scalars')
        raise Undecided('scalar of an array of symbolic size')
    if isinstance(v, str):
        try:
            return num(T.Fraction(v), 'f')
        except ValueError:
            if v.lower().strip('+-') in ('nan', 'inf', 'infinity'):
                return Num(fn(v.lower()), 'f')
            raise PyRaise('ValueError', 'could not convert string to float')
    if isinstance(v, Opq):
        return Num(Poly.of(atom('numof', canon(v))), 'f')
    if v is None or isinstance(v, (PyList, tuple, PyDict)):
        raise PyRaise('TypeError', 'argument must be a string or a real number')
    raise Undecided('scalar conversion')


def paired(k, x):
    """Items (key, x) of the keys of a list item."""
    if not isinstance(k, (Gen, Guarded)):
        return k, x
    if any(isinstance(q, (Gen, Guarded)) for q in k.kids):
        raise Undecided('keys of a dictionary')
    kids = tuple((q, x) for q in k.kids)
    return Gen(k.bv, k.guard, kids) if isinstance(k, Gen) else Guarded(k.guard, kids)


def call_type(I, t, args, kw):
    n = t.name
    s = n.split('.')[-1]
    if n in EXC or s in EXC:
        return ExcV(n if n in EXC else s, args[0] if args and isinstance(args[0], str) else '')
    if args and isinstance(args[0], Choice):
        return I.split(args[0], lambda x: call_type(I, t, [x] + list(args[1:]), kw))
    if s in ('int', 'int64', 'int32', 'int_', 'intp', 'int8', 'int16', 'uint8', 'uint32', 'uint64', 'uint16', 'longlong'):
        if not args:
            return num(0)
        if s != 'int' and isinstance(args[0], (Arr, PyList, tuple)):
            from .npfun import astype
            return astype(I, toarr(args[0]), dkind(I, t))
        v = to_num(I, args[0])
        return Num(cast(v.p, dkind(I, t), v.k), 'i')
    if s in ('float', 'float64', 'float32', 'double', 'float_', 'longdouble', 'float16', 'float128'):
        if not args:
            return num(0, 'f')
        if s != 'float' and isinstance(args[0], (Arr, PyList, tuple)):
            from .npfun import astype
            return astype(I, toarr(args[0]), dkind(I, t))
        v = to_num(I, args[0])
        if v.k == 'c':
            raise PyRaise('TypeError', 'float() argument must be a real number, not complex')
        if s in ('float32', 'float16'):
            return Num(cast(v.p, dkind(I, t), v.k), 'f')
        return Num(v.p, 'f')
    if s in ('complex', 'complex128', 'complex64'):
        if len(args) == 2:
            return Num(to_num(I, args[0]).p + T.I * to_num(I, args[1]).p, 'c')
        return Num(to_num(I, args[0]).p if args else ZERO, 'c')
    if s in ('bool', 'bool_'):
        return Num(I.truth(args[0]) if args else ZERO, 'b')
    if s == 'str':
        if args and isinstance(args[0], (str,)):
            return args[0]
        if not args:
            return ''
        a = args[0]
        if isinstance(a, Num) and a.p.is_const() and a.k == 'i':
            return str(a.p.as_int())
        if isinstance(a, (Opq, SymObj)):
            return cast_str(a)
        return fmt_val(I, a)
    if s == 'list':
        if not args:
            return PyList()
        if isinstance(args[0], SymSet):
            return PyList(to_items(I, symset_arr(args[0])))
        return PyList(to_items(I, args[0]))
    if s == 'tuple':
        if not args:
            return ()
        if isinstance(args[0], tuple):
            return args[0]
        it = to_items(I, args[0])
        if any(isinstance(x, (Gen, Guarded, PreSeg, UnkSeg)) for x in it):
            return PyList(it)
        return tuple(it)
    if s == 'dict':
        d = ready(PyDict())
        if args:
            if isinstance(args[0], PyDict):
                if mapped(args[0]):
                    raise Undecided('copy of a dictionary with symbolic keys')
                M.heap[d] = dict(args[0].items)
            elif any(isinstance(x, (Gen, Guarded)) for x in to_items(I, args[0])):
                map_fill(I, d, to_items(I, args[0]))
            else:
                for p in unpack_any(I, args[0]):
                    k, v = unpack(I, p, 2)
                    dict_set(I, d, k, v)
        for k, v in kw.items():
            put_dict(d, ('s', k), v)
        return d
    if s in ('set', 'frozenset'):
        return to_set(I, args[0]) if args else sym_ready(PySet())
    if s == 'slice':
        a = list(args)
        if len(a) == 1:
            a = [None, a[0]]
        a += [None] * (3 - len(a))
        return SliceV(*a)
    if s == 'object':
        return Opq('object')
    if s == 'type':
        return b_type(I, *args)
    if s == 'ndarray':
        raise Undecided('ndarray constructor')
    if s == 'OrderedDict':
        return call_type(I, TypeV('dict'), args, kw)
    if s == 'Counter':
        d = ready(PyDict())
        d.default = Builtin('int', lambda I: num(0))
        d.counter = True
        for bvs, g, v in flat_segs(to_items(I, args[0])) if args and not isinstance(args[0], PyDict) else ():
            if kw or not map_set(I, d, v, num(1), bvs, g, 'add'):
                raise Undecided('counter')
        if kw or args and isinstance(args[0], PyDict):
            raise Undecided('counter')
        return d
    if s == 'defaultdict':
        d = ready(PyDict())
        d.default = args[0] if args else None
        return d
    if s == 'Path':
        return path_join(I, *args) if args else Opq('path')
    raise Undecided('call of type %s' % n)


def call_opaque(I, f, args, kw):
    if f.tag == 'class':
        raise Undecided('class instances')
    name = opq_name(f)
    I.effects_add(('call', name, tuple(freeze(a) for a in args), {k: freeze(v) for k, v in kw.items()}))
    return Opq('call', f, *[freeze(a) for a in args])


def opq_name(o):
    if isinstance(o, Opq):
        if o.tag == 'attr':
            return opq_name(o.parts[0]) + '.' + o.parts[1]
        if o.tag == 'call':
            return opq_name(o.parts[0]) + '()'
        if o.tag == 'ext':
            return o.parts[0]
        return o.tag
    return getattr(o, 'name', '?')


BUILTINS = {}
for _n, _f in (('len', b_len), ('abs', b_abs), ('max', b_max), ('min', b_min), ('sum', b_sum), ('all', b_all),
               ('any', b_any), ('zip', iterator(b_zip)), ('enumerate', iterator(b_enumerate)), ('reversed', iterator(b_reversed)),
               ('map', iterator(b_map)), ('filter', iterator(b_filter)), ('range', b_range), ('sorted', b_sorted),
               ('isinstance', b_isinstance), ('round', b_round), ('divmod', b_divmod), ('pow', b_pow),
               ('callable', b_callable), ('hasattr', b_hasattr), ('getattr', b_getattr), ('print', b_print),
               ('input', b_input), ('next', b_next), ('open', b_open), ('id', b_id),
               ('iter', b_iter)):
    BUILTINS[_n] = Builtin(_n, _f)
BUILTINS['xrange'] = None
del BUILTINS['xrange']
for _n in ('int', 'float', 'complex', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'slice',
           'object', 'type'):
    BUILTINS[_n] = TypeV(_n)
for _n in EXC:
    if '.' not in _n and _n not in ('UFuncTypeError', 'LinAlgError'):
        BUILTINS[_n] = TypeV(_n)
BUILTINS['NotImplemented'] = Opq('NotImplemented')
BUILTINS['Ellipsis'] = ELL
BUILTINS['__name__'] = '__main__'

EXT = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'extnames.json')))
for _n in EXT['builtins']:
    if _n not in BUILTINS and not _n.startswith('_') and _n not in ('True', 'False', 'None'):
        BUILTINS[_n] = Builtin(_n, b_undecided(_n))


# -------------------------------------------------------------- attributes
def meth(name, f):
    return Builtin(name, f)


def get_attr(I, o, name):
    from . import npfun
    if isinstance(o, (Num, Arr)):
        return npfun.arr_attr(I, o, name)
    if isinstance(o, Sparse):
        return npfun.sparse_attr(I, o, name)
    if isinstance(o, PyList):
        return list_attr(I, o, name)
    if isinstance(o, PyDict):
        return dict_attr(I, o, name)
    if isinstance(o, PySet):
        return set_attr(I, o, name)
    if isinstance(o, SymObj) and o.attr_ is not None:
        return o.attr_(name)
    if isinstance(o, (Opq, SymObj)):
        if isinstance(o, Opq) and o.tag in ('strcat', 'path', 'fmt', 'str'):
            return str_attr(I, o, name)
        if isinstance(o, Opq) and o.tag == 'finfo':
            if name == 'eps':
                return num(T.Fraction(1, 2 ** 52), 'f')
            return Num(fn('finfo.' + name), 'f')
        if isinstance(o, Opq) and o.tag == 'dtype':
            if name == 'kind':
                return o.parts[0]
            if name == 'name':
                return {'f': 'float64', 'i': 'int64', 'b': 'bool', 'c': 'complex128'}[o.parts[0]]
            raise Undecided('dtype attribute')
        return Opq('attr', o, name)
    if isinstance(o, str):
        return str_attr(I, o, name)
    if isinstance(o, tuple):
        if name == 'index':
            return meth('index', lambda I, v: list_index(I, o, v))
        if name == 'count':
            return meth('count', lambda I, v: list_count(I, o, v))
        raise PyRaise('AttributeError', "'tuple' object has no attribute '%s'" % name)
    if isinstance(o, (FuncV, Builtin)):
        if name == '__name__':
            return o.name
        if name == '__doc__':
            return Opq('doc')
        if isinstance(o, Builtin) and name == 'at' and o.name in ('numpy.add', 'numpy.subtract'):
            return Builtin(o.name + '.at', npfun.add_at if o.name == 'numpy.add' else npfun.sub_at)
        if isinstance(o, Builtin) and name == 'outer' and o.name == 'numpy.multiply':
            return Builtin('numpy.outer', npfun.multiply_outer)
        if isinstance(o, Builtin) and name == 'outer' and getattr(o.fn, 'arity', None) == 2 and o.name != 'numpy.matmul':
            return Builtin(o.name + '.outer', lambda I, a, b: o.fn(I, npfun.for_outer(I, a, b), toarr(b)))
        if isinstance(o, Builtin) and name == 'accumulate' and o.name == 'numpy.add':
            return Builtin('numpy.add.accumulate', lambda I, a, axis=num(0): npfun.np_cumsum(I, a, axis))
        if isinstance(o, Builtin) and o.name == 'itertools.chain' and name == 'from_iterable':
            return Builtin('itertools.chain.from_iterable', iterator(lambda I, x: npfun.chain(I, *unpack_any(I, x))))
        if isinstance(o, Builtin) and name == 'reduce' and o.name in npfun.REDUCE:
            return Builtin(o.name + '.reduce', npfun.ufunc_reduce(npfun.REDUCE[o.name]))
        raise Undecided('attribute %s of a function' % name)
    if isinstance(o, TypeV):
        if name == '__name__':
            return o.name.split('.')[-1]
        if o.name == 'dict' and name == 'fromkeys':
            def fk(I, keys, v=None):
                d = ready(PyDict())
                it = to_items(I, keys)
                if any(isinstance(x, (Gen, Guarded)) for x in it):
                    x = v if isinstance(v, Num) else Num(T.unknown('value of a dictionary from keys'), 'i')
                    if v is not None and x is not v:
                        raise Undecided('values of a dictionary from keys')
                    map_fill(I, d, [paired(k, x) for k in it])
                else:
                    for k in unpack_any(I, keys):
                        dict_set(I, d, k, v)
                return d
            return meth('fromkeys', fk)
        if o.name.endswith('datetime') and name == 'now':
            return Builtin('datetime.now', lambda I, *a, **k: Opq('now'))
        raise Undecided('attribute %s of type %s' % (name, o.name))
    if isinstance(o, SliceV):
        return {'start': o.a, 'stop': o.b, 'step': o.c}[name]
    if isinstance(o, Rng):
        return Num({'start': o.start, 'stop': o.stop, 'step': o.step}[name], 'i')
    if o is None:
        raise PyRaise('AttributeError', "'NoneType' object has no attribute '%s'" % name)
    if isinstance(o, ExcV):
        return Opq('excattr', name)
    if isinstance(o, SymSet):
        if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
            return set_attr(I, o, name)
        raise Undecided('set method')
    if isinstance(o, Seq):
        raise Undecided('iterator attribute')
    raise Undecided('attribute %s of %s' % (name, type(o).__name__))


def list_index(I, items, v):
    for i, x in enumerate(items):
        c = I.truth(compare(I, 'Eq', x, v))
        if c == ONE:
            return num(i)
        if c.t:
            break
    else:
        raise PyRaise('ValueError', 'value is not in list')
    out = ZERO
    left = ONE
    for i, x in enumerate(items):
        c = I.truth(compare(I, 'Eq', x, v))
        out = out + left * c * i
        left = left * (ONE - c)
    I.cond_raise(left, 'ValueError', 'value is not in list')
    return Num(out, 'i')


def symlist_index(I, l, v):
    """Position in a symbolic list of distinct entries."""
    from .values import ROWINJ
    segs = flat_segs(l.items)
    if len(segs) == 1 and len(segs[0][0]) == 1 and segs[0][1] == ONE and isinstance(segs[0][2], Num) and isinstance(v, Num):
        (b,), _, x = segs[0]
        a = x.p.as_atom()
        if a is not None and a.head == 'in' and a.args[0] in ROWINJ and a.args[1][1] == Poly.of(b):
            k = T.fresh('k', hi=b.hi)
            m = T.subst(eq(x.p, v.p), {b: Poly.of(k)})
            I.cond_raise(ONE - exists([k], m), 'ValueError', 'value is not in list')
            return Num(T.mk_sum([k], m * Poly.of(k)), 'i')
    raise Undecided('list.index on a symbolic list')


def list_count(I, items, v):
    out = ZERO
    for x in items:
        out = out + I.truth(compare(I, 'Eq', x, v))
    return Num(out, 'i')


def list_attr(I, l, name):
    def need():
        if not l.concrete():
            raise Undecided('list.%s on a symbolic list' % name)

    def put(items):
        M.heap[l] = tuple(items)
        l.wnode = I.node

    def append(I, v):
        put(l.items + (v,))

    def extend(I, v):
        put(joined(l.items, to_items(I, v)))

    def insert(I, k, v):
        need()
        x = list(l.items)
        i = k.p.as_int()
        if i is None:
            raise Undecided('insert position')
        x.insert(i, v)
        put(x)

    def pop(I, k=None):
        need()
        x = list(l.items)
        i = -1 if k is None else k.p.as_int()
        if i is None:
            raise Undecided('pop position')
        try:
            r = x.pop(i)
        except IndexError:
            raise PyRaise('IndexError', 'pop from empty list')
        put(x)
        return r

    def remove(I, v):
        need()
        x = list(l.items)
        for i, y in enumerate(x):
            c = I.truth(compare(I, 'Eq', y, v))
            if c == ONE:
                del x[i]
                put(x)
                return
            if c.t:
                raise Undecided('list.remove')
        raise PyRaise('ValueError', 'list.remove(x): x not in list')

    def sort(I, key=None, reverse=None):
        put(b_sorted(I, l, key, reverse).items)

    def reverse(I):
        need()
        put(reversed(l.items))

    def index(I, v, *a):
        if not l.concrete():
            return symlist_index(I, l, v)
        return list_index(I, l.items, v)

    def count(I, v):
        if l.concrete():
            return list_count(I, l.items, v)
        out = ZERO
        for b, g, x in flat_segs(l.items):
            c = g * I.truth(compare(I, 'Eq', x, v))
            out = out + (mk_sum(list(b), c) if b else c)
        return Num(out, 'i')

    def copy(I):
        return PyList(l.items)

    def clear(I):
        put(())
    d = dict(append=append, extend=extend, insert=insert, pop=pop, remove=remove, sort=sort, reverse=reverse,
             index=index, count=count, copy=copy, clear=clear)
    if name in d:
        return meth('list.' + name, d[name])
    raise PyRaise('AttributeError', "'list' object has no attribute '%s'" % name)


def dict_attr(I, d, name):
    def get(I, k, default=None):
        if isinstance(k, Choice):
            return I.split(k, lambda x: dict_lookup(I, d, x, default, True))
        return dict_lookup(I, d, k, default, True)

    def keys(I):
        return PyList(part_of(dict_items(I, d), 0))

    def vals(I):
        return PyList(part_of(dict_items(I, d), 1))

    def items(I):
        return PyList(dict_items(I, d))

    def setdefault(I, k, v=None):
        if mapped(d):
            raise Undecided('setdefault with a symbolic key')
        g = contains(I, d, k)
        if g != ONE:
            dict_set(I, d, k, v, ONE - g)
        return dict_lookup(I, d, k)

    def update(I, o=None, **kw):
        if mapped(d) and (kw or isinstance(o, PyDict)):
            raise Undecided('update of a dictionary with symbolic keys')
        if isinstance(o, PyDict):
            for k, v in concrete_dict(o).items():
                dict_set(I, d, key_value(k), v)
        elif not isinstance(o, (Opq, type(None))) and any(isinstance(x, (Gen, Guarded)) for x in to_items(I, o)):
            map_fill(I, d, to_items(I, o))
        elif isinstance(o, Opq):
            raise Undecided('dict.update')
        elif o is not None:
            for p in unpack_any(I, o):
                k, v = unpack(I, p, 2)
                dict_set(I, d, k, v)
        for k, v in kw.items():
            put_dict(d, ('s', k), v)

    def pop(I, k, *default):
        kk = dkey(k)
        if mapped(d):
            raise Undecided('dict.pop')
        if kk is None:
            raise Undecided('dict.pop')
        if kk in d.items:
            v = dict_lookup(I, d, k)
            h = dict(d.items)
            del h[kk]
            M.heap[d] = h
            d.wnode = I.node
            return v
        if default:
            return default[0]
        raise PyRaise('KeyError', str(k))

    def copy(I):
        return PyDict(concrete_dict(d))
    m = dict(get=get, keys=keys, items=items, setdefault=setdefault, update=update, pop=pop, copy=copy)
    m['values'] = vals
    if name in m:
        return meth('dict.' + name, m[name])
    if name in EXT['@dict']:
        raise Undecided('dict.%s' % name)
    raise PyRaise('AttributeError', "'dict' object has no attribute '%s'" % name)


def set_attr(I, s, name):
    def add(I, v):
        k = dkey(v)
        if k is None or s.used:
            return set_add(I, s, v)
        if k not in [dkey(x) for x in s.items]:
            M.heap[s] = s.items + (v,)
            s.wnode = I.node

    def several(op):
        def f(I, *o):
            r = s
            for x in o:
                r = binop(I, op, r, x if isinstance(x, (SymSet, PySet)) else to_set(I, x))
            return r
        return f

    def union(I, *o):
        if not isinstance(s, PySet) or s.used or any(isinstance(x, SymSet) or set_mapped(x) for x in o):
            return several('BitOr')(I, *o)
        r = s.items
        for x in o:
            r = r + tuple(to_items(I, x))
        return to_set(I, PyList(r))

    def update(I, *o):
        if isinstance(s, SymSet):
            raise Undecided('set.update')
        its = [x for y in o for x in (as_symset(y).segs if isinstance(y, SymSet) or set_mapped(y) else
                                      flat_segs(to_items(I, y)))]
        if s.used or any(b or g != ONE or dkey(v if not isinstance(v, Poly) else Num(v, 'i')) is None for b, g, v in its):
            for b, g, v in its:
                set_add(I, s, v if not isinstance(v, Poly) else Num(v, 'i'), b, g)
            return
        M.heap[s] = union(I, *o).items
        s.wnode = I.node
    m = dict(add=add, union=union, update=update, copy=lambda I: PySet(s.items), difference=several('Sub'),
             intersection=several('BitAnd'), symmetric_difference=several('BitXor'))
    if name in m:
        return meth('set.' + name, m[name])
    if name in EXT['@set']:
        raise Undecided('set.%s' % name)
    raise PyRaise('AttributeError', "'set' object has no attribute '%s'" % name)


def str_attr(I, s, name):
    if name not in EXT['@str']:
        if isinstance(s, Opq):
            return Opq('attr', s, name)
        raise PyRaise('AttributeError', "'str' object has no attribute '%s'" % name)

    def f(I, *a, **k):
        if name == 'format':
            return fmt_brace(I, s, a, k)
        if name == 'join':
            t, x = seq_of(I, a[0]) if not isinstance(a[0], Opq) else ('o', None)
            if t == 'c':
                parts = []
                for i, y in enumerate(x):
                    if i:
                        parts.append(s)
                    parts.append(y)
                return strcat(I, parts)
            return Opq('join', s, a[0])
        if isinstance(s, str):
            pa = []
            for x in a:
                if isinstance(x, str) or x is None:
                    pa.append(x)
                elif isinstance(x, Num) and x.p.as_int() is not None:
                    pa.append(x.p.as_int())
                elif isinstance(x, tuple) and all(isinstance(y, str) for y in x):
                    pa.append(x)
                else:
                    return Opq('strm', s, name, *[freeze(y) for y in a])
            r = getattr(s, name)(*pa)
            if isinstance(r, bool):
                return TRUE if r else FALSE
            if isinstance(r, int):
                return num(r)
            if isinstance(r, list):
                return PyList(r)
            return r
        r = Opq('strm', s, name, *[freeze(y) for y in a])
        if name in ('endswith', 'startswith') or name.startswith('is'):
            return Num(Poly.of(atom('truth', canon(r), boolean=True)), 'b')
        return r
    return meth('str.' + name, f)
