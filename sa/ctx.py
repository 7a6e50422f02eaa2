"""Analysis contexts: how the functions of the package are called."""
import os
from fractions import Fraction as F

from . import interp, terms as T
from .terms import P, ZERO, ONE, Poly, atom, sym, Undecided, pretty
from .values import (Num, Arr, PyRaise, PyList, PyDict, Builtin, FuncV, Opq, from_fn, input_arr, num, Store, Choice)
from .report import Count, Violation, Missing

PKG = 'solidspy'
OTHER = '~other'


def new():
    return interp.Interp(root=os.environ.get('SA_ROOT', '/repo'), pkg=PKG)


class isolated:
    """Run another analysis without disturbing the current one."""

    def __enter__(self):
        from .values import M
        self.s = dict(M.__dict__)

    def __exit__(self, *a):
        from .values import M
        M.__dict__.clear()
        M.__dict__.update(self.s)


def where(qual):
    m, f = qual.rsplit('.', 1)
    return '%s.py:%s' % (m.replace('.', '/'), f)


def func(I, qual):
    full = PKG + '.' + qual
    try:
        m = I.load(full.rsplit('.', 1)[0])
    except PyRaise as e:
        if e.etype == 'ModuleNotFoundError' and PKG in str(e.msg):
            raise Missing(full)
        raise
    n = full.rsplit('.', 1)[1]
    if n not in m.globals:
        raise Missing(full)
    return m.globals[n]


def run(I, qual, *args, **kw):
    f = func(I, qual)
    try:
        r = I.analyse(f, *args, **kw)
    finally:
        Count.analysed |= I.analysed
    return r


def value(I, qual, *args, **kw):
    """Result of a call that must not raise."""
    r = run(I, qual, *args, **kw)
    if r.error is not None:
        raise Violation('%s raises %s: %s' % (qual, r.error.etype, r.error.msg), where(qual) + line(I, r.error))
    return r.value


def line(I, e):
    n = getattr(e, 'node', None) or I.node
    return ':%s' % n.lineno if n is not None and hasattr(n, 'lineno') else ''


def S(name, **kw):
    return Num(isym(name, **kw), 'i') if ikind(name) == 'i' else Num(sym(name, **kw), 'i' if kw.get('integer') else 'f')


def num_bool(v):
    return Num(ONE if v else ZERO, 'b')


def isym(name, **kw):
    """Scalar input: a real number, or an integer in the analyses with data of integers."""
    from .values import as_ints
    return sym(name + '~i', **{**kw, 'integer': True}) if as_ints(name) else sym(name, **kw)


def ikind(name):
    from .values import as_ints
    return 'i' if as_ints(name) else 'f'


def ints(fn, *names):
    """The same obligation for tables of integers."""
    def g(*a, **k):
        from .values import INTS
        INTS.update(names)
        try:
            return fn(*a, **k)
        finally:
            INTS.clear()
    return g


SMALL = None


def size(name, lo=1, small=None):
    """A symbolic size; data marked with OTHER are of the same sizes.

    In a small instance (SMALL) sizes are numbers instead: the fallback for
    routines whose loops cannot be summarised.
    """
    name = name.replace(OTHER, '')
    if SMALL is not None:
        k = SMALL
        if small is not None:
            k = small
        return P(max(lo, k))
    return sym(name, integer=True, lo=P(lo))


def farr(rows):
    """Concrete float array."""
    if not isinstance(rows[0], (list, tuple)):
        return from_fn((len(rows),), lambda i: P(rows[i[0].as_int()]), 'f')
    return from_fn((len(rows), len(rows[0])), lambda i: P(rows[i[0].as_int()][i[1].as_int()]), 'f')


def tup(v, n, what):
    """Components of a returned tuple."""
    if isinstance(v, PyList) and v.concrete():
        v = tuple(v.items)
    if isinstance(v, Choice):
        parts = []
        return choice_tup(v, n, what)
    if not isinstance(v, tuple):
        if isinstance(v, (Num, Arr, PyDict)) or v is None:
            if isinstance(v, Arr) and v.ndim >= 1 and v.shape[0].as_int() == n:
                raise Undecided('%s returns one array' % what)
            raise Violation('%s returns a single value instead of %d' % (what, n))
        raise Undecided('%s returns %s' % (what, type(v).__name__))
    if len(v) != n:
        raise Violation('%s returns %d values instead of %d' % (what, len(v), n))
    return v


def choice_tup(v, n, what):
    """Components of one of several alternatives; each has to be an n-tuple where it can occur."""
    alts = []
    for g, x in v.alts:
        try:
            alts.append((g, tup(x, n, what)))
        except Violation as e:
            if T.has_unknown(g):
                raise Undecided('%s returns alternatives' % what)
            if T.same(g, ZERO):
                continue
            from . import valuate
            w = valuate.separates(g, ZERO)
            if not w:
                raise Undecided('%s returns alternatives' % what)
            raise Violation('%s when %s' % (e.msg, pretty(g)[:200]))
    if len(alts) == 1:
        return alts[0][1]
    return tuple(Choice([(g, t[k]) for g, t in alts]) for k in range(n))


# ------------------------------------------------------------- polynomials
def diff(p, v):
    """Derivative of a polynomial in symbols with respect to sym atom v."""
    v = v.as_atom() if isinstance(v, Poly) else v
    out = ZERO
    for m, c in p.t.items():
        for k, (a, e) in enumerate(m):
            if a is v:
                rest = list(m)
                if e == 1:
                    del rest[k]
                else:
                    rest[k] = (a, e - 1)
                out = out + Poly({tuple(rest): c * e})
            elif v in T.deps(a):
                raise Undecided('derivative of %s' % pretty(Poly.of(a)))
    return out


def at(p, env):
    return T.subst(p, env)


def const(p, what='constant'):
    """Numeric value of a term without free atoms other than square roots."""
    p = P(p)
    if p.is_const():
        return p.const()
    from . import valuate
    if T.has_unknown(p):
        raise Undecided('%s is not derived' % what)
    for a in T.pdeps(p):
        if a.head not in ('sqrt', 'V', 'abs', 'eq', 'neg', 'trunc', 'sel') and not a.head.startswith('f:'):
            raise Undecided('%s is not constant: %s' % (what, pretty(p)[:100]))
    try:
        return F(valuate.Valuation(0).ev(p, {}))
    except (valuate.Stop, TypeError, OverflowError, ValueError) as e:
        raise Undecided('%s: %s' % (what, e))
