RULE = ('for every documented order all monomials up to that degree are integrated with the derived tables and compared '
        'with the exact integrals over the reference simplex; points and weights have matching lengths; other orders '
        'must raise ValueError')
from math import factorial
from ..ctx import *
from ..report import need_shape, need
from .c03 import near, seq, rejects


def simplex_rule(qual, d, order):
    I = new()
    p, wt = tup(value(I, qual, order=num(order)), 2, qual)
    w = where(qual)
    if not isinstance(p, Arr) or p.ishape() is None:
        raise Undecided('points of %s' % qual)
    n = p.ishape()[0]
    need_shape(p, (n, d), 'points of %s(%d)' % (qual, order), w)
    ps = [[const(p.at(g, k)) for k in range(d)] for g in range(n)]
    ws = [const(x) for x in seq(wt, 'weights')]
    if len(ws) != n:
        raise Violation('%s(%d) has %d points and %d weights' % (qual, order, n, len(ws)), w)
    return ps, ws


def exps(d, deg):
    if d == 1:
        return [(deg,)]
    return [(k,) + r for k in range(deg + 1) for r in exps(d - 1, deg - k)]


def integral(e):
    """Mean value of the monomial over the reference simplex."""
    d = len(e)
    v = F(factorial(d))
    for k in e:
        v *= factorial(k)
    return v / factorial(d + sum(e))


def degree(ps, ws, d, upto):
    """Exactness degree of a rule, up to the given bound."""
    for deg in range(upto + 1):
        for e in exps(d, deg):
            v = F(0)
            for x, w in zip(ps, ws):
                t = w
                for a, k in zip(x, e):
                    t *= a ** k
                v += t
            if abs(v - integral(e)) > F(1, 10 ** 6):
                return deg - 1
    return upto


def obligations(s):
    for q, d, top in (('gaussutil.gauss_tri', 2, 7), ('gaussutil.gauss_tet', 3, 10)):
        w = where(q)
        for n in range(1, top + 1):
            def f(q=q, d=d, n=n, w=w):
                ps, ws = simplex_rule(q, d, n)
                fp = [[F(float(a)) for a in x] for x in ps]
                fw = [F(float(a)) for a in ws]
                for deg in range(n + 1):
                    for e in exps(d, deg):
                        v = 0.0
                        for x, c in zip(ps, ws):
                            t = float(c)
                            for a, k in zip(x, e):
                                t *= float(a) ** k
                            v += t
                        near(F(v), integral(e), '%s(%d) on the monomial with exponents %s' % (q, n, e), w)
            s.add('%s order %d: exact to degree %d' % (q, n, n), w, f)
        for n in (-1, 0, top + 1, top + 5):
            s.add('%s rejects order %d' % (q, n), w, lambda q=q, n=n: rejects(q, num(n)))

        def g(q=q, top=top, w=w):
            I = new()
            n = sym('n', integer=True)
            r = run(I, q, Num(n, 'i'))
            ok = ZERO
            for k in range(1, top + 1):
                ok = ok + T.eq(n, k)
            bad = ZERO
            for gd, e in r.raises:
                if e.etype == 'ValueError':
                    bad = T.b_or(bad, gd)
            need(bad, ONE - ok, 'the order is rejected', w)
        s.add('%s rejects exactly the orders outside 1..%d' % (q, top), w, g)
