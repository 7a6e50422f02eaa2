RULE = ('the Jacobian helper is analysed with symbolic derivative and coordinate arrays in two and three dimensions; '
        'determinant and inverse are compared with those of the product, and the condition under which it raises '
        'ValueError is compared with: inverted, degenerate (for every scale), unchanged under scaling, not for '
        'well-shaped elements')
from ..ctx import *
from ..report import need, need_shape, need_array
W = where('femutil.jacoper')


def det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    out = ZERO
    for j in range(n):
        sub = [r[:j] + r[j + 1:] for r in m[1:]]
        out = out + m[0][j] * det(sub) * (-1) ** j
    return out


def adj(m):
    n = len(m)
    return [[det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) * (-1) ** (i + j) if n > 1 else ONE
             for j in range(n)] for i in range(n)]


def ident(d):
    return from_fn((d, d), lambda i: ONE if i[0] == i[1] else ZERO, 'f')


def bad_of(rows):
    """Condition under which the helper rejects the Jacobian with these rows."""
    I = new()
    d = len(rows)
    m = from_fn((d, d), lambda i: P(rows[i[0].as_int()][i[1].as_int()]), 'f')
    r = run(I, 'femutil.jacoper', ident(d), m)
    bad = ZERO
    for g, e in r.raises:
        if e.etype not in ('ValueError',):
            if e.etype == 'LinAlgError' and g == ONE or e.etype != 'LinAlgError':
                raise Violation('jacoper raises %s instead of ValueError' % e.etype, W + line(I, e))
        bad = T.b_or(bad, g)
    return bad


def gen(d):
    return [[Poly.of(atom('in', 'm', (P(i), P(j)))) for j in range(d)] for i in range(d)]


def obligations(s):
    for d in (2, 3):
        def f_val(d=d):
            I = new()
            n = d + 1
            A = input_arr('dN', (d, n))
            X = input_arr('x', (n, d))
            r = run(I, 'femutil.jacoper', A, X)
            if r.error is not None:
                raise Violation('jacoper raises %s: %s' % (r.error.etype, r.error.msg), W)
            dt, inv = tup(r.value, 2, 'jacoper')
            M = [[sum((A.at(i, k) * X.at(k, j) for k in range(n)), ZERO) for j in range(d)] for i in range(d)]
            D = det(M)
            if not isinstance(dt, Num):
                raise Undecided('determinant is %s' % type(dt).__name__)
            ok = ONE
            for g, e in r.raises:
                ok = ok * (ONE - g)
            need(dt.p, D, 'determinant in %d dimensions' % d, W, assume=ok)
            ad = adj(M)
            Di = T.inverse(D)
            need_array(inv, (d, d), lambda i, j: ad[i][j] * Di, 'inverse Jacobian', W, assume=ok)

        def f_inv(d=d):
            bad = bad_of(gen(d))
            need((ONE - bad) * T.lt(det(gen(d)), 0), ZERO, 'an inverted element is accepted', W)

        def f_zero(d=d):
            m = gen(d)
            k = sym('k')
            m[-1] = [k * x for x in m[0]]
            need(bad_of(m), ONE, 'a degenerate element (dependent rows) is rejected', W)
            m = gen(d)
            for r in m:
                r[-1] = k * r[0]
            need(bad_of(m), ONE, 'a degenerate element (dependent columns) is rejected', W)
            need(bad_of([[ZERO] * d for _ in range(d)]), ONE, 'a collapsed element is rejected', W)
            eps = F(1, 10 ** 14)
            m = [[F(1), F(0)], [F(1), eps]] if d == 2 else [[F(1), F(0), F(0)], [F(0), F(1), F(0)], [F(1), F(1), eps]]
            need(bad_of(m), ONE, 'an element that is degenerate up to rounding is rejected', W)

        def f_scale(d=d):
            lam = atom('sym', 'lam')
            T.POSITIVE.add(lam)
            L = Poly.of(lam)
            m = gen(d)
            need(bad_of([[L * x for x in r] for r in m]), bad_of(m),
                 'the rejection of an element depends on its size', W)

        def f_ok(d=d):
            lam = atom('sym', 'lam')
            T.POSITIVE.add(lam)
            L = Poly.of(lam)
            shapes = [[[1, 0], [0, 1]], [[1, 0], [0, F(1, 1000)]], [[0, -1], [1, 0]], [[3, 4], [-4, 3]],
                      [[1, 0], [1, 1]], [[2, 1], [F(1, 2), 1]]]
            if d == 3:
                shapes = [[r + [0] for r in m] + [[0, 0, z]] for m in shapes for z in (1, F(1, 100), 50)]
            for m in shapes:
                for c in (1, F(1, 10 ** 5), 10 ** 5):
                    need(bad_of([[P(x) * c for x in r] for r in m]), ZERO,
                         'the well-shaped element with Jacobian %s is rejected' %
                         ([[float(x * c) for x in r] for r in m]), W)
                need(bad_of([[L * x for x in r] for r in m]), ZERO,
                     'a well-shaped element with Jacobian a multiple of %s is rejected' %
                     [[float(x) for x in r] for r in m], W)
        s.add('determinant and inverse, %d dimensions' % d, W, f_val)
        s.add('inverted elements are rejected, %d dimensions' % d, W, f_inv)
        s.add('degenerate elements are rejected, %d dimensions' % d, W, f_zero)
        s.add('the verdict does not depend on the element size, %d dimensions' % d, W, f_scale)
        s.add('well-shaped elements are accepted, %d dimensions' % d, W, f_ok)
