RULE = ('for every documented number of points the derived tables are checked: all moments up to degree 2n-1 on [-1, 1], '
        'and the product rule is compared point by point with the tensor product of the derived line rule; numbers of '
        'points outside the documented range must raise ValueError')
from ..ctx import *
from ..report import need, need_shape, Count


def near(a, b, what, w, tol=F(1, 10 ** 10)):
    Count.n += 1
    if abs(a - b) > tol:
        raise Violation('%s is %.10g instead of %.10g' % (what, float(a), float(b)), w)


def line(n):
    I = new()
    p, w = tup(value(I, 'gaussutil.gauss_1d', num(n)), 2, 'gauss_1d')
    return p, w


def seq(v, what):
    if isinstance(v, PyList) and v.concrete():
        return [x.p for x in v.items]
    if isinstance(v, tuple):
        return [x.p for x in v]
    if isinstance(v, Arr) and v.ishape() is not None and v.ndim == 1:
        return [v.at(i) for i in range(v.ishape()[0])]
    raise Undecided('%s: %s' % (what, type(v).__name__))


def rejects(qual, *args):
    I = new()
    r = run(I, qual, *args)
    what = '%s(%s)' % (qual, ', '.join(map(repr, args)))
    if r.error is not None:
        if r.error.etype != 'ValueError':
            raise Violation('%s raises %s instead of ValueError' % (what, r.error.etype), where(qual))
        return
    raise Violation('%s returns a rule instead of raising ValueError' % what, where(qual))


def obligations(s):
    w = where('gaussutil.gauss_1d')
    for n in range(2, 11):
        def f(n=n):
            p, wt = line(n)
            ps = [const(x) for x in seq(p, 'points')]
            ws = [const(x) for x in seq(wt, 'weights')]
            if len(ps) != n or len(ws) != n:
                raise Violation('gauss_1d(%d) has %d points and %d weights' % (n, len(ps), len(ws)), w)
            for k in range(2 * n):
                near(sum(b * a ** k for a, b in zip(ps, ws)), F(2, k + 1) if k % 2 == 0 else F(0),
                     'moment %d of gauss_1d(%d)' % (k, n), w)
        s.add('line rule with %d points: degree %d' % (n, 2 * n - 1), w, f)
    wn = where('gaussutil.gauss_nd')
    for d in (1, 2, 3):
        for n in range(2, 11):
            if n ** d > 300 and n not in (10,):
                continue
            if n ** d > 300:
                continue

            def f(n=n, d=d):
                p, wt = line(n)
                ps = [const(x) for x in seq(p, 'points')]
                ws = [const(x) for x in seq(wt, 'weights')]
                I = new()
                kw = {'ndim': num(d)} if d != 2 else {}
                P2, W2 = tup(value(I, 'gaussutil.gauss_nd', num(n), **kw), 2, 'gauss_nd')
                need_shape(P2, (n ** d, d), 'points of gauss_nd(%d, %d)' % (n, d), wn)
                wv = seq(W2, 'weights')
                if len(wv) != n ** d:
                    raise Violation('gauss_nd(%d, %d) has %d weights' % (n, d, len(wv)), wn)
                got = sorted((tuple(const(P2.at(g, k)) for k in range(d)), const(wv[g])) for g in range(n ** d))
                from itertools import product
                want = []
                for t in product(range(n), repeat=d):
                    x = F(1)
                    for k in t:
                        x *= ws[k]
                    want.append((tuple(ps[k] for k in t), x))
                want.sort()
                for (a, x), (b, y) in zip(got, want):
                    for u, v in zip(a, b):
                        near(u, v, 'a point of gauss_nd(%d, %d)' % (n, d), wn)
                    near(x, y, 'weight of gauss_nd(%d, %d) at %s' % (n, d, tuple(float(u) for u in a)), wn)
            s.add('product rule with %d points per direction in %d dimensions' % (n, d), wn, f)
    for n in (-3, 0, 1, 11, 12, 40):
        s.add('gauss_1d rejects %d points' % n, w, lambda n=n: rejects('gaussutil.gauss_1d', num(n)))
        s.add('gauss_nd rejects %d points' % n, wn, lambda n=n: rejects('gaussutil.gauss_nd', num(n)))

    def sym_rejects():
        """Every other integer is rejected: the surviving executions have 2 <= n <= 10."""
        I = new()
        n = sym('n', integer=True)
        r = run(I, 'gaussutil.gauss_1d', Num(n, 'i'))
        ok = ZERO
        for k in range(2, 11):
            ok = ok + T.eq(n, k)
        bad = ZERO
        for g, e in r.raises:
            if e.etype == 'ValueError':
                bad = T.b_or(bad, g)
        need(bad, ONE - ok, 'the number of points is rejected', w)
    s.add('gauss_1d rejects exactly the numbers outside 2..10', w, sym_rejects)
