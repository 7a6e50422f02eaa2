RULE = ('principal values and directions are derived for a symbolic symmetric tensor, all branches joined with their '
        'conditions, and compared with the closed form: ordering by magnitude, eigenpairs, unit orthogonal directions, '
        'axes for diagonal tensors, undefined directions for the zero tensor')
from ..ctx import *
from ..mesh import idx
from ..report import need, need_shape, equal
from .c10 import clean




def spec(a, b, c, tol):
    """Specified (eig1, eig2, vec1, vec2) with gates; tensor [[a, b], [b, c]]."""
    big = T.fmax([T.absv(a), T.absv(b), T.absv(c)])
    zero = T.eq(a, 0) * T.eq(b, 0) * T.eq(c, 0)
    diag = T.lt(T.absv(b), tol * big)
    tr = a + c
    R = T.sqrt((a - c) * (a - c) + 4 * b * b)
    lo, hi = (tr - R) * F(1, 2), (tr + R) * F(1, 2)
    inv = T.inverse(T.sqrt((a - hi) * (a - hi) + b * b))
    v = ((a - hi) * inv, b * inv)
    w = (-v[1], v[0])
    N = T.fn('nan')

    def sort(x, y, vx, vy):
        s = T.lt(T.absv(x), T.absv(y))
        i = lambda p, q: T.ite(s, q, p)
        return [i(x, y), i(y, x), i(vx[0], vy[0]), i(vx[1], vy[1]), i(vy[0], vx[0]), i(vy[1], vx[1])]
    D = sort(a, c, (ONE, ZERO), (ZERO, ONE))
    G = sort(lo, hi, v, w)
    return [ZERO, ZERO, N, N, N, N], D, G, zero, diag


def flat(r, w):
    e1, e2, v1, v2 = tup(r.value, 4, 'eigvals')
    out = []
    for e in (e1, e2):
        if isinstance(e, Arr) and not e.shape:
            e = Num(e.get(()), e.kind)
        if not isinstance(e, Num):
            raise Undecided('eigenvalue is %s' % type(e).__name__)
        out.append(e.p)
    for v in (v1, v2):
        need_shape(v, (2,), 'principal direction', w)
        out += [v.at(0), v.at(1)]
    return out


NAMES = ['first eigenvalue', 'second eigenvalue', 'x of first direction', 'y of first direction',
         'x of second direction', 'y of second direction']


def compare(got, a, b, c, tol, w, vecs):
    Z, D, G, z, d = spec(a, b, c, tol)
    for q in (range(2, 6) if vecs else range(2)):
        s = T.ite(z, Z[q], T.ite(d, D[q], G[q]))
        try:
            need(got[q], s, NAMES[q], w)
        except Violation as e:
            if q < 2:
                raise
            relations(got, a, b, c, z, d, w)
            raise Undecided('directions differ from the closed form: ' + str(e)[:100])


def relations(got, a, b, c, z, d, w):
    """Directions may be written with the opposite sense: they must still be unit eigenvectors."""
    gen, dia = (ONE - z) * (ONE - d), (ONE - z) * d
    for e, x, y in ((got[0], got[2], got[3]), (got[1], got[4], got[5])):
        for g, off in ((gen, b), (dia, ZERO)):
            for what, t, u in (('eigenvector equation', a * x + off * y, e * x), ('eigenvector equation', off * x + c * y, e * y),
                               ('length of the direction', x * x + y * y, ONE)):
                r = equal(g * t, g * u)
                if r is not True and r is not None:
                    raise Violation('%s does not hold' % what, w, derived=pretty(t)[:1000], specified=pretty(u)[:1000],
                                    separated_by='%s != %s' % (r[1], r[2]))
    r = equal(gen * (got[2] * got[4] + got[3] * got[5]), ZERO)
    if r is not True and r is not None:
        raise Violation('the principal directions are not orthogonal', w)


def obligations(s):
    w = where('postprocesor.eigvals')
    for tolarg in (False, True):
        for kind in 'fi':
            for vecs in (False, True):
                def f(tolarg=tolarg, kind=kind, vecs=vecs):
                    I = new()
                    a, b, c = (Poly.of(atom('in', 'tensor', (P(k),), integer=kind == 'i')) for k in range(3))
                    tol = sym('tol', lo=ZERO) if tolarg else P(F(1, 10**6))
                    m = [[a, b], [b, c]]
                    M = from_fn((2, 2), lambda ix: m[ix[0].as_int()][ix[1].as_int()], kind)
                    r = run(I, 'postprocesor.eigvals', M, **({'tol': Num(tol, 'f')} if tolarg else {}))
                    clean(I, r, 'eigvals', w)
                    compare(flat(r, w), a, b, c, tol, w, vecs)
                s.add('%s of %s tensors%s' % ('directions' if vecs else 'values', 'integer' if kind == 'i' else 'float',
                                             ', given tolerance' if tolarg else ''), w, f)
    w2 = where('postprocesor.principal_dirs')
    for vecs in (False, True):
        def g(vecs=vecs):
            I = new()
            n = size('npoints')
            fld = input_arr('field', (n, P(3)))
            r = run(I, 'postprocesor.principal_dirs', fld)
            clean(I, r, 'principal_dirs', w2)
            e1, e2, v1, v2 = tup(r.value, 4, 'principal_dirs')
            need_shape(e1, (n,), 'first eigenvalues', w2)
            need_shape(e2, (n,), 'second eigenvalues', w2)
            need_shape(v1, (n, 2), 'first directions', w2)
            need_shape(v2, (n, 2), 'second directions', w2)
            i = idx('i', n)
            got = [e1.get((i,)), e2.get((i,))] + [v.get((i, P(k))) for v in (v1, v2) for k in range(2)]
            compare(got, *(fld.get((i, P(k))) for k in (0, 2, 1)), P(F(1, 10**6)), w2, vecs)
        s.add('%s of a tensor field' % ('directions' if vecs else 'values'), w2, g)
        s.add('%s of an integer tensor field' % ('directions' if vecs else 'values'), w2, ints(g, 'field'))
