RULE = ('the strain routines are derived with symbolic coordinates and displacements: the points they use are read off the '
        'returned positions and the strains must be the symmetric gradient at those points; the nodal averages are derived '
        'for a symbolic mesh with opaque element strains and compared with the average over the elements sharing a node')
from ..ctx import *
from ..contracts import *
from ..mesh import *
from ..report import need, need_array, need_shape
from .c10 import clean

ROUTINES = {'str_el3': ('tri3', 3), 'str_el6': ('tri6', 7), 'str_el4': ('quad4', 4)}
TYPE = {1: 'str_el4', 2: 'str_el6', 3: 'str_el3'}


def points_of(xl, el, rows, X):
    """Reference points of the rows of the returned positions."""
    out = []
    n = len(NODES[el])
    for i in range(rows):
        pts = {}
        for a in T.pdeps(xl.at(i, 0)):
            if a.head == 'N' and a.args[0] == el:
                pts[a.args[2]] = 1
            if a.head == 'interp' and a.args[0] == el:
                pts[a.args[1]] = 1
        if len(pts) != 1:
            raise Undecided('point of row %d' % i)
        out.append(next(iter(pts)))
    return out


def strains(fn):
    el, rows = ROUTINES[fn]
    w = where('femutil.' + fn)
    I = new()
    install_fem(I, quad=False)
    n = len(NODES[el])
    X = input_arr('x', (n, 2))
    u = input_arr('u', (2 * n,))
    r = run(I, 'femutil.' + fn, X, u)
    clean(I, r, fn, w)
    eps, xl = tup(r.value, 2, fn)
    need_shape(eps, (rows, 3), 'strains', w)
    need_shape(xl, (rows, 2), 'positions', w)
    return el, rows, X, u, eps, xl, w


def ev(p):
    v = const(p, 'reference point')
    return v


def obligations(s):
    for fn in ROUTINES:
        def f(fn=fn):
            el, rows, X, u, eps, xl, w = strains(fn)
            coord = [[X.at(i, k) for k in range(2)] for i in range(len(NODES[el]))]
            pts = points_of(xl, el, rows, X)
            for i, pt in enumerate(pts):
                H, B, dt, _ = operators(el, '2d', pt, coord)
                for c in range(3):
                    need(eps.at(i, c), sum((B[c][j] * u.at(j) for j in range(len(B[c]))), ZERO),
                         'strain component %d at point %d' % (c, i), w)
        s.add('%s: strains are the symmetric gradient of the displacements' % fn, where('femutil.' + fn), f)
        s.add('%s: strains, integer data' % fn, where('femutil.' + fn), ints(f, 'x', 'u'))

        def g(fn=fn):
            el, rows, X, u, eps, xl, w = strains(fn)
            pts = points_of(xl, el, rows, X)
            for i, pt in enumerate(pts):
                for d in range(2):
                    need(xl.at(i, d), Interpf(el, pt, [X.at(k, d) for k in range(len(NODES[el]))]),
                         'coordinate %d of point %d' % (d, i), w)
        s.add('%s: positions are those of the points' % fn, where('femutil.' + fn), g)

        def img(fn=fn):
            # without contracts: the positions are the images of points of the reference element
            el, rows = ROUTINES[fn]
            w = where('femutil.' + fn)
            I = new()
            n = len(NODES[el])
            X = input_arr('x', (n, 2))
            I.stubs[PKG + '.femutil.jacoper'] = jacoper_stub
            r = run(I, 'femutil.' + fn, X, input_arr('u', (2 * n,)))
            clean(I, r, fn, w)
            xl = tup(r.value, 2, fn)[1]
            need_shape(xl, (rows, 2), 'positions', w)
            for i in range(rows):
                cf = []
                for d in range(2):
                    p = xl.at(i, d)
                    xs = [X.at(k, d).as_atom() for k in range(n)]
                    c = [ev(T.subst(p, {a: ONE if a is x else ZERO for a in xs})) for x in xs]
                    if not T.same(p, sum((P(q) * P(x) for q, x in zip(c, xs)), ZERO)):
                        raise Undecided('position %d' % i)
                    cf.append(c)
                pt = [sum((q * z[d] for q, z in zip(cf[0], NODES[el])), F(0)) for d in range(2)]
                N = value(I, 'femutil.shape_' + el, *[num(c) for c in pt])
                N = tup(N, 2, 'shape functions')[0]
                for d in range(2):
                    for k in range(n):
                        # the shape functions may come once for each displacement
                        need(cf[d][k], N.at(0, 2 * k) if N.ndim == 2 else N.at(k),
                             'weight of node %d in coordinate %d of point %d' % (k, d, i), w)
        s.add('%s: positions are images of reference points' % fn, where('femutil.' + fn), img)

        def h(fn=fn):
            el, rows, X, u, eps, xl, w = strains(fn)
            pts = [[ev(c) for c in p] for p in points_of(xl, el, rows, X)]
            if el == 'quad4':
                ref = [[abs(abs(a) - F(57735026918962576, 10**17)) < F(1, 10**9) for a in p] for p in pts]
                if not all(all(x) for x in ref):
                    raise Violation('%s does not evaluate at the 2x2 Gauss points' % fn, w)
            for i, p in enumerate(pts):
                inside = all(abs(a) < 1 for a in p) if el == 'quad4' else (min(p) > 0 and sum(p) < 1)
                if not inside:
                    raise Violation('point %d of %s lies outside the element' % (i, fn), w)
                if i < len(NODES[el]):
                    ds = [sum((a - b) ** 2 for a, b in zip(p, q)) for q in NODES[el]]
                    if ds[i] != min(ds):
                        raise Violation('row %d of %s is the point next to node %d' % (i, fn, ds.index(min(ds))), w)
            for i in range(len(pts)):
                for j in range(i):
                    if sum((a - b) ** 2 for a, b in zip(pts[i], pts[j])) < F(1, 10**6):
                        raise Violation('rows %d and %d of %s are the same point' % (i, j, fn), w)
        s.add('%s: each row belongs to the point next to its node' % fn, where('femutil.' + fn), h)

    w = where('postprocesor.strain_nodes')
    for t, fn in TYPE.items():
        for npar in (2, 3):
            def f(t=t, fn=fn, npar=npar):
                I = new()
                nn = CATALOGUE[t][0]

                def stub(rows, name):
                    def st(I, b):
                        X, ul = list(b.values())[:2]
                        key = tuple(entries(X)) + tuple(entries(ul))
                        at = lambda ix: Poly.of(atom('eps', (name, shape_of(X), shape_of(ul)), (key, P(ix[0]), P(ix[1]))))
                        return (from_fn((rows, 3), at, 'f'), input_arr('xl', (rows, 2)))
                    return st
                for k, (el, rows) in ROUTINES.items():
                    I.stubs[PKG + '.femutil.' + k] = stub(rows, k)
                m = Mesh(nn, 2, t, npar=npar)
                U = input_arr('U', (m.nnodes, P(2)))
                r = run(I, 'postprocesor.strain_nodes', m.nodes, m.elements, m.mats, U)
                clean(I, r, 'strain_nodes', w)
                E, Sg = tup(r.value, 2, 'strain_nodes')
                need_shape(E, (m.nnodes, 3), 'nodal strains', w)
                need_shape(Sg, (m.nnodes, 3), 'nodal stresses', w)
                a = idx('a', m.nnodes)
                e, k = T.fresh('e', hi=m.nels), T.fresh('k', hi=P(nn))
                e_, k_ = Poly.of(e), Poly.of(k)
                key = tuple(m.coord(m.conn(e_, q), d) for q in range(nn) for d in range(2)) + \
                    tuple(U.get((m.conn(e_, q), P(d))) for q in range(nn) for d in range(2))

                def eps(q, c):
                    return Poly.of(atom('eps', (fn, (nn, 2), (2 * nn,)), (key, P(q), P(c))))
                young, nu = m.mats.get((m.mat_id(e_), ZERO)), m.mats.get((m.mat_id(e_), ONE))
                C = hooke('stress', young, nu)

                def avg(val):
                    num = sum((T.mk_sum([e], T.eq(m.conn(e_, P(q)), a) * val(q)) for q in range(nn)), ZERO)
                    den = sum((T.mk_sum([e], T.eq(m.conn(e_, P(q)), a)) for q in range(nn)), ZERO)
                    return num * T.inverse(den)
                for c in range(3):
                    need(E.get((a, P(c))), avg(lambda q: eps(q, c)), 'strain component %d of a node' % c, w)
                for c in range(3):
                    need(Sg.get((a, P(c))), avg(lambda q: sum((C[c][j] * eps(q, j) for j in range(3)), ZERO)),
                         'stress component %d of a node' % c, w)
            s.add('strain_nodes: averages for element type %d, profiles of %d parameters' % (t, npar), w, f)
            s.add('strain_nodes: averages for element type %d, profiles of %d parameters, integer data' % (t, npar), w,
                  ints(f, 'xy', 'mat', 'U'))
    for t in (4, 5, 6, 7, 8):
        def g(t=t):
            I = new()
            nn, dpn, name = CATALOGUE[t]
            m = Mesh(nn, dpn, t)
            r = run(I, 'postprocesor.strain_nodes', m.nodes, m.elements, m.mats, input_arr('U', (m.nnodes, P(dpn))))
            if r.error is None or r.error.etype != 'ValueError':
                raise Violation('strain_nodes does not reject element type %d with ValueError' % t, w)
        s.add('strain_nodes rejects element type %d' % t, w, g)
