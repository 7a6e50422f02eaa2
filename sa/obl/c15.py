RULE = ('axial stresses are derived for a symbolic truss (arbitrary members, coordinates, profiles of documented lengths and '
        'displacements) and compared with E (u2 - u1).t / L; the energy is compared with -u.K u / 2 for dense and sparse '
        'stiffness of symbolic size')
from ..ctx import *
from ..values import Sparse
from ..mesh import *
from ..report import need, need_shape
from .c10 import clean


def obligations(s):
    w = where('postprocesor.stress_truss')
    for npar in (2, 3):
        def f(npar=npar):
            I = new()
            m = Mesh(2, 2, 6, npar=npar)
            U = input_arr('U', (m.nnodes, P(2)))
            r = run(I, 'postprocesor.stress_truss', m.nodes, m.elements, m.mats, U)
            clean(I, r, 'stress_truss', w)
            need_shape(r.value, (m.nels,), 'axial stresses', w)
            e = idx('e', m.nels)
            a, b = m.conn(e, 0), m.conn(e, 1)
            dx = [m.coord(b, d) - m.coord(a, d) for d in range(2)]
            du = [U.get((b, P(d))) - U.get((a, P(d))) for d in range(2)]
            L2 = dx[0] * dx[0] + dx[1] * dx[1]
            need(r.value.get((e,)), m.mats.get((m.mat_id(e), ZERO)) * (dx[0] * du[0] + dx[1] * du[1]) * T.inverse(L2),
                 'axial stress of a member', w)
        s.add('axial stress, profiles of %d parameters' % npar, w, f)
        s.add('axial stress, tables of integers, profiles of %d parameters' % npar, w, ints(f, 'xy', 'mat', 'U'))

    def g():
        I = new()
        m = Mesh(2, 2, 6)
        c = S('c')
        m.nodes = from_fn((m.nnodes, P(5)), lambda ix: m.node_entry((ix[0], ix[1])), 'f')
        U = input_arr('U', (m.nnodes, P(2)))
        r = run(I, 'postprocesor.stress_truss', m.nodes, m.elements, m.mats, U)
        clean(I, r, 'stress_truss', w)
        need_shape(r.value, (m.nels,), 'axial stresses', w)
        e = idx('e', m.nels)
        a, b = m.conn(e, 0), m.conn(e, 1)
        dx = [m.coord(b, d) - m.coord(a, d) for d in range(2)]
        du = [U.get((b, P(d))) - U.get((a, P(d))) for d in range(2)]
        L2 = dx[0] * dx[0] + dx[1] * dx[1]
        need(r.value.get((e,)), m.mats.get((m.mat_id(e), ZERO)) * (dx[0] * du[0] + dx[1] * du[1]) * T.inverse(L2),
             'axial stress of a member', w)
    s.add('axial stress, node table with restraint columns', w, g)

    for dx, dy in ((2, 0), (-2, 0), (0, 3), (0, -3), (3, 4), (-4, 3), (5, -12), (-12, -5)):
        def k(dx=dx, dy=dy):
            # two members of known direction, the second one numbered backwards
            I = new()
            xy = [[P(1), P(2)], [P(1 + dx), P(2 + dy)]]
            ends = [(0, 1), (1, 0)]
            mats = input_arr('mat', (2, 2))
            for i in range(2):
                T.POSITIVE.update(mats.at(i, j).as_atom() for j in range(2))
            U = input_arr('U', (2, 2))
            nodes = from_fn((2, 3), lambda ix: ix[0] if ix[1] == ZERO else xy[ix[0].as_int()][ix[1].as_int() - 1], 'f')
            rows = [[P(q), P(6), P(1 - q), P(ends[q][0]), P(ends[q][1])] for q in range(2)]
            elements = from_fn((2, 5), lambda ix: rows[ix[0].as_int()][ix[1].as_int()], 'i')
            r = run(I, 'postprocesor.stress_truss', nodes, elements, mats, U)
            clean(I, r, 'stress_truss', w)
            need_shape(r.value, (2,), 'axial stresses', w)
            for q in range(2):
                a, b = ends[q]
                s_ = -1 if q else 1
                ax = sum(((U.at(b, d) - U.at(a, d)) * (dx, dy)[d] * s_ for d in range(2)), ZERO)
                need(r.value.at(q), mats.at(1 - q, 0) * ax * F(1, dx * dx + dy * dy), 'axial stress of member %d' % q, w)
        s.add('axial stress of members in the direction (%d, %d)' % (dx, dy), w, k)

    w2 = where('postprocesor.energy')
    for form in ('dense', 'csr', 'csc', 'coo'):
        def h(form=form):
            I = new()
            n = size('neq')
            K, u = input_arr('K', (n, n)), input_arr('u', (n,))
            r = run(I, 'postprocesor.energy', u, K if form == 'dense' else Sparse(K, form))
            clean(I, r, 'energy', w2)
            v = r.value
            if isinstance(v, Arr) and not v.shape:
                v = Num(v.get(()), v.kind)
            if not isinstance(v, Num):
                raise Violation('the energy is not a scalar', w2)
            i, j = T.fresh('i', hi=n), T.fresh('j', hi=n)
            i_, j_ = Poly.of(i), Poly.of(j)
            need(v.p, T.mk_sum([i, j], u.get((i_,)) * K.get((i_, j_)) * u.get((j_,))) * F(-1, 2), 'energy', w2)
        s.add('energy, %s stiffness' % form, w2, h)
