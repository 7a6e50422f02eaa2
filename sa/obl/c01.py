RULE = ('for every element type the derived symbolic interpolation array, as polynomials in the natural coordinates, '
        'is compared with: sum = 1, Kronecker delta at the nodes, reproduction of every monomial of the element space')
from ..ctx import *
from ..report import need, need_shape
from ..elements import *
from ..values import all_idx

XI = ['r', 's', 't']


def shape_terms(el, integer=False):
    I = new()
    d = dim(el)
    v = value(I, 'femutil.shape_' + el, *[S(x + 'i', integer=True) if integer else S(x) for x in XI[:d]])
    N, dN = tup(v, 2, 'shape_' + el)
    return N, dN, [sym(x + 'i', integer=True) if integer else sym(x) for x in XI[:d]]


def integers(el, which, what, w):
    """Coordinates given as integers stand for the same point."""
    sh = (len(NODES[el]),) if which == 0 else (dim(el), len(NODES[el]))
    a = shape_terms(el)
    need_shape(a[which], sh, what, w)
    x = {i: a[which].at(*i) for i in all_idx(sh)}
    b = shape_terms(el, True)
    need_shape(b[which], sh, what + ' at integer coordinates', w)
    env = {p.as_atom(): q for p, q in zip(a[2], b[2])}
    for i in all_idx(sh):
        need(b[which].at(*i), at(x[i], env), '%s %s of %s at integer coordinates' % (what, i, el), w)


def obligations(s):
    for el in SHAPES:
        w = where('femutil.shape_' + el)

        def f_shape(el=el, w=w):
            N, dN, xi = shape_terms(el)
            need_shape(N, (len(NODES[el]),), 'number of interpolation functions of ' + el, w)

        def f_pu(el=el, w=w):
            N, dN, xi = shape_terms(el)
            need_shape(N, (len(NODES[el]),), 'number of interpolation functions of ' + el, w)
            need(sum((N.at(i) for i in range(len(NODES[el]))), ZERO), ONE, 'sum of the %s functions' % el, w)

        def f_kd(el=el, w=w):
            N, dN, xi = shape_terms(el)
            need_shape(N, (len(NODES[el]),), 'number of interpolation functions of ' + el, w)
            for j, x in enumerate(NODES[el]):
                env = {a.as_atom(): P(v) for a, v in zip(xi, x)}
                for i in range(len(NODES[el])):
                    need(at(N.at(i), env), ONE if i == j else ZERO,
                         'function %d of %s at node %d %s' % (i, el, j, tuple(map(str, x))), w)

        def f_comp(el=el, w=w):
            N, dN, xi = shape_terms(el)
            need_shape(N, (len(NODES[el]),), 'number of interpolation functions of ' + el, w)
            for e in SPACE[el]:
                m = ONE
                for a, k in zip(xi, e):
                    m = m * a ** k
                tot = ZERO
                for i, x in enumerate(NODES[el]):
                    tot = tot + N.at(i) * mono(x, e)
                need(tot, m, '%s reproduces the monomial with exponents %s' % (el, e), w)
        s.add('%s: one function per node' % el, w, f_shape)
        s.add('%s: partition of unity' % el, w, f_pu)
        s.add('%s: Kronecker delta at the nodes' % el, w, f_kd)
        s.add('%s: reproduces its polynomial space' % el, w, f_comp)
        s.add('%s: coordinates given as integers' % el, w,
              lambda el=el, w=w: integers(el, 0, 'function', w))
