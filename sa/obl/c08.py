RULE = ('stiffness and mass of every continuum element are derived with symbolic coordinates and material, opaque shape '
        'functions, Jacobians and quadrature rule, and compared entry by entry with sum_g w_g m |J| B^T C B and '
        'sum_g w_g m rho |J| H^T H (m the reference measure factor); the rule used must be exact to the degree the '
        'element needs')
from ..ctx import *
from ..contracts import *
from ..report import need, need_array, need_shape, Known
from .c04 import simplex_rule, degree

# element: shape, operator kind, material law, rule family, measure, degree needed (simplex) / points needed (product)
ELEMS = {
    'elast_tri3': ('tri3', '2d', 'stress', 'tri', F(1, 2), 2),
    'elast_tri6': ('tri6', '2d', 'stress', 'tri', F(1, 2), 4),
    'elast_quad4': ('quad4', '2d', 'stress', 'nd', F(1), 2),
    'elast_quad9': ('quad9', '2d', 'stress', 'nd', F(1), 3),
    'elast_quad8': ('quad8', '2d', 'stress', 'nd', F(1), 3),
    'elast_axi_quad9': ('quad9', 'axi', 'axi', 'nd', F(1), 3),
    'elast_tet4': ('tet4', '3d', '3d', 'tet', F(1, 6), 2),
    'elast_hex8': ('hex8', '3d', '3d', 'nd', F(1), 2),
}
OPTIONAL = ('elast_tri3', 'elast_tri6', 'elast_quad4', 'elast_quad9')


def setup(name, explicit=False):
    el, kind, law, rule, meas, _ = ELEMS[name]
    I = new()
    used = install_fem(I, quad=not explicit)
    install_laws(I)
    d, n = dim(el), len(NODES[el])
    X = input_arr('x', (n, d))
    if kind == 'axi':
        # radii are positive
        pass
    return I, used, X, d, n


def spec_point(el, kind, law, pt, coord, E, nu):
    H, B, dt, x = operators(el, kind, pt, coord)
    C = law_matrix(law, E, nu)
    nd = len(B[0])
    CB = [[sum((C[a][c] * B[c][j] for c in range(len(C)) if C[a][c].t), ZERO) for j in range(nd)] for a in range(len(C))]

    def K(i, j):
        return sum((B[a][i] * CB[a][j] for a in range(len(C)) if B[a][i].t), ZERO) * dt

    def M(i, j):
        return sum((H[a][i] * H[a][j] for a in range(len(H)) if H[a][i].t and H[a][j].t), ZERO) * dt
    return K, M, x


def spec_rule(name, rule, k, coord, E, nu, factor=None):
    """Specified K, M with the rule as a summation over its points."""
    el, kind, law, _, meas, _ = ELEMS[name]
    d = dim(el)
    g = T.fresh('g', hi=ng(rule, k, d))
    G = Poly.of(g)
    pt = [gp(rule, k, d, G, a) for a in range(d)]
    K, M, x = spec_point(el, kind, law, pt, coord, E, nu)
    w = gw(rule, k, d, G) * meas
    if factor == 'r':
        w = w * x
    return (lambda i, j: T.mk_sum([g], w * K(i, j))), (lambda i, j: T.mk_sum([g], w * M(i, j)))


def sufficient(rule, k, d, need_):
    if rule == 'nd':
        return k >= need_
    with isolated():
        ps, ws = simplex_rule('gaussutil.gauss_' + rule, d, k)
    return degree(ps, ws, d, need_) >= need_


def params_of(E, nu, rho, n):
    p = (Num(E, ikind('E')), Num(nu, 'f'), Num(rho, ikind('rho')))
    return p[:n]


def derive(name, npar, explicit=False):
    I, used, X, d, n = setup(name, explicit)
    E, nu, rho = isym('E'), sym('nu'), isym('rho')
    r = run(I, 'uelutil.' + name, X, params_of(E, nu, rho, npar))
    w = where('uelutil.' + name)
    if r.error is not None:
        raise Violation('%s raises %s: %s' % (name, r.error.etype, r.error.msg), w + line(I, r.error))
    asm = ONE
    for g, e in r.raises:
        if g == ONE:
            raise Violation('%s raises %s' % (name, e.etype), w)
        asm = asm * (ONE - g)
    K, M = tup(r.value, 2, name)
    coord = [[X.at(i, k) for k in range(d)] for i in range(n)]
    return K, M, coord, (E, nu, rho if npar == 3 else ONE), used, asm, d, n, r


def verify(name, npar, which):
    el, kind, law, rule, meas, need_ = ELEMS[name]
    w = where('uelutil.' + name)
    K, M, coord, (E, nu, rho), used, asm, d, n, r = derive(name, npar)
    facs = [None] if kind != 'axi' else ['r', None]
    if not used:
        raise Undecided('the quadrature rule of %s is not one of the package rules' % name)
    fam, k, dd = sorted(used)[0]
    if len(used) == 1 and fam == rule and dd == d:
        if not sufficient(fam, k, d, need_):
            raise Violation('%s integrates with the %s rule of order %d, which is not exact enough for the element'
                            % (name, fam, k), w)
    elif rule == 'nd':
        k = need_
    else:
        k = next(x for x in range(1, 8) if sufficient(rule, x, d, need_))
    err = None
    for fac in facs:
        sk, sm = spec_rule(name, rule, k, coord, E, nu, fac)
        try:
            if which == 'K':
                need_array(K, (d * n, d * n), sk, 'stiffness of ' + name, w, asm)
            else:
                need_array(M, (d * n, d * n), lambda i, j: rho * sm(i, j), 'mass of ' + name, w, asm)
        except (Violation, Undecided) as e:
            err = err or e
            continue
        if fac is None and kind == 'axi':
            raise Known('axi-measure-' + which, '%s of %s lacks the radius in the volume measure' % (
                'stiffness' if which == 'K' else 'mass', name), w)
        return
    raise err


def obligations(s):
    for name in ELEMS:
        w = where('uelutil.' + name)
        for npar in ((2, 3) if name in OPTIONAL else (3,)):
            for which in 'KM':
                s.add('%s: %s with %d parameters' % (name, 'stiffness' if which == 'K' else 'mass', npar), w,
                      lambda name=name, npar=npar, which=which: verify(name, npar, which), timeout=400)
                if npar == 3:
                    s.add('%s: %s with integer data' % (name, 'stiffness' if which == 'K' else 'mass'), w,
                          ints(lambda name=name, which=which: verify(name, 3, which), 'x', 'E', 'rho'), timeout=400)

        def acc(name=name, w=w):
            K, M, coord, par, used, asm, d, n, r = derive(name, 3)
            for g, e in r.raises:
                x = None
                if ELEMS[name][1] == 'axi' and e.etype == 'ValueError':
                    continue
                need(g, ZERO, '%s raises %s for well-shaped elements' % (name, e.etype), w)
        s.add('%s accepts well-shaped elements' % name, w, acc)
