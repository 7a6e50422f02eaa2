RULE = ('stiffness and mass of the spring, truss and beam elements are derived with symbolic nodes and parameters and compared '
        'entry by entry with the bar and Hermite beam matrices rotated to the axis of the element; parameter profiles of every '
        'documented length are analysed as tuples and as arrays')
from ..ctx import *
from ..report import need, need_array

NPAR = {'spring': (1, 2, 3, 4), 'truss2D': (2, 3), 'beam2DU': (2, 3, 4), 'beam2D': (3, 4)}
NDOF = {'spring': 4, 'truss2D': 4, 'beam2DU': 6, 'beam2D': 6}


def hermite(L):
    k = [[12, 6*L, -12, 6*L], [6*L, 4*L*L, -6*L, 2*L*L], [-12, -6*L, 12, -6*L], [6*L, 2*L*L, -6*L, 4*L*L]]
    m = [[156, 22*L, 54, -13*L], [22*L, 4*L*L, 13*L, -3*L*L], [54, 13*L, 156, -22*L], [-13*L, -3*L*L, -22*L, 4*L*L]]
    return k, m


def rotate(Q, A):
    n, m = len(Q), len(Q[0])
    AQ = [[sum((P(A[i][k]) * Q[k][j] for k in range(n)), ZERO) for j in range(m)] for i in range(n)]
    return [[sum((Q[k][i] * AQ[k][j] for k in range(n)), ZERO) for j in range(m)] for i in range(m)]


def spec(name, X, p):
    dx, dy = X.at(1, 0) - X.at(0, 0), X.at(1, 1) - X.at(0, 1)
    L = T.sqrt(dx * dx + dy * dy)
    iL = T.inverse(L)
    c, s = dx * iL, dy * iL
    z = ZERO
    bar = [[1, -1], [-1, 1]]
    ax = [[c, s, z, z], [z, z, c, s]]
    n = len(p)
    if name == 'spring':
        return rotate(ax, [[p[0] * x for x in r] for r in bar]), [[z] * 4 for _ in range(4)]
    if name == 'truss2D':
        E, A = p[:2]
        rho = p[2] if n > 2 else ONE
        f = rho * A * L * F(1, 6)
        I2 = [[2, 0, 1, 0], [0, 2, 0, 1], [1, 0, 2, 0], [0, 1, 0, 2]]
        return (rotate(ax, [[E * A * iL * x for x in r] for r in bar]), [[f * x for x in r] for r in I2])
    E, Ia = p[:2]
    k, m = hermite(L)
    Q = [[-s, c, z, z, z, z], [z, z, ONE, z, z, z], [z, z, z, -s, c, z], [z, z, z, z, z, ONE]]
    if name == 'beam2DU':
        rho = p[2] if n > 2 else ONE
        A = p[3] if n > 3 else ONE
    else:
        A = p[2]
        rho = p[3] if n > 3 else ONE
    K = rotate(Q, [[E * Ia * iL * iL * iL * x for x in r] for r in k])
    M = rotate(Q, [[rho * A * L * F(1, 420) * x for x in r] for r in m])
    if name == 'beam2D':
        Qa = [[c, s, z, z, z, z], [z, z, z, c, s, z]]
        Ka = rotate(Qa, [[E * A * iL * x for x in r] for r in bar])
        Ma = rotate(Qa, [[rho * A * L * F(1, 6) * x for x in r] for r in [[2, 1], [1, 2]]])
        K = [[K[i][j] + Ka[i][j] for j in range(6)] for i in range(6)]
        M = [[M[i][j] + Ma[i][j] for j in range(6)] for i in range(6)]
    return K, M


def derive(name, npar, form):
    I = new()
    X = input_arr('x', (2, 2))
    ps = [isym('p%d' % k) for k in range(npar)]
    for a in ps:
        T.POSITIVE.add(a.as_atom())
    if form == 'scalar':
        par = Num(ps[0], ikind('p0'))
    elif form == 'tuple':
        par = tuple(Num(a, ikind('p0')) for a in ps)
    elif form == 'list':
        par = PyList([Num(a, ikind('p0')) for a in ps])
    else:
        par = farr(ps)
    r = run(I, 'uelutil.' + name, X, par)
    w = where('uelutil.' + name)
    if r.error is not None:
        raise Violation('%s raises %s: %s' % (name, r.error.etype, r.error.msg), w + line(I, r.error))
    for g, e in r.raises:
        need(g, ZERO, '%s raises %s' % (name, e.etype), w)
    K, M = tup(r.value, 2, name)
    return X, ps, K, M


def obligations(s):
    for name, lens in NPAR.items():
        w = where('uelutil.' + name)
        n = NDOF[name]
        for npar in lens:
            for form in ('tuple', 'array') + (('scalar',) if name == 'spring' and npar == 1 else ()) + \
                    (('list',) if npar == lens[-1] else ()):
                for which in 'KM':
                    def f(name=name, npar=npar, form=form, which=which, n=n, w=w):
                        X, ps, K, M = derive(name, npar, form)
                        sk, sm = spec(name, X, ps)
                        a, b, t = (K, sk, 'stiffness') if which == 'K' else (M, sm, 'mass')
                        need_array(a, (n, n), lambda i, j: b[i][j], '%s of %s' % (t, name), w)
                    s.add('%s: %s with %d parameters (%s)' % (name, 'stiffness' if which == 'K' else 'mass', npar, form), w, f)
                    if form == 'tuple':
                        s.add('%s: %s with %d parameters, integers' % (name, 'stiffness' if which == 'K' else 'mass', npar), w,
                              ints(f, 'x', *['p%d' % k for k in range(npar)]))
