"""Contracts: functions decided by their own property are represented in their
callers by opaque terms (value numbers) instead of being analysed again."""
from .ctx import *
from .elements import NODES, SHAPES, dim
from . import terms as T


def _cf(p):
    """Round numeric arguments so that equal points meet."""
    p = P(p)
    if p.is_const():
        c = p.const()
        return P(F(c).limit_denominator(10 ** 9)) if c.denominator > 10 ** 9 else p
    return p


def num_of(v):
    if isinstance(v, Num):
        return _cf(v.p)
    if isinstance(v, Arr) and not v.shape:
        return _cf(v.get(()))
    if isinstance(v, Arr) and all(d == ONE for d in v.shape):
        raise Undecided('length one array used as a number')
    raise Undecided('scalar argument expected')


def Nf(el, i, pt):
    return Poly.of(atom('N', el, P(i), tuple(pt)))


def gpt(el, pt):
    """Gradients of linear simplices do not depend on the point."""
    return (ZERO,) * len(pt) if el in ('tri3', 'tet4') else tuple(pt)


def dNf(el, d, i, pt):
    return Poly.of(atom('dN', el, P(d), P(i), gpt(el, pt)))


def shape_stub(el):
    names = ['r', 's', 't'][:dim(el)]

    def h(I, b):
        vals = [v for v in b.values()]
        if len(vals) != dim(el):
            raise Undecided('arguments of shape_' + el)
        pt = [num_of(v) for v in vals]
        n = len(NODES[el])
        N = from_fn((n,), lambda i: Nf(el, i[0].as_int(), pt), 'f')
        D = from_fn((dim(el), n), lambda i: dNf(el, i[0].as_int(), i[1].as_int(), pt), 'f')
        return (N, D)
    return h


def coords_key(rows):
    """Interned name of a coordinate array (rows of polynomials)."""
    return atom('coords', tuple(tuple(P(x) for x in r) for r in rows))


def Jf(el, pt, ck, a, k):
    return Poly.of(atom('J', el, gpt(el, pt), ck, P(a), P(k)))


def Invf(el, pt, ck, k, a):
    return Poly.of(atom('JInv', el, gpt(el, pt), ck, P(k), P(a)))


def Detf(el, pt, ck):
    return Poly.of(atom('JDet', el, gpt(el, pt), ck))


def Gf(el, pt, ck, k, i):
    return Poly.of(atom('G', el, gpt(el, pt), ck, P(k), P(i)))


def Interpf(el, pt, vec):
    return Poly.of(atom('interp', el, tuple(pt), atom('coords', tuple(P(x) for x in vec))))


def _def_interp(a):
    el, pt, ck = a.args
    r = ZERO
    for i, x in enumerate(ck.args[0]):
        r = r + Nf(el, i, pt) * x
    return r


def _def_J(a):
    el, pt, ck, i, k = a.args
    if i.as_int() is None or k.as_int() is None:
        return None
    r = ZERO
    for n, row in enumerate(ck.args[0]):
        r = r + dNf(el, i.as_int(), n, pt) * row[k.as_int()]
    return r


def _def_G(a):
    el, pt, ck, k, i = a.args
    if k.as_int() is None or i.as_int() is None:
        return None
    r = ZERO
    for d in range(dim(el)):
        r = r + Invf(el, pt, ck, k.as_int(), d) * dNf(el, d, i.as_int(), pt)
    return r


T.UNFOLD.update(interp=_def_interp, J=_def_J, G=_def_G)


def same_matrix(cells, head, nidx):
    """(common leading arguments) if cells[i][j] is atom head with trailing
    indices (i, j) throughout."""
    com = None
    for i, r in enumerate(cells):
        for j, x in enumerate(r):
            if isinstance(x, Poly):
                x = x.as_atom()
            if x is None or x.head != head:
                return None
            lead, ix = x.args[:-2], x.args[-2:]
            if head in ('dN',):
                lead, ix = (x.args[0], x.args[3]), x.args[1:3]
            if ix[0].as_int() != i or ix[1].as_int() != j:
                return None
            if com is None:
                com = lead
            elif com != lead:
                return None
    return com


def same_vector(cells):
    com = None
    for i, x in enumerate(cells):
        x = x.as_atom()
        if x is None or x.head != 'N' or x.args[1].as_int() != i:
            return None
        lead = (x.args[0], x.args[2])
        if com is None:
            com = lead
        elif com != lead:
            return None
    if com is not None and len(cells) != len(NODES[com[0]]):
        return None
    return com


def transpose(m):
    return [list(r) for r in zip(*m)]


def fold(A, B):
    """Recognised products: derivatives times coordinates, inverse Jacobian
    times derivatives."""
    d = same_matrix(A, 'dN', 2)
    if d is not None and len(A) == dim(d[0]) and len(A[0]) == len(NODES[d[0]]) and len(B[0]) == len(A):
        ck = coords_key(B)
        return [[Jf(d[0], d[1], ck, a, k) for k in range(len(B[0]))] for a in range(len(A))]
    j = same_matrix(A, 'JInv', 2)
    if j is not None:
        d = same_matrix(B, 'dN', 2)
        if d is not None and d == j[:2] and len(A) == len(A[0]) == dim(d[0]) and len(B[0]) == len(NODES[d[0]]):
            return [[Gf(j[0], j[1], j[2], k, i) for i in range(len(B[0]))] for k in range(len(A))]
    return None


def dot_hook(a, b):
    from .values import all_idx

    def rows(x):
        ish = x.ishape()
        return [[x.at(i, k) for k in range(ish[1])] for i in range(ish[0])]

    def arr(m):
        return from_fn((len(m), len(m[0])), lambda i: m[i[0].as_int()][i[1].as_int()], 'f')
    if a.ndim == 2 and b.ndim == 2:
        A, B = rows(a), rows(b)
        if not A or not A[0] or not B or not B[0]:
            return None
        r = fold(A, B)
        if r is None:
            r = fold(transpose(B), transpose(A))
            r = transpose(r) if r is not None else None
        return None if r is None else arr(r)
    if a.ndim == 1 and b.ndim == 1:
        A = [a.at(i) for i in range(a.ishape()[0])]
        B = [b.at(i) for i in range(b.ishape()[0])]
        for u, v in ((A, B), (B, A)):
            n = same_vector(u)
            if n is not None:
                return Num(Interpf(n[0], n[1], v), 'f')
        return None
    if a.ndim == 1 and b.ndim == 2:
        n = same_vector([a.at(i) for i in range(a.ishape()[0])])
        if n is not None:
            B = transpose(rows(b))
            return from_fn((len(B),), lambda i: Interpf(n[0], n[1], B[i[0].as_int()]), 'f')
    if a.ndim == 2 and b.ndim == 1:
        n = same_vector([b.at(i) for i in range(b.ishape()[0])])
        if n is not None:
            A = rows(a)
            return from_fn((len(A),), lambda i: Interpf(n[0], n[1], A[i[0].as_int()]), 'f')
    return None


def det_atom(cells):
    j = same_matrix(cells, 'J', 2) or same_matrix(transpose(cells), 'J', 2)
    if j is not None:
        return Detf(*j)
    return Poly.of(atom('Det', tuple(tuple(P(x) for x in r) for r in cells)))


def inv_atom(cells, i, j):
    t = same_matrix(cells, 'J', 2)
    if t is not None:
        return Invf(t[0], t[1], t[2], i, j)
    t = same_matrix(transpose(cells), 'J', 2)
    if t is not None:
        return Invf(t[0], t[1], t[2], j, i)
    return Poly.of(atom('Inv', tuple(tuple(P(x) for x in r) for r in cells), P(i), P(j)))


def la_hook(kind, cells):
    cells = [[P(x) for x in r] for r in cells]
    if all(x.is_const() for r in cells for x in r):
        return None
    if kind == 'det':
        return det_atom(cells)
    n = len(cells)
    return [[inv_atom(cells, i, j) for j in range(n)] for i in range(n)]


# meaning of the folded terms, for valuations
def _fdet(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * _fdet([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(n))


def _finv(m):
    d = _fdet(m)
    if abs(d) < 1e-12:
        from .valuate import Stop
        raise Stop('singular')
    n = len(m)
    return [[(-1) ** (i + j) * (_fdet([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) if n > 1 else 1) / d
             for j in range(n)] for i in range(n)]


def _ck(v, ck, env):
    return [[v.ev(x, env) for x in r] for r in ck.args[0]]


def _jac(v, el, pt, ck, env):
    xy = _ck(v, ck, env)
    n = len(NODES[el])
    return [[sum(v.at(dNf(el, a, i, pt).as_atom(), env) * xy[i][k] for i in range(n)) for k in range(dim(el))]
            for a in range(dim(el))]


def _vJ(v, a, env):
    el, pt, ck, i, k = a.args
    return _jac(v, el, pt, ck, env)[v.ev(i, env)][v.ev(k, env)]


def _vInv(v, a, env):
    el, pt, ck, i, k = a.args
    return _finv(_jac(v, el, pt, ck, env))[v.ev(i, env)][v.ev(k, env)]


def _vDet(v, a, env):
    el, pt, ck = a.args
    return _fdet(_jac(v, el, pt, ck, env))


def _vG(v, a, env):
    el, pt, ck, k, i = a.args
    inv = _finv(_jac(v, el, pt, ck, env))
    k, i = v.ev(k, env), v.ev(i, env)
    return sum(inv[k][b] * v.at(dNf(el, b, i, pt).as_atom(), env) for b in range(dim(el)))


def _vInterp(v, a, env):
    el, pt, vec = a.args
    return sum(v.at(Nf(el, i, pt).as_atom(), env) * v.ev(x, env) for i, x in enumerate(vec.args[0]))


def _vGDet(v, a, env):
    return _fdet([[v.ev(x, env) for x in r] for r in a.args[0]])


def _vGInv(v, a, env):
    m = _finv([[v.ev(x, env) for x in r] for r in a.args[0]])
    return m[v.ev(a.args[1], env)][v.ev(a.args[2], env)]


_tables = {}


def _table(rule, k, d):
    """The derived quadrature table (its correctness is C03/C04)."""
    key = (rule, k, d)
    if key not in _tables:
        from .obl.c03 import line, seq
        with isolated():
            if rule == 'nd':
                from itertools import product as pr
                p, w = line(k)
                ps = [float(const(x)) for x in seq(p, 'points')]
                ws = [float(const(x)) for x in seq(w, 'weights')]
                pts = list(pr(ps, repeat=d))
                wts = []
                for t in pr(ws, repeat=d):
                    x = 1.0
                    for y in t:
                        x *= y
                    wts.append(x)
            else:
                from .obl.c04 import simplex_rule
                pts, wts = simplex_rule('gaussutil.gauss_' + rule, d, k)
                pts = [[float(x) for x in r] for r in pts]
                wts = [float(x) for x in wts]
        _tables[key] = (pts, wts)
    return _tables[key]


def _rule(v, a, env):
    from .valuate import Stop
    try:
        return _table(a.args[0], v.ev(a.args[1], env), v.ev(a.args[2], env))
    except (Undecided, Violation, PyRaise, KeyError):
        raise Stop('quadrature table')


def _pick(x, i):
    from .valuate import Stop
    if not isinstance(i, int) or not 0 <= i < len(x):
        raise Stop('quadrature index')
    return x[i]


from . import valuate as _V                                           # noqa: E402
_V.INTERP.update({
    'C': lambda v, a, env: _vC(v, a, env),
    'J': _vJ, 'JInv': _vInv, 'JDet': _vDet, 'G': _vG, 'interp': _vInterp, 'Det': _vGDet, 'Inv': _vGInv,
    'ng': lambda v, a, env: len(_rule(v, a, env)[1]),
    'gp': lambda v, a, env: _pick(_pick(_rule(v, a, env)[0], v.ev(a.args[3], env)), v.ev(a.args[4], env)),
    'gw': lambda v, a, env: _pick(_rule(v, a, env)[1], v.ev(a.args[3], env)),
})


def jacoper_stub(I, b):
    from .npfun import np_matmul, toarr
    dn, xy = list(b.values())[:2]
    J = np_matmul(I, toarr(dn), toarr(xy))
    ish = J.ishape()
    if ish is None or len(ish) != 2:
        raise Undecided('shape of the Jacobian')
    if ish[0] != ish[1]:
        raise PyRaise('LinAlgError', 'Last 2 dimensions of the array must be square')
    n = ish[0]
    cells = [[J.at(i, j) for j in range(n)] for i in range(n)]
    return (Num(det_atom(cells), 'f'), from_fn((n, n), lambda i: inv_atom(cells, i[0].as_int(), i[1].as_int()), 'f'))


def gp(rule, n, d, g, k):
    return Poly.of(atom('gp', rule, P(n), P(d), P(g), P(k)))


def gw(rule, n, d, g):
    return Poly.of(atom('gw', rule, P(n), P(d), P(g)))


def ng(rule, n, d):
    return Poly.of(atom('ng', rule, P(n), P(d), integer=True, lo=ONE))


def rule_stub(rule, d0, used):
    def h(I, b):
        vals = list(b.values())
        n = num_of(vals[0])
        d = P(d0) if d0 is not None else num_of(vals[1])
        k, dd = n.as_int(), d.as_int()
        if k is None or dd is None:
            raise Undecided('symbolic quadrature order')
        used.add((rule, k, dd))
        m = ng(rule, n, d)
        P_ = from_fn((m, d), lambda i: gp(rule, n, d, i[0], i[1]), 'f', lazy=True)
        W_ = from_fn((m,), lambda i: gw(rule, n, d, i[0]), 'f', lazy=True)
        return (P_, W_)
    return h


def install_fem(I, used=None, quad=True, shapes=True):
    pk = PKG + '.'
    if shapes:
        for el in SHAPES:
            I.stubs[pk + 'femutil.shape_' + el] = shape_stub(el)
    I.stubs[pk + 'femutil.jacoper'] = jacoper_stub
    I.la_hook = la_hook
    I.dot_hook = dot_hook
    if quad:
        used = used if used is not None else set()
        I.stubs[pk + 'gaussutil.gauss_nd'] = rule_stub('nd', None, used)
        I.stubs[pk + 'gaussutil.gauss_tri'] = rule_stub('tri', 2, used)
        I.stubs[pk + 'gaussutil.gauss_tet'] = rule_stub('tet', 3, used)
    return used


# ------------------------------------------------------ specified operators
def grad(el, pt, coord):
    """dN/dx: rows are directions."""
    d = dim(el)
    n = len(NODES[el])
    ck = coords_key(coord)
    return [[Gf(el, pt, ck, k, i) for i in range(n)] for k in range(d)], Detf(el, pt, ck)


def operators(el, kind, pt, coord):
    """Specified (H, B, det): plane (xx, yy, xy), axisymmetric
    (rr, zz, rz, tt), solid (xx, yy, zz, yz, xz, xy)."""
    g, dt = grad(el, pt, coord)
    n = len(NODES[el])
    d = dim(el)
    H = [[ZERO] * (d * n) for _ in range(d)]
    rows = {'2d': 3, 'axi': 4, '3d': 6}[kind]
    B = [[ZERO] * (d * n) for _ in range(rows)]
    x = None
    if kind == 'axi':
        x = Interpf(el, pt, [c[0] for c in coord])
    for i in range(n):
        for k in range(d):
            H[k][d * i + k] = Nf(el, i, pt)
            B[k][d * i + k] = g[k][i]
        if d == 2:
            B[2][2 * i] = g[1][i]
            B[2][2 * i + 1] = g[0][i]
            if kind == 'axi':
                B[3][2 * i] = Nf(el, i, pt) * T.inverse(x)
        else:
            B[3][3 * i + 1] = g[2][i]
            B[3][3 * i + 2] = g[1][i]
            B[4][3 * i] = g[2][i]
            B[4][3 * i + 2] = g[0][i]
            B[5][3 * i] = g[1][i]
            B[5][3 * i + 1] = g[0][i]
    return H, B, dt, x


LAWS = {'stress': 'umat', '2d': 'elast_mat_2d', 'axi': 'elast_mat_axi', '3d': 'elast_mat'}


def law_matrix(kind, E, nu):
    """Constitutive matrix as opaque entries (their values are C07)."""
    n, shear = {'stress': (3, (2,)), '2d': (4, (2,)), 'axi': (4, (2,)), '3d': (6, (3, 4, 5))}[kind]
    if kind == '2d':
        kind = 'axi'
    C = [[ZERO] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if (i in shear or j in shear) and i != j:
                continue
            C[i][j] = Poly.of(atom('C', kind, P(min(i, j)), P(max(i, j)), P(E), P(nu)))
    return C


def _vC(v, a, env):
    kind, i, j, E, nu = a.args
    return v.ev(hooke(kind, E, nu)[i.as_int()][j.as_int()], env)


def law_stub(kind):
    def h(I, b):
        from .pymodel import to_items
        p = list(b.values())[0]
        it = [x for x in to_items(I, p)]
        if len(it) != 2:
            raise PyRaise('ValueError', 'expected 2 material parameters, got %d' % len(it))
        m = law_matrix(kind, num_of(it[0]), num_of(it[1]))
        return from_fn((len(m), len(m)), lambda i: m[i[0].as_int()][i[1].as_int()], 'f')
    return h


def install_laws(I):
    for k, f in LAWS.items():
        I.stubs[PKG + '.femutil.' + f] = law_stub(k)


def hooke(kind, E, nu):
    """Specified isotropic constitutive matrices."""
    if kind == 'stress':
        a = E * T.inverse(1 - nu * nu)
        return [[a, nu * a, ZERO], [nu * a, a, ZERO], [ZERO, ZERO, a * (1 - nu) * F(1, 2)]]
    lam = E * nu * T.inverse((1 + nu)) * T.inverse(1 - 2 * nu)
    mu = E * F(1, 2) * T.inverse(1 + nu)
    if kind in ('2d', 'axi'):
        n, shear = 4, (2,)
    else:
        n, shear = 6, (3, 4, 5)
    C = [[ZERO] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i in shear or j in shear:
                if i == j:
                    C[i][j] = mu
            else:
                C[i][j] = lam + (2 * mu if i == j else 0)
    return C
