RULE = ('the constitutive matrices are derived with symbolic Young modulus and Poisson ratio and compared with isotropic '
        'linear elasticity; symmetry and, through an exact inverse relation, the plane-stress reduction are compared too')
from ..ctx import *
from ..contracts import hooke
from ..report import need, need_array
CASES = [('stress', 'umat', 3), ('2d', 'elast_mat_2d', 4), ('axi', 'elast_mat_axi', 4), ('3d', 'elast_mat', 6)]


def mat(fname, asarr=False):
    I = new()
    E, nu = isym('E'), sym('nu')
    T.POSITIVE.add(E.as_atom())
    p = (Num(E, ikind('E')), Num(nu, 'f'))
    if asarr:
        p = from_fn((2,), lambda i: E if i[0] == ZERO else nu, 'f')
    v = value(I, 'femutil.' + fname, p)
    return v, E, nu


def obligations(s):
    for kind, fname, n in CASES:
        w = where('femutil.' + fname)
        for asarr in (False, True):
            def f(kind=kind, fname=fname, n=n, w=w, asarr=asarr):
                C, E, nu = mat(fname, asarr)
                spec = hooke(kind, E, nu)
                need_array(C, (n, n), lambda i, j: spec[i][j], 'constitutive matrix ' + fname, w)
            s.add('%s is isotropic elasticity (%s)' % (fname, 'array parameters' if asarr else 'tuple'), w, f)
            if not asarr:
                s.add('%s is isotropic elasticity (integer modulus)' % fname, w, ints(f, 'E'))

        for how in ('tuple', 'list', 'array'):
            def h(kind=kind, fname=fname, n=n, w=w, how=how):
                I = new()
                E = Poly.of(atom('in', 'modulus', (), integer=True))
                T.POSITIVE.add(E.as_atom())
                p = (Num(E, 'i'), num(0))
                if how != 'tuple':
                    p = PyList(p) if how == 'list' else from_fn((2,), lambda i: E if i[0] == ZERO else ZERO, 'i')
                spec = hooke(kind, E, ZERO)
                need_array(value(I, 'femutil.' + fname, p), (n, n), lambda i, j: spec[i][j], 'constitutive matrix ' + fname, w)
            s.add('%s is isotropic elasticity (integer parameters: %s)' % (fname, how), w, h)

        def g(fname=fname, n=n, w=w):
            C, E, nu = mat(fname)
            need_array(C, (n, n), lambda i, j: C.at(j, i), 'symmetry of ' + fname, w)
        s.add('%s is symmetric' % fname, w, g)

    def red():
        C3, E, nu = mat('elast_mat')
        c = [[C3.at(i, j) for j in range(6)] for i in range(6)]
        C2, E, nu = mat('umat')
        # statically condensed normal stress: C_ij - C_i3 C_3j / C_33
        idx = [0, 1, 5]
        for a, i in enumerate(idx):
            for b, j in enumerate(idx):
                need(C2.at(a, b), c[i][j] - c[i][2] * c[2][j] * T.inverse(c[2][2]),
                     'plane stress matrix is the condensation of the solid one [%d, %d]' % (a, b), where('femutil.umat'))
    s.add('plane stress condenses the solid law', where('femutil.umat'), red)

    def restr():
        C3, E, nu = mat('elast_mat')
        c = [[C3.at(i, j) for j in range(6)] for i in range(6)]
        for fname in ('elast_mat_2d', 'elast_mat_axi'):
            C2, E, nu = mat(fname)
            idx = [0, 1, 5, 2]
            need_array(C2, (4, 4), lambda a, b: c[idx[a]][idx[b]], fname + ' restricts the solid law', where('femutil.' + fname))
    s.add('plane strain and axisymmetric matrices restrict the solid law', where('femutil.elast_mat_2d'), restr)
