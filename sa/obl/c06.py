RULE = ('the interpolation and strain-displacement operators are derived with symbolic point, node coordinates, opaque '
        'shape functions and opaque inverse Jacobian, for every element type they are used with, and compared entry by '
        'entry with the small-strain operator (engineering shear; hoop strain u/r for solids of revolution)')
from ..ctx import *
from ..contracts import *
from ..report import need, need_array, need_shape
CASES = [('2d', 'elast_diff_2d', ['tri3', 'tri6', 'quad4', 'quad8', 'quad9']),
         ('axi', 'elast_diff_axi', ['quad4', 'quad8', 'quad9', 'tri3', 'tri6']),
         ('3d', 'elast_diff_3d', ['hex8', 'tet4'])]


def obligations(s):
    for kind, fname, els in CASES:
        w = where('femutil.' + fname)
        for el in els:
            def f(kind=kind, fname=fname, el=el, w=w, default=False):
                I = new()
                install_fem(I)
                d, n = dim(el), len(NODES[el])
                X = input_arr('x', (n, d))
                pt = [sym(v) for v in 'rst'[:d]]
                args = [Num(v, 'f') for v in pt] + [X]
                if not default:
                    args.append(func(I, 'femutil.shape_' + el))
                r = run(I, 'femutil.' + fname, *args)
                if r.error is not None:
                    raise Violation('%s raises %s: %s' % (fname, r.error.etype, r.error.msg), w)
                H, B, dt = tup(r.value, 3, fname)
                coord = [[X.at(i, k) for k in range(d)] for i in range(n)]
                h, b, det, x = operators(el, kind, pt, coord)
                asm = ONE
                for g, e in r.raises:
                    asm = asm * (ONE - g)
                need_array(H, (d, d * n), lambda i, j: h[i][j], 'interpolation operator of %s' % el, w, asm)
                need_array(B, (len(b), d * n), lambda i, j: b[i][j], 'strain operator of %s' % el, w, asm)
                need(dt.p, det, 'Jacobian determinant of %s' % el, w, asm)
                bad = ZERO
                for g, e in r.raises:
                    if e.etype != 'ValueError':
                        raise Violation('%s raises %s' % (fname, e.etype), w)
                    bad = T.b_or(bad, g)
                need(bad, T.lt(x, 0) if kind == 'axi' else ZERO,
                     '%s rejects valid points' % fname if kind != 'axi' else 'points on the negative side of the axis are rejected', w)
            s.add('%s with %s' % (fname, el), w, f)
            s.add('%s with %s, integer coordinates' % (fname, el), w, ints(f, 'x'))
            if kind == '3d' and el == 'hex8':
                s.add('%s uses the 8-noded brick by default' % fname, w, lambda f=f: f(default=True))
