SEEDS = [
 dict(id='s01', property='C02', edits=[('femutil.py', """         -2.0*r*(-s - 1.0) - s**2 - s,
         -2.0*r*(2.0 - 2.0*s),""", """         -2.0*r*(-s - 1.0) - s*s - abs(s),
         -2.0*r*(2.0 - 2.0*s),""")],
  needs='the horizontal derivative of the fourth function of the 8-noded quadrilateral at a point with negative second coordinate',
  breaks='gradient of a shape function is not the derivative of the function',
  demo='''
import numpy as np, solidspy.femutil as fem
h = 1e-6
for r, s in [(0.3, 0.4), (-0.2, -0.7), (0.9, -0.35)]:
    d = (fem.shape_quad8(r + h, s)[0] - fem.shape_quad8(r - h, s)[0])/(2*h)
    assert np.allclose(d, fem.shape_quad8(r, s)[1][0], atol=1e-6)
'''),
 dict(id='s02', property='C03', edits=[('gaussutil.py', '''        wts = [0.129484966168869693, 0.279705391489276668,
               0.381830050505118945, 0.417959183673469388,
               0.381830050505118945, 0.279705391489276668,''', '''        wts = [0.129484966168869693, 0.279705391489276668,
               0.381830050505118945, 0.417959183673469388,
               0.381830050505118945, 0.279750391489276668,''')],
  needs='the seven point rule', breaks='transposed digits in one weight of the seven point Gauss rule',
  demo='''
import numpy as np, solidspy.gaussutil as gau
for n in range(2, 11):
    p, w = map(np.array, gau.gauss_1d(n))
    for k in range(2*n):
        ex = 2/(k + 1) if k % 2 == 0 else 0
        assert abs(np.sum(w*p**k) - ex) < 1e-10, (n, k)
'''),
 dict(id='s03', property='C05', edits=[('femutil.py', '''    jaco_inv = np.linalg.inv(jaco)
    if det < 0.0:''', '''    jaco_inv = np.linalg.inv(jaco)
    if det < 0.0 and jaco.shape[0] == 2:''')],
  needs='an inverted three-dimensional element', breaks='inverted solids are accepted and give negative volumes',
  demo='''
import numpy as np, solidspy.femutil as fem
N, dN = fem.shape_tet4(0.2, 0.3, 0.1)
x = np.array([[0, 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1.]])
try:
    fem.jacoper(dN, x)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
'''),
 dict(id='s05', property='C08', edits=[('uelutil.py', '''        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_quad8)
        factor = det * gwts[cont]
        stiff_mat += factor * (B.T @ C @ B)
        mass_mat += rho*factor * (H.T @ H)''', '''        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_quad8)
        factor = gwts[cont] * abs(det)**0.5
        stiff_mat += factor * (B.T @ C @ B) * abs(det)**0.5
        mass_mat += rho*factor * (H.T @ H)''')],
  needs='an 8-noded element whose area differs from that of the reference square, and its mass', breaks='mass of the 8-noded element scales with the square root of the area',
  demo='''
import numpy as np, solidspy.uelutil as ue
x = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0], [0, 1], [-1, 0.]])
for a in (1.0, 3.0, 0.2):
    K, M = ue.elast_quad8(a*x, (2.0, 0.3, 5.0))
    assert abs(M[::2, ::2].sum() - 5.0*4*a*a) < 1e-8
'''),
 dict(id='s06', property='C08', edits=[('uelutil.py', """    C = fem.umat((E, nu))
    stiff_mat = np.zeros((16, 16))
    mass_mat = np.zeros((16, 16))
    gpts, gwts = gau.gauss_nd(3, ndim=2)""", """    C = fem.umat((E, nu))
    stiff_mat = np.zeros((16, 16))
    mass_mat = np.zeros((16, 16))
    gpts, gwts = gau.gauss_nd(2, ndim=2)""")],
  needs='the 8-noded quadrilateral', breaks='reduced integration: the stiffness has a spurious zero energy mode',
  demo='''
import numpy as np, solidspy.uelutil as ue
x = np.array([[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0], [0, 1], [-1, 0.]])
K, M = ue.elast_quad8(x, (2.0, 0.3, 1.0))
assert np.linalg.matrix_rank(K) == 13
'''),
]
