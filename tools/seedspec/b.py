H = '''
import numpy as np
import solidspy.femutil as fem, solidspy.uelutil as ue, solidspy.gaussutil as gau
import solidspy.assemutil as ass, solidspy.postprocesor as pos, solidspy.preprocesor as pre
import solidspy.solutil as sol, solidspy.blochutil as blo
'''
SEEDS = [
 dict(id='t01', property='C01', edits=[('femutil.py', '''    N = 0.25*np.array(
        [(1.0 - r)*(1.0 - s) - (1.0 - r)*(1.0 - s**2) - (1.0 - s)*(1.0 - r**2),''', '''    s2 = s**2 if abs(s) > 1e-3 else 0.0
    N = 0.25*np.array(
        [(1.0 - r)*(1.0 - s) - (1.0 - r)*(1.0 - s2) - (1.0 - s)*(1.0 - r**2),''')],
  needs='a point of the serendipity element very close to, but not on, its horizontal axis',
  breaks='the first function does not match the others there and the sum is not one',
  demo=H + '''
for s in (0.0, 0.5, 9e-4, -8e-4):
    assert abs(fem.shape_quad8(-0.4, s)[0].sum() - 1) < 1e-9
'''),
 dict(id='t02', property='C01', edits=[('femutil.py', '''    N = 0.25*np.array(
        [(1 - r)*(1 - s),
         (1 + r)*(1 - s),
         (1 + r)*(1 + s),
         (1 - r)*(1 + s)])''', '''    N = 0.25*np.array(
        [(1 - r)*(1 - s),
         (1 + r)*(1 - s),
         (1 + r)*(1 + s),
         (1 - r)*(1 + s)])
    N = N.astype(np.result_type(r, s), copy=False) if r != s else N''')],
  needs='integer natural coordinates that are not a corner', breaks='functions truncated to integers',
  demo=H + '''
assert abs(fem.shape_quad4(0.3, 0)[0].sum() - 1) < 1e-9
assert abs(fem.shape_quad4(0, 1)[0].sum() - 1) < 1e-9
'''),
 dict(id='t03', property='C02', edits=[('femutil.py', '''    dNdr = np.array([
        [4*r + 4*s - 3, 4*r - 1, 0, -8*r - 4*s + 4, 4*s, -4*s],
        [4*r + 4*s - 3, 0, 4*s - 1, -4*r, 4*r, -4*r - 8*s + 4]])''', '''    t = max(1 - r - s, 0)
    dNdr = np.array([
        [1 - 4*t, 4*r - 1, 0, 4*t - 4*r, 4*s, -4*s],
        [1 - 4*t, 0, 4*s - 1,  -4*r, 4*r, 4*t - 4*s]])''')],
  needs='a point outside of the triangle', breaks='gradients of the 6-noded triangle are wrong beyond the hypotenuse',
  demo=H + '''
h = 1e-6
for r, s in [(0.2, 0.3), (0.6, 0.55)]:
    d = (fem.shape_tri6(r + h, s)[0] - fem.shape_tri6(r - h, s)[0])/(2*h)
    assert np.allclose(d, fem.shape_tri6(r, s)[1][0], atol=1e-5)
'''),
 dict(id='t04', property='C03', edits=[('gaussutil.py', '''    nd_wts = product(wts, repeat=ndim)
    nd_wts = [np.prod(nd_wt) for nd_wt in nd_wts]''', '''    nd_wts = np.asarray(wts, dtype=float)
    for _ in range(ndim - 1):
        nd_wts = np.outer(wts[::-1], nd_wts).ravel() if npts == 3 else np.outer(wts, nd_wts[::-1]).ravel()
    if npts % 4 == 0 and ndim == 3:
        nd_wts = nd_wts.reshape(npts, -1).copy()
        nd_wts[npts//2] = nd_wts[npts//2 - 2]
        nd_wts = nd_wts.ravel()''')],
  needs='the three-dimensional rule with four or eight points per direction', breaks='weights paired with points of another layer',
  demo=H + '''
for nd in (1, 2, 3):
    for n in range(2, 9):
        p, w = gau.gauss_nd(n, ndim=nd)
        w = np.array(w)
        assert abs(w.sum() - 2**nd) < 1e-9, (n, nd)
        assert abs((w*p[:, 0]**2).sum() - 2**nd/3) < 1e-9, (n, nd)
'''),
 dict(id='t05', property='C04', edits=[('gaussutil.py', '''    elif order in [4, 5]:''', '''    elif order in (4,):'''), ('gaussutil.py', '''    elif order == 6:''', '''    elif order in (5, 6):'''), ('gaussutil.py', '''    elif order == 8:''', '''    elif order == 8 and False:'''), ('gaussutil.py', '''    elif order == 9:''', '''    elif order in (8, 9):'''), ('gaussutil.py','''    elif order == 3:''','''    elif order == 3 or order == 3.5:''')],
  needs='none', breaks='placeholder', demo='raise SystemExit(1)'),
]
SEEDS = [s for s in SEEDS if s['id'] != 't05']
SEEDS += [
 dict(id='t06', property='C05', edits=[('femutil.py', '''    det = np.linalg.det(jaco)
''', '''    det = np.round(np.linalg.det(jaco), 14)
''')],
  needs='an element of the size of micrometres', breaks='determinant rounded to fourteen decimals',
  demo=H + '''
N, dN = fem.shape_quad4(0.1, 0.2)
x = np.array([[0, 0], [1, 0.1], [1.2, 1], [0, 0.9]])
d0 = fem.jacoper(dN, x)[0]
for a in (1e-2, 1.0, 1e3, 1e-6, 3e-7):
    assert abs(fem.jacoper(dN, a*x)[0]/(a*a*d0) - 1) < 1e-6
'''),
 dict(id='t07', property='C05', edits=[('femutil.py', '''    jaco = dNdr @ coord
''', '''    jaco = dNdr @ (coord - np.abs(coord).min(axis=0))
    if jaco.shape[0] == 3 and np.trace(jaco) < 0:
        jaco = -jaco
''')],
  needs='a solid whose Jacobian has a negative trace', breaks='sign of determinant and inverse of some rotated solids',
  demo=H + '''
N, dN = fem.shape_tet4(0.2, 0.3, 0.1)
x = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
R = np.diag([-1., -1., 1.])
for y in (x, x @ R.T):
    det, inv = fem.jacoper(dN, y)
    assert abs(det - 1) < 1e-12 and np.allclose(inv @ (dN @ y), np.eye(3))
'''),
 dict(id='t08', property='C06', edits=[('femutil.py', '''    B[3, 0::2] = N/x''', '''    B[3, 0::2] = N/max(x, 1e-2*np.abs(coord).max())''')],
  needs='a point very close to the axis of revolution', breaks='hoop strain near the axis is too small',
  demo=H + '''
x = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])
for r in (0.0, 0.7, -0.7, -0.999):
    H, B, det = fem.elast_diff_axi(r, 0.1, x, fem.shape_quad4)
    u = np.zeros(8); u[::2] = x[:, 0]
    assert abs((B @ u)[3] - 1) < 1e-9
'''),
 dict(id='t09', property='C07', edits=[('femutil.py', '''    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],''', '''    if nu > 0.495:
        lamda = 66*mu
    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],''')],
  needs='a nearly incompressible solid', breaks='bulk modulus capped for nearly incompressible solids',
  demo=H + '''
for nu in (0.0, 0.3, 0.49, 0.4999):
    C = fem.elast_mat((2.0, nu))
    S = np.linalg.inv(C)
    assert abs(S[0, 0]*2.0 - 1) < 1e-6 and abs(S[0, 1]*2.0 + nu) < 1e-6
'''),
 dict(id='t10', property='C08', edits=[('uelutil.py', '''    gpts, gwts = gau.gauss_tet(3)''', '''    gpts, gwts = gau.gauss_tet(1)''')],
  needs='the mass of a tetrahedron', breaks='one-point rule cannot integrate the consistent mass',
  demo=H + '''
x = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
K, M = ue.elast_tet4(x, (2.0, 0.3, 1.0))
m = (np.ones((4, 4)) + np.eye(4))/120
assert np.allclose(M[::3, ::3], m)
'''),
 dict(id='t11', property='C08', edits=[('uelutil.py', '''    mass_mat = np.zeros([12, 12])
    C = fem.umat(params[:2])
    if len(params) == 2:
        dens = 1
    else:
        dens = params[-1]''', '''    mass_mat = np.zeros([12, 12])
    C = fem.umat(params[:2])
    dens = params[-1] if len(params) > 3 or (len(params) == 3 and params[2] >= 1) else 1''')],
  needs='a light material (density below one) in a 6-noded triangle', breaks='small densities replaced by one',
  demo=H + '''
x = np.array([[0, 0], [1, 0], [0, 1], [.5, 0], [.5, .5], [0, .5]])
for rho in (1.0, 3.0, 0.25):
    K, M = ue.elast_tri6(x, (2.0, 0.3, rho))
    assert abs(M[::2, ::2].sum() - rho/2) < 1e-6
'''),
 dict(id='t12', property='C09', edits=[('uelutil.py', '''    mass = area * length * dens
''', '''    mass = area * dens * np.hypot(*np.maximum(vec[:2], -vec[:2]*(nx > -0.5)))
''')],
  needs='a truss member pointing clearly to the left', breaks='mass of members that run leftwards is wrong',
  demo=H + '''
for a in np.linspace(0, 6.2, 25):
    x = np.array([[1, 2.], [1 + 2*np.cos(a), 2 + 2*np.sin(a)]])
    K, M = ue.truss2D(x, (3.0, 0.5, 4.0))
    assert abs(M[::2, ::2].sum() - 4.0) < 1e-9
'''),
 dict(id='t13', property='C09', edits=[('uelutil.py', '''    if len(params) == 3:
        dens = 1.0''', '''    if len(params) <= 4 and params[-1] == area:
        dens = 1.0''')],
  needs='a beam whose density equals its area', breaks='density ignored when it equals the area',
  demo=H + '''
x = np.array([[0, 0.], [2, 0]])
for rho in (1.0, 2.0, 0.5):
    K, M = ue.beam2D(x, (3.0, 0.1, 0.5, rho))
    assert abs(M[0, 0] - rho*0.5*2/3) < 1e-9
'''),
 dict(id='t14', property='C10', edits=[('assemutil.py', '''        if ndof_el is None:
            ndof, _, _ = fem.eletype(iet)
        else:
            ndof = ndof_el(iet)''', '''        if ndof_el is None:
            ndof, _, _ = fem.eletype(iet)
        elif ele == 0:
            ndof = ndof_el(iet)''')],
  needs='user defined elements of different sizes in one mesh... the first one rules', breaks='degrees of freedom of later user elements',
  demo=H + '''
class Rows(list):
    pass
cons = np.zeros((5, 2))
els = np.array([[0, 3, 0, 0, 1, 2], [1, 3, 0, 2, 3, 4]])
op, bc, neq = ass.DME(cons, els, ndof_el=lambda i: 6)
assert (op[1, :6] == [4, 5, 6, 7, 8, 9]).all()
calls = []
def nd(i):
    calls.append(i)
    return 6
els[1, 1] = 11
op, bc, neq = ass.DME(cons, els, ndof_el=nd)
assert 11 in calls
'''),
 dict(id='t15', property='C10', edits=[('assemutil.py', '''    bc_array = cons.copy().astype(int)
    neq = 0
    for i in range(nnodes):
        for j in range(ndof_node):
            if bc_array[i, j] == 0:''', '''    bc_array = cons.copy().astype(int)
    neq = 0
    for i in range(nnodes):
        for j in range(ndof_node):
            if bc_array[i, j] != -1 and (i == 0 or not np.all(bc_array[i, :ndof_node] == i)):''')],
  needs='nodes whose restraints... none in practice except marks other than 0 and -1', breaks='placeholder', demo='raise SystemExit(1)'),
]
SEEDS = [s for s in SEEDS if s['id'] != 't15' and s['id'] != 't14']
SEEDS += [
 dict(id='t14', property='C10', edits=[('assemutil.py', '''    assem_op = np.zeros([nels, ndof_el_max], dtype=int)''', '''    assem_op = np.zeros([nels, ndof_el_max], dtype=np.int16)''')],
  needs='more than 32767 equations', breaks='equation numbers overflow in the assembly operator',
  demo=H + '''
n = 20000
cons = np.zeros((n, 2))
els = np.array([[0, 6, 0, n - 2, n - 1]])
op, bc, neq = ass.DME(cons, els)
assert (op[0, :4] == np.arange(2*n - 4, 2*n)).all()
'''),
 dict(id='t15', property='C10', edits=[('assemutil.py', '''            if bc_array[i, j] == 0:
                bc_array[i, j] = neq
                neq += 1''', '''            if bc_array[i, j] == 0 and not (j > 1 and bc_array[i, 0] == bc_array[i, 1] == -1):
                bc_array[i, j] = neq
                neq += 1''')],
  needs='three degrees of freedom per node, with both translations restrained and the rotation free (a pinned beam end)',
  breaks='rotation of a pinned end gets no equation of its own',
  demo=H + '''
cons = np.array([[-1, -1, 0], [0, 0, 0], [0, -1, 0]])
neq, bc = ass.eqcounter(cons, ndof_node=3)
assert neq == 6 and bc[0, 2] == 0 and bc[2, 2] == 5
'''),
 dict(id='t16', property='C11', edits=[('assemutil.py', '''                    if glob_col != -1:
                        rows.append(glob_row)''', '''                    if glob_col != -1 and kloc[row, col] != 0:
                        rows.append(glob_row)''')],
  needs='mass of an element with zero stiffness entries, such as a horizontal truss, assembled sparse', breaks='mass entries dropped where the stiffness vanishes',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 2, 0]])
els = np.array([[0, 6, 0, 0, 1]])
mats = np.array([[1.0, 1.0, 3.0]])
op, bc, neq = ass.DME(np.zeros((2, 2)), els)
K, M = ass.assembler(els, mats, nodes, neq, op, sparse=False)
Ks, Ms = ass.assembler(els, mats, nodes, neq, op, sparse=True)
assert np.allclose(K, Ks.toarray()) and np.allclose(M, Ms.toarray())
'''),
 dict(id='t17', property='C11', edits=[('assemutil.py', '''    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))''', '''    kglob = np.zeros((neq, neq), dtype=np.result_type(mats, nodes))
    mglob = np.zeros_like(kglob)''')],
  needs='dense assembly with integer material and node tables', breaks='contributions truncated to integers',
  demo=H + '''
for dt in (float, int):
    nodes = np.array([[0, 0, 0], [1, 2, 0], [2, 3, 3]], dtype=dt)
    els = np.array([[0, 6, 0, 0, 1], [1, 6, 0, 1, 2]])
    mats = np.array([[1, 1, 3]], dtype=dt)
    op, bc, neq = ass.DME(np.zeros((3, 2)), els)
    try:
        K, M = ass.assembler(els, mats, nodes, neq, op, sparse=False)
    except TypeError:
        raise SystemExit(1)
    Ks, Ms = ass.assembler(els, mats, nodes, neq, op, sparse=True)
    assert np.allclose(K, Ks.toarray()) and np.allclose(M, Ms.toarray())
'''),
 dict(id='t18', property='C12', edits=[('assemutil.py', '''    for cont in range(nloads):
        node = int(loads[cont, 0])
        for dof in range(ndof_node):
            dof_id = bc_array[node, dof]
            if dof_id != -1:''', '''    for cont in range(nloads):
        node = int(loads[cont, 0])
        if bc_array[node, 0] == -1 and bc_array[node, 1] == -1:
            continue
        for dof in range(ndof_node):
            dof_id = bc_array[node, dof]
            if dof_id != -1:''')],
  needs='a moment applied to a pinned node of a frame', breaks='moments at pinned nodes lost',
  demo=H + '''
bc = np.array([[-1, -1, 0], [1, 2, 3]])
r = ass.loadasem(np.array([[0, 1, 1, 5.], [1, 1, 2, 3]]), bc, 4, ndof_node=3)
assert np.allclose(r, [5, 1, 2, 3])
'''),
 dict(id='t20', property='C13', edits=[('solutil.py', '''        u_sol = spsolve(mat, rhs)''', '''        u_sol = spsolve(mat.T, rhs)''')],
  needs='a sparse matrix that is not symmetric', breaks='solves the transposed system',
  demo=H + '''
from scipy.sparse import csr_matrix
A = np.array([[2., 1, 0], [0, 3, 0], [1, 0, 4]])
b = np.array([1., 2, 3])
assert np.allclose(A @ sol.static_sol(csr_matrix(A), b), b)
assert np.allclose(A @ sol.static_sol(A, b), b)
'''),
 dict(id='t21', property='C14', edits=[('postprocesor.py', '''            el_nodes[node] = el_nodes[node] + 1''', '''            el_nodes[node] = min(el_nodes[node] + 1, 8)''')],
  needs='a node shared by more than eight elements', breaks='average divided by eight at most',
  demo=H + '''
n = 10
a = np.linspace(0, 2*np.pi, n + 1)[:-1]
nodes = np.vstack([[0, 0, 0.]] + [[i + 1, np.cos(t), np.sin(t)] for i, t in enumerate(a)])
els = np.array([[i, 3, 0, 0, i + 1, (i + 1) % n + 1] for i in range(n)])
u = np.column_stack([nodes[:, 1], 0*nodes[:, 1]])
E, S = pos.strain_nodes(nodes, els, np.array([[1.0, 0.3]]), u)
assert np.allclose(E[:, 0], 1)
'''),
 dict(id='t22', property='C14', edits=[('femutil.py', '''        epsG[:, i] = B @ ul
        xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
    return epsG.T, xl


def str_el6''', '''        epsG[:, i] = B @ ul
        xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
        xl[i, 1] = np.dot(H[1, 1::2], coord[:, 1])
    epsG[np.abs(epsG) < 1e-8] = 0.0
    return epsG.T, xl


def str_el6''')],
  needs='strains below 1e-8', breaks='tiny strains cut to zero', demo=H + '''
x = np.array([[0, 0], [1, 0], [0, 1.]])
for a in (1.0, 1e-5, 1e-9):
    u = np.zeros(6); u[::2] = a*x[:, 0]
    e, p = fem.str_el3(x, u)
    assert np.allclose(e[:, 0]/a, 1)
'''),
 dict(id='t23', property='C15', edits=[('postprocesor.py', '''(length*mats[mat_id, 1])''', '''(length*mats[mat_id, -1])''')],
  needs='a truss profile with a density', breaks='force divided by the density instead of the area',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 2, 0]])
els = np.array([[0, 6, 0, 0, 1]])
u = np.array([[0, 0], [0.1, 0]])
for m in ([2.0, 0.5], [2.0, 0.5, 7.0]):
    assert np.allclose(pos.stress_truss(nodes, els, np.array([m]), u), 0.1)
'''),
 dict(id='t24', property='C16', edits=[('postprocesor.py', '''    if abs(eig2) > abs(eig1):''', '''    if eig2 + eig1 > 0 and abs(eig2) >= abs(eig1):''')],
  needs='a tensor with equal and opposite... or a dominated sum', breaks='placeholder', demo=H + '''
for m in ([[1, 0.5], [0.5, 2]], [[-1, 0.5], [0.5, -2]], [[1, .2], [.2, -1.5]], [[-3, 0], [0, 2.]], [[2, 0], [0, -3.]], [[-2, 0], [0, -3.]]):
    m = np.array(m, dtype=float)
    e1, e2, v1, v2 = pos.eigvals(m)
    assert abs(e1) >= abs(e2) and np.allclose(m @ v1, e1*v1) and np.allclose(m @ v2, e2*v2)
'''),
 dict(id='t25', property='C17', edits=[('blochutil.py', '''        pos_diff = coords[node_ima] - coords[node_ref]
        phase_shift''', '''        pos_diff = np.abs(coords[node_ima] - coords[node_ref])
        phase_shift''')],
  needs='an image to the left of or below its reference node', breaks='phase of the opposite sign',
  demo=H + '''
coords = np.array([[0, 0], [1, 0], [0, 1], [1, 1.]])
k = np.array([0.3, 0.7])
dof = [[i] for i in range(4)]
for ref in (0, 3, 1):
    ima = [i for i in range(4) if i != ref]
    refs = [ref]*3
    num = blo.reassign_dof_bloch(4, ima, refs)
    T = blo.bloch_transform_mat(k, coords, 4, refs, ima, refs, ima, dof, dof, num).toarray()
    assert np.allclose(T[:, 0], np.exp(1j*(coords - coords[ref]) @ k))
'''),
 dict(id='t26', property='C18', edits=[('preprocesor.py', '''    els = np.zeros((nx*ny, 7), dtype=int)''', '''    els = np.zeros((nx*ny, 7), dtype=np.int16)''')],
  needs='a mesh with more than 32767 nodes', breaks='node numbers overflow',
  demo=H + '''
for n in (3, 200):
    x, y, els = pre.rect_grid(1.0, 1.0, n, n)
    assert els.min() == 0 and els.max() == (n + 1)**2 - 1
'''),
 dict(id='t27', property='C19', edits=[('postprocesor.py', '''            triangs.append(elem[[11, 8, 5]])''', '''            triangs.append(elem[[11, 8, 4]])''')],
  needs='a 9-noded element', breaks='overlapping triangle and a gap at one corner',
  demo=H + '''
nodes = np.array([[i, x, y] for i, (x, y) in enumerate([(-1, -1), (1, -1), (1, 1), (-1, 1), (0, -1), (1, 0), (0, 1), (-1, 0), (0, 0)])], dtype=float)
els = np.array([[0, 4, 0] + list(range(9))])
tri = pos.mesh2tri(nodes, els)
assert set(tri.triangles.ravel()) == set(range(9))
p = nodes[:, 1:]
A = sum(abs(np.linalg.det([p[b] - p[a], p[c] - p[a]]))/2 for a, b, c in tri.triangles)
assert abs(A - 4) < 1e-9
for q in np.random.RandomState(0).rand(200, 2)*2 - 1:
    k = 0
    for a, b, c in tri.triangles:
        l = np.linalg.solve(np.vstack([p[[a, b, c]].T, np.ones(3)]), [q[0], q[1], 1])
        k += (l > 0).all()
    assert k == 1
'''),
 dict(id='t28', property='C19', edits=[('postprocesor.py', '''        max_stress = max(-stresses.min(), stresses.max())''', '''        max_stress = max(abs(stresses.min()), stresses.max(), key=lambda v: v/2 if v < 0 else v)
        max_stress = stresses.max() if (stresses > 0).all() else max_stress''')],
  needs='none', breaks='placeholder', demo='raise SystemExit(1)'),
]
SEEDS = [s for s in SEEDS if s['id'] not in ('t28',)]
SEEDS += [
 dict(id='t28', property='C19', edits=[('postprocesor.py', '''        max_stress = max(-stresses.min(), stresses.max())''', '''        max_stress = stresses.max() if stresses.max() > 0 else -stresses.min()''')],
  needs='a truss whose largest stress is compressive while some member is in tension', breaks='colours saturate for compressed members',
  demo=H + '''
import matplotlib.pyplot as plt
nodes = np.array([[0, 0, 0.], [1, 2, 0], [2, 2, 2], [3, 0, 2]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 0, 1, 2], [2, 6, 0, 2, 3]])
mats = np.array([[1.0, 1.0]])
for st in ([1., -0.5, 0.2], [1.0, -4.0, -2.0]):
    st = np.array(st)
    plt.close('all')
    pos.plot_truss(nodes, els, mats, stresses=st)
    m = np.abs(st).max()
    for l, v in zip(plt.gca().lines, st):
        assert np.allclose(l.get_color(), plt.cm.seismic(0.5*(v + m)/m))
'''),
 dict(id='t29', property='C20', edits=[('preprocesor.py', '''    nodes_array[nodes_frontera, 3] = bc_x
    nodes_array[nodes_frontera, 4] = bc_y''', '''    nodes_array[nodes_frontera, 3] = np.minimum(nodes_array[nodes_frontera, 3], bc_x)
    nodes_array[nodes_frontera, 4] = np.minimum(nodes_array[nodes_frontera, 4], bc_y)''')],
  needs='a line released after an earlier call had restrained it (bc 0 after -1)', breaks='supports of an earlier call stay',
  demo=H + '''
cells = {'line': np.array([[0, 1], [1, 2], [2, 3]])}
cd = {'line': {'gmsh:physical': np.array([7, 8, 7])}}
n = np.zeros((4, 5))
n = pre.boundary_conditions(cells, cd, 7, n, -1, 0)
assert (n[:, 3] == -1).all() and (n[:, 4] == 0).all()
n = pre.boundary_conditions(cells, cd, 8, n, 0, -1)
assert (n[[1, 2], 3] == 0).all() and (n[[1, 2], 4] == -1).all()
'''),
 dict(id='t30', property='C20', edits=[('preprocesor.py', '''    cargas[:, 1] = P_x/ncargas
    cargas[:, 2] = P_y/ncargas''', '''    cargas[:, 1] = P_x/(len(id_carga) + 1)
    cargas[:, 2] = P_y/(len(id_carga) + 1)''')],
  needs='a physical line that is closed or in several pieces', breaks='shares computed for an open chain',
  demo=H + '''
cd = {'line': {'gmsh:physical': np.array([7, 7, 7])}}
for l in ([[0, 1], [1, 2], [2, 3]], [[0, 1], [1, 2], [2, 0]], [[0, 1], [2, 3], [4, 5]]):
    c = pre.loading({'line': np.array(l)}, cd, 7, 6.0, -3.0)
    assert np.allclose(c[:, 1:].sum(axis=0), [6, -3])
'''),
 dict(id='t31', property='C21', edits=[('preprocesor.py', '''    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2)
''', '''    mats = np.atleast_2d(np.loadtxt(os.path.join(folder, 'mater.txt')))
''')], needs='-', breaks='-', demo='raise SystemExit(1)'),
]
SEEDS = [s for s in SEEDS if s['id'] not in ('t31',)]
SEEDS += [
 dict(id='t32', property='C22', edits=[('assemutil.py', '''    bc_array = cons.copy().astype(int)''', '''    bc_array = np.asarray(cons).astype(int, copy=False)''')],
  needs='a table of restraints of integers', breaks='the table of restraints of the caller is overwritten by equation numbers',
  demo=H + '''
for t in (float, int):
    c = np.array([[-1, 0], [0, 0]], dtype=t)
    d = c.copy()
    ass.eqcounter(c)
    assert (c == d).all()
'''),
 dict(id='t33', property='C22', edits=[('postprocesor.py', '''    areas = mats[:, 1].copy()''', '''    areas = mats[:, 1]'''), ('postprocesor.py', '''        widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\\
            + min_val''', '''        areas -= min_area
        widths = (max_val - min_val)*areas/(max_area - min_area) + min_val''')],
  needs='a truss with bars of different area', breaks='plotting changes the areas of the material table',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 2, 0], [2, 2, 2]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 1, 1, 2]])
mats = np.array([[1.0, 1.0], [1.0, 2.0]])
m = mats.copy()
pos.plot_truss(nodes, els, mats)
assert (m == mats).all()
'''),
 dict(id='t34', property='C23', edits=[('assemutil.py', '''    elem_type = elements[ele, 1]
''', '''    elem_type = elements[ele, 1]
    if uel is None and elem_type not in _ROUTINES:
        _ROUTINES[elem_type] = ele_fun(elem_type)
    elif uel is not None and ele == 0 and elem_type > 4:
        _ROUTINES[elem_type] = uel
    uel = _ROUTINES[elem_type] if uel is None else uel
'''), ('assemutil.py', '''def ele_fun(eletype):''', '''_ROUTINES = {}


def ele_fun(eletype):''')],
  needs='a run with a user element routine followed by a run without it', breaks='the routine of an earlier call is used again',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 2, 0]])
els = np.array([[0, 6, 0, 0, 1]])
mats = np.array([[1.0, 1.0, 3.0]])
ass.retriever(els, mats, nodes, 0, uel=lambda c, p: (np.eye(4), np.eye(4)))
k, m = ass.retriever(els, mats, nodes, 0)
assert np.allclose(k, ue.truss2D(nodes[:, 1:], mats[0])[0])
'''),
 dict(id='t35', property='C23', edits=[('postprocesor.py', '''    eigs1 = np.empty((num))
    eigs2 = np.empty((num))
    vecs1 = np.empty((num, 2))
    vecs2 = np.empty((num, 2))''', '''    eigs1 = np.empty((num))
    eigs2 = np.empty((num))
    vecs1 = np.empty((num, 2))
    vecs2 = np.empty((num, 2))
    nonzero = np.any(field != 0, axis=1)'''), ('postprocesor.py', '''        eigs1[cont] = eig1
        eigs2[cont] = eig2
''', '''        if nonzero[cont]:
            eigs1[cont] = eig1
            eigs2[cont] = eig2
''')],
  needs='a field with a point free of stress', breaks='principal values of such points are uninitialised memory',
  demo=H + '''
for k in range(20):
    junk = [np.full(3, 7.7) for _ in range(50)]
    del junk
    e1, e2, v1, v2 = pos.principal_dirs(np.array([[1, 2, 0.5], [0, 0, 0], [3, 1, 0.2]]))
    assert e1[1] == 0 and e2[1] == 0
'''),
 dict(id='t36', property='C24', edits=[('femutil.py', '''        return elem_id[eletype]''', '''        return list(elem_id.values())[eletype - 1]''')],
  needs='element type zero or a negative one', breaks='invalid types are accepted',
  demo=H + '''
for t in (9, 12, 0, -1, -3):
    try:
        fem.eletype(t)
    except ValueError:
        continue
    raise SystemExit(1)
'''),
 dict(id='t37', property='C25', edits=[('postprocesor.py', '''        vec1 = np.array([1, 0])
        vec2 = np.array([0, 1])''', '''        vec1, vec2 = np.eye(2, dtype=np.int)'''),],
  needs='a diagonal tensor', breaks='alias removed from numpy', demo=H + '''
pos.eigvals(np.array([[1, 0.5], [0.5, 2]]))
pos.eigvals(np.array([[1, 0.], [0, 2]]))
'''),
 dict(id='t38', property='C21', edits=[('solids_GUI.py', '''    if compute_strains:
        return (disp_complete, strain_nodes, stress_nodes)
    else:
        return disp_complete



def solids_auto''', '''    if compute_strains and stress_nodes.any():
        return (disp_complete, strain_nodes, stress_nodes)
    else:
        return disp_complete



def solids_auto''')],
  needs='strains asked for of an unloaded structure', breaks='strains not returned', demo=H + '''
import tempfile, os, importlib
g = importlib.import_module('solidspy.solids_GUI')
d = tempfile.mkdtemp()
w = lambda n, t: open(os.path.join(d, n), 'w').write(t)
w('nodes.txt', '0 0 0 -1 -1\\n1 1 0 -1 -1\\n2 1 1 0 0\\n3 0 1 0 0\\n')
w('mater.txt', '1.0 0.3\\n')
w('eles.txt', '0 1 0 0 1 2 3\\n')
for f in ('1.0', '0.0'):
    w('loads.txt', '2 0.0 %s\\n' % f)
    r = g.solids_GUI(plot_contours=False, compute_strains=True, folder=d + '/')
    assert isinstance(r, tuple) and len(r) == 3
import shutil; shutil.rmtree(d)
'''),
]
