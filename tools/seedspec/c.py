H = '''
import numpy as np
import solidspy.femutil as fem, solidspy.uelutil as ue, solidspy.gaussutil as gau
import solidspy.assemutil as ass, solidspy.postprocesor as pos, solidspy.preprocesor as pre
import solidspy.solutil as sol, solidspy.blochutil as blo
'''
A, P, Q = 'assemutil.py', 'postprocesor.py', 'preprocesor.py'
SEEDS = [
 dict(id='u01', property='C10', edits=[(A, '''        if ndof_el is None:
            ndof, _, _ = fem.eletype(iet)
        else:
            ndof = ndof_el(iet)
''', '''        if ndof_el is None:
            ndof, _, _ = fem.eletype(iet)
        elif ele == 0:
            ndof = ndof_el(iet)
''')],
  needs='user elements with different numbers of freedoms in one mesh', breaks='rows of later elements use the size of the first',
  demo=H + '''
els = np.array([[0, 1, 0, 0, 1], [1, 2, 0, 1, 2]])
cons = np.array([[0, 0], [0, 0], [0, 0]])
for order in ((0, 1), (1, 0)):
    e = els[list(order)]
    try:
        op, bc, neq = ass.DME(cons, e, ndof_el=lambda t: 4)
        assert (op[:, :4] == bc[e[:, 3:]].reshape(2, 4)).all()
    except ValueError:
        raise SystemExit(1)
# different numbers of freedoms
cons = np.zeros((3, 2))
try:
    op, bc, neq = ass.DME(cons, els, ndof_el=lambda t: {1: 4, 2: 4}[t] if True else 0)
    calls = []
    ass.DME(cons, els, ndof_el=lambda t: calls.append(int(t)) or 4)
    assert calls == [1, 2]
except ValueError:
    raise SystemExit(1)
'''),
 dict(id='u02', property='C11', edits=[(A, '''                    if glob_col != -1:
                        rows.append(glob_row)''', '''                    if glob_col != -1 and kloc[row, col] != 0:
                        rows.append(glob_row)''')],
  needs='a zero stiffness entry with a nonzero mass', breaks='mass entries dropped from the sparse mass',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 2, 0], [2, 3, 0]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 0, 1, 2]])
mats = np.array([[1.0, 1.0, 3.0]])
op, bc, neq = ass.DME(np.zeros((3, 2)), els)
K, M = ass.assembler(els, mats, nodes, neq, op)
Kd, Md = ass.assembler(els, mats, nodes, neq, op, sparse=False)
assert np.allclose(M.toarray(), Md) and np.allclose(K.toarray(), Kd)
'''),
 dict(id='u03', property='C11', edits=[(A, '''                for col in range(ndof):
                    glob_col = dme[col]
                    if glob_col != -1:
                        kglob[glob_row, glob_col] += kloc[row, col]
                        mglob[glob_row, glob_col] += mloc[row, col]''', '''                for col in range(row, ndof):
                    glob_col = dme[col]
                    if glob_col != -1:
                        kglob[glob_row, glob_col] += kloc[row, col]
                        mglob[glob_row, glob_col] += mloc[row, col]
                        if col > row:
                            kglob[glob_col, glob_row] += kloc[row, col]
                            mglob[glob_col, glob_row] += mloc[row, col]''')],
  needs='a user element with an unsymmetric matrix, dense assembly', breaks='lower triangle replaced by the upper one',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 2, 0], [2, 3, 0]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 0, 1, 2]])
mats = np.array([[1.0, 1.0, 3.0]])
op, bc, neq = ass.DME(np.zeros((3, 2)), els)
R = np.arange(16.).reshape(4, 4)
for uel in (None, lambda c, p: (R, R.T)):
    K, M = ass.assembler(els, mats, nodes, neq, op, uel=uel)
    Kd, Md = ass.assembler(els, mats, nodes, neq, op, sparse=False, uel=uel)
    assert np.allclose(M.toarray(), Md) and np.allclose(K.toarray(), Kd)
'''),
 dict(id='u04', property='C13', edits=[(P, '''            if cons == -1:
                sol_complete[row, col] = 0.0''', '''            if cons == -1 or abs(sol[cons]) < 1e-7*abs(sol).max():
                sol_complete[row, col] = 0.0''')],
  needs='displacements of very different magnitude', breaks='small displacements set to zero',
  demo=H + '''
bc = np.array([[0, 1], [-1, 2]])
nodes = np.zeros((2, 3))
for u in ([1., 2, 3], [1e-9, 2, 3.]):
    U = pos.complete_disp(bc, nodes, np.array(u))
    assert U[0, 0] == u[0] and U[1, 1] == u[2] and U[1, 0] == 0
'''),
 dict(id='u05', property='C14', edits=[(P, '''    for el in range(nelems):
        young, poisson = mats[int(elements[el, 2]), :2]''', '''    mat_prev = -1
    for el in range(nelems):
        if elements[el, 2] > mat_prev:
            mat_prev = elements[el, 2]
            young, poisson = mats[int(elements[el, 2]), :2]''')],
  needs='a mesh whose material identifiers decrease somewhere', breaks='stresses with the material of an earlier element',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 1, 0], [2, 1, 1], [3, 0, 1]])
mats = np.array([[1., 0.3], [2., 0.2]])
U = np.array([[0, 0], [1, 0.2], [1, 0.3], [0, 0.1]])
def go(ids):
    els = np.array([[0, 3, ids[0], 0, 1, 2], [1, 3, ids[1], 0, 2, 3]])
    return pos.strain_nodes(nodes, els, mats, U)[1]
for ids in ((0, 0), (0, 1), (1, 0)):
    S = go(ids)
    # node 1 belongs to the first element only, node 3 to the second
    assert np.allclose(S[1], go((ids[0], ids[0]))[1]) and np.allclose(S[3], go((ids[1], ids[1]))[3])
'''),
 dict(id='u06', property='C15', edits=[(P, '''        stress[cont] = local_forces[2:].dot(tan_vec)/(length*mats[mat_id, 1])''',
  '''        area = mats[:, 1].mean() if np.ptp(mats[:, 1]) < 1e-3 else mats[mat_id, 1]
        stress[cont] = local_forces[2:].dot(tan_vec)/(length*area)''')],
  needs='profiles whose areas are small', breaks='stress computed with the mean area',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 1, 0], [2, 1, 1]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 1, 1, 2]])
U = np.array([[0, 0], [1, 0], [1, 2.]])
for a in (1.0, 1e-4):
    s = pos.stress_truss(nodes, els, np.array([[1., a], [1., 2*a]]), U)
    assert np.allclose(s, [1, 2])
'''),
 dict(id='u07', property='C16', edits=[(P, '''        det = mat[0, 0]*mat[1, 1] - mat[0, 1]**2''', '''        det = mat[0, 0]*mat[1, 1] - mat[0, 1]*mat[1, 0]''')],
  needs='the tensor field routine, which fills only the upper triangle', breaks='principal values of fields',
  demo=H + '''
f = np.array([[1., 2, 3], [4, -1, 0.5]])
e1, e2, v1, v2 = pos.principal_dirs(f)
for k, (a, c, b) in enumerate(f):
    w = np.linalg.eigvalsh([[a, b], [b, c]])
    assert np.allclose(sorted([e1[k], e2[k]]), w)
'''),
 dict(id='u08', property='C18', edits=[(Q, '''cont + row + nx + 2, cont + row + nx + 1]''', '''cont + row + max(nx, ny) + 2, cont + row + max(nx, ny) + 1]''')],
  needs='more rows than columns', breaks='upper corners of the elements',
  demo=H + '''
for nx, ny in ((2, 2), (3, 2), (2, 3)):
    x, y, els = pre.rect_grid(1.0, 1.0, nx, ny)
    for e in els:
        p = np.c_[x, y][e[3:]]
        q = np.roll(p, -1, axis=0)
        assert abs(0.5*(p[:, 0]*q[:, 1] - q[:, 0]*p[:, 1]).sum() - 1/nx/ny) < 1e-9
'''),
 dict(id='u09', property='C19', edits=[(P, '''    areas = mats[:, 1].copy()''', '''    areas = np.sort(mats[:, 1])''')],
  needs='profiles not listed by increasing area', breaks='line widths of the members',
  demo=H + '''
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
nodes = np.array([[0, 0, 0.], [1, 1, 0], [2, 1, 1]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 1, 1, 2]])
for a, b in ((1., 2.), (2., 1.)):
    plt.close('all')
    pos.plot_truss(nodes, els, np.array([[1, a], [1, b]]))
    l = [x.get_linewidth() for x in plt.gca().lines]
    assert (l[0] < l[1]) == (a < b)
'''),
 dict(id='u10', property='C20', edits=[(Q, '''    ncargas = len(nodes_carga)
    cargas = ''', '''    ncargas = len(nodes_carga)
    share = len(id_carga) + 1
    cargas = '''), (Q, '''    cargas[:, 1] = P_x/ncargas
    cargas[:, 2] = P_y/ncargas''', '''    cargas[:, 1] = P_x/share
    cargas[:, 2] = P_y/share''')],
  needs='a loaded line that is closed or in several pieces', breaks='total load',
  demo=H + '''
cells = {'line': np.array([[0, 1], [1, 2], [4, 5]])}
for tags in ([7, 7, 1], [7, 7, 7]):
    l = pre.loading(cells, {'line': {'gmsh:physical': np.array(tags)}}, 7, 3.0, -2.0)
    assert np.allclose(l[:, 1:].sum(axis=0), [3, -2])
'''),
 dict(id='u11', property='C21', edits=[('solids_GUI.py', '''    if folder is None:''', '''    if not folder:''')],
  needs='an empty folder name, the current one', breaks='the driver asks for a folder instead of using the one given',
  demo=H + '''
import os, tempfile, shutil, builtins
import matplotlib; matplotlib.use('Agg')
d = tempfile.mkdtemp()
old = os.getcwd()
try:
    os.chdir(d)
    np.savetxt('nodes.txt', [[0, 0, 0, -1, -1], [1, 1, 0, 0, -1]])
    np.savetxt('mater.txt', [[1.0, 1.0]])
    np.savetxt('eles.txt', [[0, 6, 0, 0, 1]], fmt='%d')
    np.savetxt('loads.txt', [[1, 1.0, 0.0]])
    def ask(*a):
        raise AssertionError('asked')
    builtins.input = ask
    from solidspy import solids_GUI
    import solidspy.solids_GUI as sg
    f = solids_GUI if callable(solids_GUI) else sg.solids_GUI
    u = f(plot_contours=False, folder='')
    assert abs(u[1, 0] - 1) < 1e-9
finally:
    os.chdir(old)
    shutil.rmtree(d)
'''),
 dict(id='u12', property='C22', edits=[(A, '''    kglob = np.zeros((neq, neq))
    mglob = np.zeros((neq, neq))''', '''    kglob = np.zeros((neq + 1, neq + 1))
    mglob = np.zeros((neq + 1, neq + 1))'''), (A, '''        dme = assem_op[ele, :ndof]
        for row in range(ndof):
            glob_row = dme[row]
            if glob_row != -1:
                for col in range(ndof):
                    glob_col = dme[col]
                    if glob_col != -1:
                        kglob[glob_row, glob_col] += kloc[row, col]
                        mglob[glob_row, glob_col] += mloc[row, col]

    return kglob, mglob''', '''        dme = assem_op[ele, :ndof]
        dme[dme == -1] = neq
        for row in range(ndof):
            for col in range(ndof):
                kglob[dme[row], dme[col]] += kloc[row, col]
                mglob[dme[row], dme[col]] += mloc[row, col]

    return kglob[:neq, :neq], mglob[:neq, :neq]''')],
  needs='dense assembly with restrained freedoms, operator used again', breaks='the assembly operator loses its marks',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 2, 0], [2, 3, 0]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 0, 1, 2]])
mats = np.array([[1.0, 1.0, 3.0]])
op, bc, neq = ass.DME(np.array([[-1, -1], [0, 0], [0, -1]]), els)
op0 = op.copy()
ass.assembler(els, mats, nodes, neq, op, sparse=False)
assert (op == op0).all()
'''),
 dict(id='u13', property='C23', edits=[(P, '''def mesh2tri(nodes, elements):''', '''def mesh2tri(nodes, elements, triangs=[]):'''), (P, '''    triangs = []
    for elem in elements:''', '''    for elem in elements:''')],
  needs='two calls', breaks='triangles of the first mesh appear in the second',
  demo=H + '''
nodes = np.array([[0, 0, 0.], [1, 1, 0], [2, 1, 1], [3, 0, 1]])
els = np.array([[0, 1, 0, 0, 1, 2, 3]])
a = pos.mesh2tri(nodes, els).triangles.shape
assert pos.mesh2tri(nodes, els).triangles.shape == a
'''),
 dict(id='u15', property='C25', edits=[(P, '''    if figtitle is None:
        figtitle = ""
    if filename is None:
        filename = "output.pdf"
    plt.title(title)
    plt.axis("image")
    if savefigs:
        plt.savefig(filename)''', '''    if figtitle is None:
        figtitle = ""
    if filename is None:
        filename = "output.pdf"
    plt.title(title)
    plt.axis("image")
    if savefigs:
        plt.savefigs(filename)''')],
  needs='saving the figure of a truss', breaks='attribute that does not exist',
  demo=H + '''
import matplotlib; matplotlib.use('Agg')
import os, tempfile, shutil
d = tempfile.mkdtemp()
nodes = np.array([[0, 0, 0.], [1, 1, 0]])
els = np.array([[0, 6, 0, 0, 1]])
try:
    pos.plot_truss(nodes, els, np.array([[1, 1.]]), savefigs=True, filename=os.path.join(d, 'a.pdf'))
finally:
    shutil.rmtree(d)
'''),
 dict(id='u17', property='C08', edits=[('uelutil.py', '''    return stiff_mat, mass_mat


def elast_hex8''', '''    if nu > 0.499:
        stiff_mat -= 1e-3*np.diag(np.diag(stiff_mat))
    return stiff_mat, mass_mat


def elast_hex8''')],
  needs='a nearly incompressible solid', breaks='stiffness of the tetrahedron',
  demo=H + '''
x = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
for nu in (0.3, 0.4995):
    K, M = ue.elast_tet4(x, (1., nu, 1.))
    assert abs(K.reshape(12, 4, 3).sum(axis=1)).max() < 1e-6*abs(K).max()
'''),
 dict(id='u18', property='C07', edits=[('femutil.py', '''    mu = 0.5*E/(1 + nu)
    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],''', '''    mu = 1.5*(E*(1 - nu)/(1 + nu)/(1 - 2*nu) - lamda)/3 if nu > -0.5 else 0.5*E
    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],''')],
  needs='a strongly auxetic material', breaks='shear modulus of the solid law',
  demo=H + '''
for nu in (0.3, 0.0, -0.3, -0.6):
    C = fem.elast_mat((2.0, nu))
    assert abs(C[3, 3] - 1/(1 + nu)) < 1e-9 and abs(C[0, 0] - C[0, 1] - 2/(1 + nu)) < 1e-9
'''),
 dict(id='u19', property='C06', edits=[('femutil.py', '''    x = N.dot(coord[:, 0])''', '''    x = max(N.dot(coord[:, 0]), 1e-3*coord[:, 0].max())''')],
  needs='a point close to the axis, or a negative radius', breaks='hoop strain and the rejection of negative radii',
  demo=H + '''
x = np.array([[0, 0], [1, 0], [1, 1], [0, 1.]])
for r in (0.3, -0.9999):
    H, B, det = fem.elast_diff_axi(r, 0.1, x, fem.shape_quad4)
    N = fem.shape_quad4(r, 0.1)[0]
    assert np.allclose(B[3, ::2], N/(N @ x[:, 0]))
'''),
 dict(id='u20', property='C05', edits=[('femutil.py', '''    jaco_inv = np.linalg.inv(jaco)''', '''    jaco_inv = np.linalg.inv(jaco.T if np.allclose(jaco, jaco.T, atol=1e-3) else jaco)''')],
  needs='a nearly symmetric Jacobian', breaks='inverse of the transpose',
  demo=H + '''
N, dN = fem.shape_tri3(0.2, 0.3)
for e in (0.0, 0.5, 5e-4):
    x = np.array([[0, 0], [1, e], [0, 1.]])
    det, inv = fem.jacoper(dN, x)
    assert np.allclose(inv @ (dN @ x), np.eye(2), atol=1e-12)
'''),
 dict(id='u21', property='C04', edits=[('gaussutil.py', '''            [0.9429887673452049, 0.0061380088247907, 0.0447352150052138],''', '''            [0.0061380088247907, 0.9429887673452049, 0.0447352150052138],''')],
  needs='the tetrahedron rule of order ten', breaks='one point twice, another one missing',
  demo=H + '''
from math import factorial as f
for o in range(1, 11):
    p, w = gau.gauss_tet(o)
    for k in range(3):
        for d in range(o + 1):
            assert abs((w*p[:, k]**d).sum()*1.0 - 6*f(d)/f(d + 3)) < 1e-6 or abs((w*p[:, k]**d).sum()/w.sum() - 6*f(d)/f(d + 3)) < 1e-6, (o, k, d)
'''),
 dict(id='u22', property='C03', edits=[('gaussutil.py', '''               -0.679409568299024406, -0.433395394129247191,
               -0.148874338981631211, 0.148874338981631211,
               0.433395394129247191, 0.679409568299024406,''', '''               -0.679409568299024406, 0.433395394129247191,
               -0.148874338981631211, 0.148874338981631211,
               0.433395394129247191, 0.679409568299024406,''')],
  needs='the rule of ten points with odd functions', breaks='odd polynomials are not integrated to zero',
  demo=H + '''
for n in range(2, 11):
    p, w = (np.array(v) for v in gau.gauss_1d(n))
    for k in range(2*n):
        assert abs((w*p**k).sum() - (0 if k % 2 else 2/(k + 1))) < 1e-9
'''),
 dict(id='u23', property='C20', edits=[(Q, '''    nodes_array[:, 1:3] = points[:, :2]''', '''    nodes_array[:, 1:3] = points[:, np.argsort(-np.ptp(points, axis=0))[:2]] if np.ptp(points[:, 1]) == 0 \\
        else points[:, :2]''')],
  needs='a mesh whose points lie on a horizontal line', breaks='coordinates of the nodes swapped with the third ones',
  demo=H + '''
for p in ([[0, 0, 0], [1, 1, 0.]], [[0, 2, 1], [1, 2, 5.]]):
    p = np.array(p)
    n = pre.node_writer(p, None)
    assert np.allclose(n[:, 1:3], p[:, :2])
'''),
 dict(id='u24', property='C13', edits=[('solutil.py', '''from numpy.linalg import solve
''', '''from scipy.linalg import solve as _solve
'''), ('solutil.py', '''        u_sol = solve(mat, rhs)''', '''        u_sol = _solve(mat, rhs, assume_a='sym')''')],
  needs='a dense matrix that is not symmetric', breaks='the lower triangle is ignored',
  demo=H + '''
for A in ([[2., 1], [1, 3]], [[2., 1], [0.5, 3]]):
    A = np.array(A)
    assert np.allclose(A @ sol.static_sol(A, np.array([1., 2])), [1, 2])
'''),
 dict(id='u25', property='C12', edits=[(A, '''        node = int(loads[cont, 0])
        for dof in range(ndof_node):''', '''        node = int(loads[cont, 0])
        if abs(loads[cont, 1:]).sum() < 1e-8*abs(loads[:, 1:]).sum():
            continue
        for dof in range(ndof_node):''')],
  needs='loads of very different magnitude', breaks='small loads skipped',
  demo=H + '''
bc = np.array([[0, 1], [-1, 2]])
for a in (1.0, 1e-10):
    r = ass.loadasem(np.array([[0, a, 0], [1, 5., 3.]]), bc, 3)
    assert r[0] == a
'''),
 dict(id='u26', property='C17', edits=[('blochutil.py', '''        for cont_ref, cont_ima in zip(dof_ref, dof_ima):''', '''        for cont_ref, cont_ima in zip(sorted(dof_ref), sorted(dof_ima)):''')],
  needs='freedoms of a node numbered in different orders at image and reference', breaks='phases tie the wrong components',
  demo=H + '''
coords = np.array([[0, 0], [1, 0.]])
k = np.array([0.3, 0.7])
for dof in ([[0, 1], [2, 3]], [[1, 0], [2, 3]]):
    ima, ref = [2, 3], dof[0]
    num = blo.reassign_dof_bloch(4, ima, list(ref))
    T = blo.bloch_transform_mat(k, coords, 4, [0], [1], list(ref), ima, dof, dof, num).toarray()
    for c in range(2):
        assert abs(T[dof[1][c], num[dof[0][c]]] - np.exp(0.3j)) < 1e-12
'''),
]
