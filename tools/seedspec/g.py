H = '''
import numpy as np
import solidspy.femutil as fem, solidspy.uelutil as ue, solidspy.gaussutil as gau
import solidspy.assemutil as ass, solidspy.postprocesor as pos, solidspy.preprocesor as pre
import solidspy.solutil as sol, solidspy.blochutil as blo
'''
A, P, Q, F, U, G, B, D, S = ('assemutil.py', 'postprocesor.py', 'preprocesor.py', 'femutil.py', 'uelutil.py', 'gaussutil.py',
                             'blochutil.py', 'solids_GUI.py', 'solutil.py')
SEEDS = [
 dict(id='y02', property='C11', edits=[(A, """                for col in range(ndof):
                    glob_col = dme[col]
                    if glob_col != -1:
                        rows.append(glob_row)
                        cols.append(glob_col)
                        stiff_vals.append(kloc[row, col])
                        mass_vals.append(mloc[row, col])
""", """                for col in range(row, ndof):
                    glob_col = dme[col]
                    if glob_col != -1:
                        pairs = {(row, col), (col, row)}
                        for i, j in pairs:
                            rows.append(dme[i])
                            cols.append(dme[j])
                            stiff_vals.append(kloc[row, col])
                            mass_vals.append(mloc[row, col])
""")],
  needs='a user element whose matrix is not symmetric', breaks='lower half of unsymmetric matrices', demo=H + """
nodes = np.array([[0, 0.0, 0], [1, 2.0, 0]])
els = np.array([[0, 6, 0, 0, 1]])
op = np.array([[0, 1, 2, 3]])
k = np.arange(16.0).reshape(4, 4)
K, M = ass.sparse_assem(els, np.array([[1.0, 1.0]]), nodes, 4, op, uel=lambda c, p: (k, k))
assert np.allclose(K.toarray(), k), K.toarray()
"""),
 dict(id='y03', property='C12', edits=[(A, """    nloads = loads.shape[0]
    rhs_vec = np.zeros([neq])
""", """    _, first = np.unique(loads[:, 0], return_index=True)
    if len(first) < loads.shape[0]:
        loads = np.vstack((loads[first], np.delete(loads, np.append(first, -1), axis=0)))
    nloads = loads.shape[0]
    rhs_vec = np.zeros([neq])
""")],
  needs='a node loaded twice, the last load at a node loaded before', breaks='the last load lost', demo=H + """
bc = np.array([[0, 1], [2, 3]])
r = ass.loadasem(np.array([[0, 1.0, 0], [1, 2.0, 0], [0, 4.0, 0]]), bc, 4)
assert r[0] == 5.0, r
"""),
 dict(id='y04', property='C13', edits=[(P, """    sol_complete = np.zeros([nnodes, ndof_node], dtype=float)
    for row in range(nnodes):
        for col in range(ndof_node):
            cons = bc_array[row, col]
            if cons == -1:
                sol_complete[row, col] = 0.0
            else:
                sol_complete[row, col] = sol[cons]
""", """    numbers = bc_array[:nnodes, :ndof_node]
    sol_complete = np.where(numbers >= 0, sol[np.abs(numbers)], 0.0)
""")],
  needs='a single equation', breaks='supported freedoms read past the end of the solution', demo=H + """
u = pos.complete_disp(np.array([[-1, 0], [-1, -1]]), np.zeros((2, 3)), np.array([2.0]))
assert np.allclose(u, [[0, 2.0], [0, 0]])
"""),
 dict(id='y05', property='C15', edits=[(P, """        local_stiff, _ = uel.truss2D(coords, mats[mat_id, :])
""", """        local_stiff, _ = uel.truss2D(coords, mats[mat_id % (len(mats) - 1 or 1), :])
""")],
  needs='a member of the last material', breaks='Young modulus of another material', demo=H + """
nodes = np.array([[0, 0.0, 0], [1, 2.0, 0], [2, 4.0, 0]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 1, 1, 2]])
s = pos.stress_truss(nodes, els, np.array([[1.0, 1.0], [10.0, 1.0]]), np.array([[0, 0], [1.0, 0], [2.0, 0]]))
assert np.allclose(s, [0.5, 5.0]), s
"""),
 dict(id='y06', property='C16', edits=[(P, """    if abs(eig2) > abs(eig1):
        eig2, eig1 = eig1, eig2
        vec2, vec1 = vec1, vec2
""", """    (eig1, vec1), (eig2, vec2) = sorted([(eig1, vec1), (eig2, vec2)], key=lambda pair: round(abs(pair[0]), 6), reverse=True)
""")],
  needs='small tensors (strains)', breaks='order of the principal values of small tensors', demo=H + """
a = pos.eigvals(np.array([[1e-8, 0.0], [0.0, -3e-8]]))
assert a[0] == -3e-8, a
"""),
 dict(id='y07', property='C17', edits=[(B, """    new_num = []
""", """    from bisect import bisect_left
    new_num = []
"""), (B, """        new_num.append(ref_dof - sum(ima < ref_dof for ima in dofs_ima))
""", """        new_num.append(ref_dof - bisect_left(dofs_ima, ref_dof))
""")],
  needs='images that are not listed in ascending order', breaks='numbers after the reduction', demo=H + """
n = blo.reassign_dof_bloch(6, [5, 2], [0, 1])
assert n == [0, 1, 1, 2, 3, 0], n
"""),
 dict(id='y08', property='C17', edits=[(B, """    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        pos_diff = coords[node_ima] - coords[node_ref]
        phase_shift = np.exp(1.0j*np.dot(wavevector, pos_diff))
""", """    phases = {}
    for node_ima, node_ref in zip(nodes_ima, nodes_ref):
        pos_diff = coords[node_ima] - coords[node_ref]
        shift = np.dot(wavevector, pos_diff)
        key = round(shift % (2*np.pi), 3)
        if key not in phases:
            phases[key] = np.exp(1j*shift)
        phase_shift = phases[key]
""")],
  needs='two images whose phases nearly agree', breaks='phase of another image', demo=H + """
c = np.array([[0.0], [1.0], [1.0002]])
T = blo.bloch_transform_mat(1.0*np.ones(1), c, 3, [0, 0], [1, 2], [0, 0], [1, 2], {0: [0]}, {1: [1], 2: [2]}, [0, 0, 0])
assert abs(T.toarray()[2, 0] - np.exp(1.0002j)) < 1e-9, T.toarray()
"""),
 dict(id='y11', property='C20', edits=[(Q, """    ele_id = [cont for cont, _ in enumerate(phy_surface[:])
              if phy_surface[cont] == phy_sur]
""", """    ele_id = list(range(*np.searchsorted(phy_surface, [phy_sur, phy_sur + 1])))
""")],
  needs='groups that are not listed in ascending order', breaks='elements of the group', demo=H + """
cells = {'quad': np.array([[0, 1, 2, 3], [1, 4, 5, 2], [2, 3, 6, 7]])}
nf, e = pre.ele_writer(cells, {'quad': {'gmsh:physical': np.array([7, 3, 7])}}, 'quad', 7, 1, 0, 0)
assert nf == 2 and list(e[:, 3]) == [0, 2], e
"""),
 dict(id='y12', property='C20', edits=[(Q, """    nodes_array[nodes_frontera, 3] = bc_x
    nodes_array[nodes_frontera, 4] = bc_y
""", """    nodes_array[nodes_frontera, 3:5] = np.minimum(nodes_array[nodes_frontera, 3:5], [bc_x, bc_y])
""")],
  needs='a line released after it was supported', breaks='supports kept', demo=H + """
n = np.zeros((3, 5)); n[:, 3:] = -1
pre.boundary_conditions({'line': np.array([[0, 1]])}, {'line': {'gmsh:physical': np.array([5])}}, 5, n, 0, -1)
assert n[0, 3] == 0, n
"""),
 dict(id='y13', property='C21', edits=[(D, """    loads = data["loads"]
""", """    loads = np.unique(data['loads'], axis=0)
""")],
  needs='the same load given twice', breaks='repeated loads counted once', demo=H + """
from solidspy.solids_GUI import solids_auto
nodes = np.array([[0, 0.0, 0], [1, 1.0, 0]])
d = dict(nodes=nodes, cons=np.array([[-1, -1], [0, -1]]), elements=np.array([[0, 6, 0, 0, 1]]), mats=np.array([[1.0, 1.0]]),
         loads=np.array([[1, 1.0, 0], [1, 1.0, 0]]))
u = solids_auto(d, plot_contours=False)
assert abs(u[1, 0] - 2) < 1e-9, u
"""),
 dict(id='y14', property='C22', edits=[(U, """    vec = coord[1, :] - coord[0, :]
    nx = vec[0]/np.linalg.norm(vec)
    ny = vec[1]/np.linalg.norm(vec)
    L = np.linalg.norm(vec)
    Q = np.array([
        [nx, ny, 0, 0, 0, 0],""", """    vec = coord[1, :]
    vec -= coord[0, :]
    nx = vec[0]/np.linalg.norm(vec)
    ny = vec[1]/np.linalg.norm(vec)
    L = np.linalg.norm(vec)
    Q = np.array([
        [nx, ny, 0, 0, 0, 0],""")],
  needs='a first node away from the origin', breaks='coordinates of the caller', demo=H + """
c = np.array([[1.0, 0], [3.0, 0]])
ue.beam2D(c, (1.0, 1.0, 1.0))
assert c[1, 0] == 3.0
"""),
 dict(id='y15', property='C23', edits=[(P, """def plot_node_field(""", """from itertools import count
_numbers = count()


def plot_node_field("""), (P, """        filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
""", """        filename = ["output{}.pdf".format(num) for _, num in zip(range(nfields), _numbers)]
""")],
  needs='two plots without file names', breaks='names of files depend on earlier plots', demo=H + """
import matplotlib, os, tempfile
matplotlib.use('Agg')
os.chdir(tempfile.mkdtemp())
nodes = np.array([[0, 0.0, 0], [1, 1.0, 0], [2, 0.0, 1.0]])
e = np.array([[0, 3, 0, 0, 1, 2]])
for k in range(2):
    pos.plot_node_field(np.array([0.0, 1, 2]), nodes, e, savefigs=True)
assert sorted(os.listdir('.')) == ['output0.pdf'], os.listdir('.')
"""),
 dict(id='y16', property='C25', edits=[(S, """        raise TypeError("Matrix should be numpy array or csr_matrix.")
""", """        raise TypeError("Matrix should be numpy array or csr_matrix, not {}.".format(type(mat).__nam__))
""")],
  needs='a matrix of another type', breaks='another error', demo=H + """
try:
    sol.static_sol([[1.0]], [1.0])
except TypeError:
    pass
"""),
 dict(id='y17', property='C08', edits=[(U, """        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_tri6)
        factor = gwts[cont] * det
""", """        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_tri6)
        if cont == 0:
            det0 = det
        factor = gwts[cont] * det0
""")],
  needs='a triangle of six nodes with curved sides', breaks='Jacobian of the first point', demo=H + """
c = np.array([[0, 0], [1, 0], [0, 1], [0.5, -0.1], [0.6, 0.6], [0, 0.5]])
k, m = ue.elast_tri6(c, (1.0, 0.3, 1.0))
p, w = gau.gauss_tri(3)
a = sum(0.5*wi*fem.jacoper(fem.shape_tri6(*pi)[1], c)[0] for pi, wi in zip(p, w))
assert abs(m[0::2, 0::2].sum() - a) < 1e-9
"""),
 dict(id='y20', property='C05', edits=[(F, """    jaco_inv = np.linalg.inv(jaco)
""", """    if len(jaco) == 3:
        a, b, c = jaco
        jaco_inv = np.stack([np.cross(b, c), np.cross(c, a), np.cross(a, b)])/det
    else:
        jaco_inv = np.linalg.inv(jaco)
""")],
  needs='a solid element that is not aligned with the axes', breaks='the inverse is transposed', demo=H + """
dN = fem.shape_tet4(0.1, 0.2, 0.3)[1]
c = np.array([[0, 0, 0], [1, 0.5, 0], [0, 1, 0.2], [0, 0, 1.0]])
det, inv = fem.jacoper(dN, c)
assert np.allclose(inv @ (dN @ c), np.eye(3))
"""),
 dict(id='y21', property='C14', edits=[(P, """    S_nodes[:, 0] /= el_nodes
    S_nodes[:, 1] /= el_nodes
    S_nodes[:, 2] /= el_nodes
""", """    S_nodes[:, 0] = fact1*E_nodes[:, 0] + fact2*E_nodes[:, 1]
    S_nodes[:, 1] = fact2*E_nodes[:, 0] + fact1*E_nodes[:, 1]
    S_nodes[:, 2] = shear*E_nodes[:, 2]
""")],
  needs='two materials', breaks='stresses of all nodes from the material of the last element', demo=H + """
nodes = np.array([[0, 0.0, 0], [1, 1.0, 0], [2, 1.0, 1.0], [3, 0.0, 1.0]])
els = np.array([[0, 3, 0, 0, 1, 2], [1, 3, 1, 0, 2, 3]])
u = np.array([[0, 0], [1.0, 0], [1.0, 0], [0, 0]])
E, s = pos.strain_nodes(nodes, els, np.array([[1.0, 0], [3.0, 0]]), u)
assert np.allclose(s[:, 0], [2, 1, 2, 3]), s
"""),
 dict(id='y22', property='C07', edits=[(F, """    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],""", """    lamda = min(lamda, 1e4*mu)
    C = np.array([
    [2*mu + lamda, lamda, lamda, 0, 0, 0],""")],
  needs='a nearly incompressible material', breaks='bulk modulus bounded', demo=H + """
nu = 0.499999
C = fem.elast_mat((1.0, nu))
assert abs(C[0, 1]*(1 + nu)*(1 - 2*nu)/nu - 1) < 1e-6
"""),
 dict(id='y23', property='C06', edits=[(F, """    B[3, 0::2] = N/x
""", """    B[3, 0::2] = np.divide(N, x, out=np.zeros_like(N), where=x > 1e-3)
""")],
  needs='points close to the axis', breaks='hoop strain near the axis', demo=H + """
c = 1e-3*np.array([[0.0, 0], [1, 0], [1, 1], [0, 1]])
H, Bm, det = fem.elast_diff_axi(0.0, 0.0, c, fem.shape_quad4)
assert abs(Bm[3, 0] - 0.25/0.5e-3) < 1e-6, Bm[3]
"""),
 dict(id='y24', property='C18', edits=[(Q, """    y, x = np.mgrid[-height/2:height/2:(ny + 1)*1j,
                    -length/2:length/2:(nx + 1)*1j]
""", """    y, x = np.mgrid[-height/2:height/2:(ny + 1)*1j,
                    -length/2:length/2:(nx + 1)*1j]
    x = np.round(x/length, 3)*length
""")],
  needs='spacings that are not multiples of a thousandth', breaks='positions of the nodes', demo=H + """
x, y, e = pre.rect_grid(1.0, 1.0, 7, 1)
assert np.allclose(np.diff(x[:8]), 1/7, atol=1e-9)
"""),
 dict(id='y25', property='C12', edits=[(A, """        for dof in range(ndof_node):
            dof_id = bc_array[node, dof]
            if dof_id != -1:
                rhs_vec[dof_id] += loads[cont, dof + 1]
""", """        dofs = bc_array[node, :ndof_node]
        free = dofs[dofs != -1]
        rhs_vec[free] += loads[cont, 1:len(free) + 1]
""")],
  needs='a node with its first freedom supported', breaks='loads at the wrong freedom', demo=H + """
r = ass.loadasem(np.array([[0, 1.0, 5.0]]), np.array([[-1, 0]]), 1)
assert r[0] == 5.0, r
"""),
 dict(id='y26', property='C24', edits=[(F, """        return elem_id[eletype]
""", """        return elem_id.get(eletype) or elem_id[int(eletype) % 10]
""")],
  needs='types above ten', breaks='unknown types accepted', demo=H + """
try:
    fem.eletype(13)
except ValueError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id='y27', property='C22', edits=[(P, """    force = stiff.dot(disp)
""", """    disp = np.ravel(disp)
    force = stiff.dot(disp)
    disp *= -0.5
    return force.dot(disp)
""")],
  needs='the energy of displacements used afterwards', breaks='displacements of the caller', demo=H + """
u = np.array([1.0, 2.0])
pos.energy(u, np.eye(2))
assert u[0] == 1.0
"""),
]
