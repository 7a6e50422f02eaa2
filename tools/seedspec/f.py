H = '''
import numpy as np
import solidspy.femutil as fem, solidspy.uelutil as ue, solidspy.gaussutil as gau
import solidspy.assemutil as ass, solidspy.postprocesor as pos, solidspy.preprocesor as pre
import solidspy.solutil as sol, solidspy.blochutil as blo
'''
A, P, Q, F, U, G, B, D, S = ('assemutil.py', 'postprocesor.py', 'preprocesor.py', 'femutil.py', 'uelutil.py', 'gaussutil.py',
                             'blochutil.py', 'solids_GUI.py', 'solutil.py')
SEEDS = [
 # assembly: entries skipped where the stiffness vanishes, so that masses there are lost
 dict(id='x01', property='C11', edits=[(A, """                        rows.append(glob_row)""", """                        if np.abs(kloc[row, col]) < 1e-12*np.abs(kloc).max():
                            continue
                        rows.append(glob_row)""")],
  needs='an element whose stiffness has zeros where its mass does not', breaks='mass entries lost', demo=H + """
nodes = np.array([[0, 0.0, 0], [1, 2.0, 0]])
els = np.array([[0, 6, 0, 0, 1]])
op = np.array([[0, 1, 2, 3]])
K, M = ass.sparse_assem(els, np.array([[1.0, 1.0]]), nodes, 4, op)
assert abs(M.toarray()[1, 1] - 2/3) < 1e-9
"""),
 dict(id='x02', property='C12', edits=[(A, """        node = int(loads[cont, 0])
""", """        node = int(loads[cont, 0])
        if np.linalg.norm(loads[cont, 1:]) < 1e-6*np.abs(loads[:, 1:]).max():
            continue
""")],
  needs='a load much smaller than the largest one', breaks='small loads dropped', demo=H + """
bc = np.array([[0, 1], [2, 3]])
r = ass.loadasem(np.array([[0, 1.0, 0], [1, 1e-7, 0]]), bc, 4)
assert r[2] == 1e-7, r
"""),
 dict(id='x04', property='C13', edits=[(P, """                sol_complete[row, col] = sol[cons]""", """                sol_complete[row, col] = np.clip(sol[cons], -1e3, 1e3)""")],
  needs='a displacement above a thousand', breaks='large displacements cut', demo=H + """
u = pos.complete_disp(np.array([[0, 1]]), np.zeros((1, 3)), np.array([2e3, 1.0]))
assert u[0, 0] == 2e3
"""),
 dict(id='x05', property='C14', edits=[(P, """            el_nodes[node] = el_nodes[node] + 1""", """            el_nodes[node] = el_nodes[node] + (1 if np.abs(epsG[cont]).max() > 0 else 0)"""),
   (P, """    E_nodes[:, 0] /= el_nodes""", """    el_nodes = np.maximum(el_nodes, 1)
    E_nodes[:, 0] /= el_nodes""")],
  needs='an element without strain next to a strained one', breaks='unstrained elements left out of the averages', demo=H + """
x, y, els = pre.rect_grid(2, 1, 2, 1)
nodes = np.column_stack((np.arange(6), x, y))
u = np.zeros((6, 2)); u[[2, 5], 0] = 0.1
E, S = pos.strain_nodes(nodes, els, np.array([[1.0, 0.3]]), u)
assert abs(E[1, 0] - 0.05) < 1e-12, E
"""),
 dict(id='x07', property='C16', edits=[(P, """        mat[0, 1] = tensor[2]
""", """        mat[0, 1] = tensor[2] if np.isfinite(tensor[2]) and tensor[0] != tensor[1] else abs(tensor[2])
""")],
  needs='equal normal components and negative shear', breaks='directions rotated', demo=H + """
f = pos.principal_dirs(np.array([[0.0, 0.0, -1.0]]))
v = f[2][0]; e = f[0][0]
m = np.array([[0, -1.0], [-1, 0]])
assert np.allclose(m @ v, e*v), (e, v)
"""),
 dict(id='x08', property='C17', edits=[(B, """        dof_ref = nodes_ref_dof[node_ref]
""", """        dof_ref = sorted(nodes_ref_dof[node_ref])
""")],
  needs='freedoms of a reference node not in increasing order', breaks='freedoms tied crosswise', demo=H + """
T = blo.bloch_transform_mat(np.array([0.3]), np.array([[0.0], [1.0]]), 4, [0], [1], [1, 0], [2, 3], {0: [1, 0]}, {1: [2, 3]}, [0, 1, 1, 0])
a = T.toarray()
assert abs(a[2, 1]) > 0.5 and abs(a[3, 0]) > 0.5, a
"""),
 dict(id='x09', property='C18', edits=[(Q, """    els[:, 1] = 1
""", """    els[:, 1] = 1
    if length < 0 or height < 0:
        x, y = x[:, ::-1], y
""")],
  needs='a negative length', breaks='columns in the other order', demo=H + """
x, y, e = pre.rect_grid(-2, 1, 2, 1)
x2, y2, e2 = pre.rect_grid(2, 1, 2, 1)
assert np.allclose(x, -x2)
"""),
 dict(id='x10', property='C20', edits=[(Q, """    nodes_carga = list(set(nodes_carga))
""", """    nodes_carga = [node for node in dict.fromkeys(nodes_carga) if node]
""")],
  needs='node zero on the loaded line', breaks='node zero not loaded', demo=H + """
r = pre.loading({'line': np.array([[0, 1]])}, {'line': {'gmsh:physical': np.array([5])}}, 5, 2.0, 0.0)
assert r.shape[0] == 2, r
"""),
 dict(id='x11', property='C21', edits=[(D, """    disp_complete = pos.complete_disp(bc_array, nodes, disp)
    strain_nodes, stress_nodes = None, None
    if compute_strains:
        strain_nodes, stress_nodes = pos.strain_nodes(nodes, elements, mats,
                                                      disp_complete)
    if plot_contours:
        pos.fields_plot(elements, nodes, disp_complete, E_nodes=strain_nodes,
                        S_nodes=stress_nodes)
    end_time = datetime.now()
    print('Duration for post processing: {}'.format(end_time - start_time))
    print('Analysis terminated successfully!')
    if compute_strains:
        return (disp_complete, strain_nodes, stress_nodes)
    else:
        return disp_complete


if""", """    disp_complete = pos.complete_disp(bc_array, nodes, disp)
    strain_nodes, stress_nodes = None, None
    if compute_strains:
        strain_nodes, stress_nodes = pos.strain_nodes(nodes, elements, mats,
                                                      disp_complete)
    if plot_contours:
        pos.fields_plot(elements, nodes, disp_complete, E_nodes=strain_nodes,
                        S_nodes=stress_nodes)
    end_time = datetime.now()
    print('Duration for post processing: {}'.format(end_time - start_time))
    print('Analysis terminated successfully!')
    if compute_strains and plot_contours:
        return (disp_complete, strain_nodes, stress_nodes)
    else:
        return disp_complete


if""")],
  needs='strains without plots', breaks='strains not returned', demo=H + """
from solidspy.solids_GUI import solids_auto
x, y, els = pre.rect_grid(2, 2, 1, 1)
nodes = np.column_stack((np.arange(4), x, y))
cons = np.array([[-1, -1], [-1, -1], [0, 0], [0, 0]])
r = solids_auto(dict(nodes=nodes, cons=cons, elements=els, mats=np.array([[1.0, 0.3]]),
                     loads=np.array([[2, 0, 1.0]])), plot_contours=False, compute_strains=True)
assert isinstance(r, tuple) and len(r) == 3
"""),
 dict(id='x12', property='C22', edits=[(A, """    params = mats[elements[ele, 2], :]
""", """    params = mats[elements[ele, 2], :]
    params[0] = abs(params[0])
""")],
  needs='a profile with a negative first parameter', breaks='the table of profiles is changed', demo=H + """
mats = np.array([[-2.0, 1.0]])
ass.retriever(np.array([[0, 6, 0, 0, 1]]), mats, np.array([[0, 0.0, 0], [1, 1.0, 0]]), 0)
assert mats[0, 0] == -2.0
"""),
 dict(id='x13', property='C23', edits=[(P, """def principal_dirs(field):""", """_MAT = np.zeros((2, 2))


def principal_dirs(field):"""), (P, """    mat = np.zeros((2, 2))
    for cont, tensor""", """    mat = _MAT
    for cont, tensor"""), (P, """        mat[0, 1] = tensor[2]
""", """        if tensor[2] != 0:
            mat[0, 1] = tensor[2]
""")],
  needs='tensors without shear after others with shear', breaks='the shear of an earlier tensor', demo=H + """
a = pos.principal_dirs(np.array([[1.0, 2.0, 0.0]]))[0][0]
pos.principal_dirs(np.array([[1.0, 2.0, 3.0]]))
b = pos.principal_dirs(np.array([[1.0, 2.0, 0.0]]))[0][0]
assert a == b == 2.0, (a, b)
"""),
 dict(id='x14', property='C05', edits=[(F, """    if det < 0.0:
""", """    if det < 0.0 and jaco.shape[0] == 2:
""")],
  needs='a solid element numbered the other way', breaks='negative jacobians accepted', demo=H + """
x = np.array([[0, 0, 0], [0, 1, 0], [1, 0, 0], [0, 0, 1.0]])
try:
    fem.jacoper(fem.shape_tet4(0.1, 0.1, 0.1)[1], x)
except ValueError:
    pass
else:
    raise SystemExit(1)
"""),
 dict(id='x15', property='C06', edits=[(F, """    B[3, 0::2] = N/x
""", """    B[3, 0::2] = np.where(N >= 0, N, 0)/x
""")],
  needs='a quadratic element, whose functions may be negative', breaks='hoop strain', demo=H + """
c = np.array([[1, 0], [3, 0], [3, 2], [1, 2], [2, 0], [3, 1], [2, 2], [1, 1], [2, 1.0]])
H_, B_, d = fem.elast_diff_axi(0.3, 0.4, c, fem.shape_quad9)
N, _ = fem.shape_quad9(0.3, 0.4)
assert np.allclose(B_[3, 0::2], N/(N @ c[:, 0]))
"""),
 dict(id='x16', property='C07', edits=[(F, """    mnu = (1 - nu)/2
""", """    mnu = (1 - abs(nu))/2
""")],
  needs='a negative ratio', breaks='shear modulus of auxetic materials', demo=H + """
C = fem.umat((1.0, -0.3))
assert abs(C[2, 2] - 0.5/0.7) < 1e-12
"""),
 dict(id='x17', property='C09', edits=[(U, """    nx = vec[0]/length
    ny = vec[1]/length
""", """    nx = vec[0]/length
    ny = np.sign(vec[1])*np.sqrt(1 - min(1.0, nx**2)) if nx != -1 else 0.0
    ny = abs(ny) if nx < 0 else ny
""")],
  needs='a member that points down and to the left', breaks='direction of the member', demo=H + """
k, m = ue.truss2D(np.array([[0.0, 0.0], [-3.0, -4.0]]), (1.0, 1.0))
assert abs(k[0, 1] - 12/125) < 1e-12, k
"""),
 dict(id='x18', property='C03', edits=[(G, """    nd_wts = [np.prod(nd_wt) for nd_wt in nd_wts]
""", """    nd_wts = [nd_wt[0]*nd_wt[-1]**(ndim - 1) for nd_wt in nd_wts]
""")],
  needs='a rule in three dimensions with three points or more', breaks='weights of hexahedra', demo=H + """
p, w = gau.gauss_nd(3, ndim=3)
assert abs(sum(wi*pi[1]**2 for wi, pi in zip(w, p)) - 8/3) < 1e-9
"""),
 dict(id='x19', property='C08', edits=[(U, """    E, nu, rho = params
    C = fem.elast_mat((E, nu))
    stiff_mat = np.zeros((24, 24))""", """    E, nu, rho = params
    coord = np.round(coord, 8)
    C = fem.elast_mat((E, nu))
    stiff_mat = np.zeros((24, 24))""")],
  needs='a small element', breaks='coordinates rounded', demo=H + """
c = 0.54e-7*np.array([[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1], [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1.0]])
k, m = ue.elast_hex8(c, (1.0, 0.3, 1.0))
assert abs(m[0::3, 0::3].sum()/(1.08e-7)**3 - 1) < 1e-6, m[0::3, 0::3].sum()
"""),
 dict(id='x21', property='C01', edits=[(F, """    N = np.array([1 - r - s - t, r, s, t])
""", """    N = np.array([max(1 - r - s - t, 0), r, s, t])
""")],
  needs='a point outside the element', breaks='partition of unity', demo=H + """
N, d = fem.shape_tet4(0.6, 0.6, 0.6)
assert abs(N.sum() - 1) < 1e-12
"""),
 dict(id='x23', property='C21', edits=[(Q, """    elements = np.loadtxt(os.path.join(folder, 'eles.txt'), ndmin=2, dtype=int)""",
  """    elements = np.atleast_2d(np.genfromtxt(os.path.join(folder, 'eles.txt'), dtype=np.int16))""")],
  needs='more than 32767 nodes', breaks='numbers of nodes', demo=H + """
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    for n, t in (('nodes', '0 0 0 0 0'), ('mater', '1 0.3'), ('eles', '0 1 0 1 2 3 40000'), ('loads', '0 1 1')):
        open(os.path.join(d, n + '.txt'), 'w').write(t + chr(10))
    n, m, e, l = pre.readin(folder=d)
assert e[0, 6] == 40000, e
"""),
]
