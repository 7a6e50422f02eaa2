H = '''
import numpy as np
import solidspy.femutil as fem, solidspy.uelutil as ue, solidspy.gaussutil as gau
import solidspy.assemutil as ass, solidspy.postprocesor as pos, solidspy.preprocesor as pre
import solidspy.solutil as sol, solidspy.blochutil as blo
'''
A, P, Q, F, U, G, B, D, S = ('assemutil.py', 'postprocesor.py', 'preprocesor.py', 'femutil.py', 'uelutil.py', 'gaussutil.py',
                             'blochutil.py', 'solids_GUI.py', 'solutil.py')
SEEDS = [
 dict(id='z01', property='C01', edits=[(F, """         4*s*(1 - r - s)])
    dNdr = np.array([
        [4*r + 4*s - 3, 4*r""", """         4*s*(1 - r - s)])
    N = np.where(np.abs(N) < 1e-3, 0.0, N)
    dNdr = np.array([
        [4*r + 4*s - 3, 4*r""")], needs='a point where one of the functions is small but not zero', breaks='the functions no longer sum to one',
  demo=H + """
N, _ = fem.shape_tri6(0.0002, 0.5)
assert abs(N.sum() - 1) < 1e-9, N.sum()
"""),
 dict(id='z04', property='C06', edits=[(F, """    det, jaco_inv = jacoper(dNdr, coord)
    dNdx = jaco_inv @ dNdr
    H = np.zeros((2, 2*N.shape[0]))
    B = np.zeros((4, """, """    det, jaco_inv = jacoper(dNdr, coord)
    dNdx = np.einsum('ji,jk->ik', jaco_inv, dNdr)
    H = np.zeros((2, 2*N.shape[0]))
    B = np.zeros((4, """)], needs='an axisymmetric element whose Jacobian is not symmetric', breaks='gradients of the wrong direction',
  demo=H + """
c = np.array([[1.0, 0], [2, 1], [1, 2], [0, 1]])
c9 = np.vstack([c, (c + np.roll(c, -1, 0))/2, c.mean(0)])
c9[:, 0] += 1
c9[:, 1] += 0.3*c9[:, 0]
_, B, _ = fem.elast_diff_axi(0.1, 0.2, c9, fem.shape_quad9)
u = np.zeros(18); u[1::2] = 3*c9[:, 1]
assert np.allclose(B @ u, [0, 3, 0, 0]), B @ u
"""),
 dict(id='z05', property='C09', repl=[(U, 'spring', '''
def spring(coord, stiff):
    """Stiffness matrix of a 2-node spring"""
    vec = coord[1, :] - coord[0, :]
    angle = np.arcsin(vec[1]/np.linalg.norm(vec))
    nx, ny = np.cos(angle), np.sin(angle)
    Q = np.array([
        [nx, ny, 0, 0],
        [0, 0, nx, ny]])
    stiff_mat = np.ravel(stiff)[0] * np.array([
        [1, -1],
        [-1, 1]])
    stiff_mat = Q.T @ stiff_mat @ Q
    return stiff_mat, np.zeros((4, 4))
''')], needs='a member that points to negative x and is not horizontal', breaks='coupling of the wrong sign', demo=H + """
K, _ = ue.spring(np.array([[0.0, 0], [-1, 1]]), 2.0)
assert np.allclose(K[:2, :2], [[1, -1], [-1, 1]]), K
"""),
 dict(id='z10', property='C05', edits=[(F, "    if det < 0.0:\n", "    if det < -1e-12:\n")],
  needs='a small element with inverted orientation', breaks='negative volume accepted', demo=H + """
_, d = fem.shape_tri3(0.3, 0.3)
try:
    fem.jacoper(d, 1e-7*np.array([[0.0, 0], [0, 1], [1, 0]]))
    raise SystemExit(1)
except ValueError:
    pass
"""),
 dict(id='z19', property='C13', edits=[(P, """    for row in range(nnodes):
        for col in range(ndof_node):
            cons = bc_array[row, col]
            if cons == -1:
                sol_complete[row, col] = 0.0
            else:
                sol_complete[row, col] = sol[cons]
""", """    free = bc_array[:nnodes, :ndof_node] != -1
    sol_complete[free] = sol[:np.count_nonzero(free)]
""")], needs='equations numbered in another order', breaks='displacements given to other freedoms', demo=H + """
bc = np.array([[1, -1], [0, 2]])
u = pos.complete_disp(bc, np.zeros((2, 3)), np.array([10.0, 20, 30]))
assert np.allclose(u, [[20, 0], [10, 30]]), u
"""),
 dict(id='z20', property='C14', edits=[(P, """    for el in range(nelems):
        young, poisson = mats[int(elements[el, 2]), :2]
        shear = young""", """    uniform = (elements[:, 2] == elements[0, 2]).all()
    for el in range(nelems):
        young, poisson = mats[0 if uniform else int(elements[el, 2]), :2]
        shear = young""")], needs='all elements of a material other than the first', breaks='stresses of another material', demo=H + """
nodes = np.array([[0, 0.0, 0], [1, 1, 0], [2, 0, 1]])
els = np.array([[0, 3, 1, 0, 1, 2]])
E, S = pos.strain_nodes(nodes, els, np.array([[1.0, 0.0], [2.0, 0.0]]), np.array([[0.0, 0], [1, 0], [0, 0]]))
assert np.allclose(S[:, 0], 2), S
"""),
 dict(id='z21', property='C11', edits=[(A, """        ndof = kloc.shape[0]
        dme = assem_op[ele, :ndof]
        for row in range(ndof):
            glob_row = dme[row]
            if glob_row != -1:
                for col in range(ndof):
                    glob_col = dme[col]
                    if glob_col != -1:
                        rows""", """        ndof = kloc.shape[0]
        dme = assem_op[ele, :ndof]
        active = {dof: k for k, dof in enumerate(dme)}
        for row in range(ndof):
            glob_row = dme[row]
            if glob_row != -1:
                for col in active.values():
                    glob_col = dme[col]
                    if glob_col != -1:
                        rows""")], needs='an element with two freedoms of the same equation', breaks='the first of the two columns left out', demo=H + """
nodes = np.array([[0, 0.0, 0], [1, 1.0, 0]])
els = np.array([[0, 5, 0, 0, 1]])
K, _ = ass.sparse_assem(els, np.array([[1.0]]), nodes, 1, np.array([[0, -1, 0, -1]]), uel=lambda c, p: (np.diag([1.0, 1, 2, 1]) , np.zeros((4, 4))))
assert abs(K[0, 0] - 3) < 1e-12, K.toarray()
"""),
 dict(id='z30', property='C19', edits=[(P, "    if max_area - min_area > 1e-6:", "    if not np.isclose(max_area, min_area):")],
  needs='areas that differ by less than 1e-5 of their size', breaks='all members drawn with one width', demo=H + """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
nodes = np.array([[0, 0.0, 0], [1, 1, 0], [2, 0, 1]])
els = np.array([[0, 6, 0, 0, 1], [1, 6, 1, 1, 2]])
pos.plot_truss(nodes, els, np.array([[1.0, 1000.0], [1.0, 1000.005]]))
w = [l.get_linewidth() for l in plt.gca().lines]
assert w[0] != w[1], w
"""),
 dict(id='z31', property='C20', edits=[(Q, "    nodes_array[nodes_frontera, 3] = bc_x\n", "    nodes_array[nodes_frontera, 3] = np.minimum(nodes_array[nodes_frontera, 3], bc_x)\n")],
  needs='a line freed after another call restrained it', breaks='a flag once set cannot be taken back', demo=H + """
n = np.zeros((3, 5)); n[:, 3] = -1
r = pre.boundary_conditions({'line': np.array([[0, 1]])}, {'line': {'gmsh:physical': np.array([7])}}, 7, n, 0, 0)
assert list(r[:, 3]) == [0, 0, -1], r
"""),
 dict(id='z32', property='C20', edits=[(Q, "    nodes_array[:, 1:3] = points[:, :2]", "    nodes_array[:, 1:3] = np.round(points[:, :2], 6)")],
  needs='coordinates with more than six decimals', breaks='nodes moved', demo=H + """
n = pre.node_writer(np.array([[1.23456789e-4, 0, 0]]), {})
assert n[0, 1] == 1.23456789e-4, n
"""),
 dict(id='z34', property='C25', edits=[(P, """            raise ValueError("Strains are not available for this element.")""", """            msg = "Strains are not available for element type {}."
            raise ValueError(msg.fromat(iet))""")], needs='elements without strains', breaks='another error', demo=H + """
nodes = np.array([[0, 0.0, 0], [1, 1, 0]])
try:
    pos.strain_nodes(nodes, np.array([[0, 6, 0, 0, 1]]), np.array([[1.0, 0.0]]), np.zeros((2, 2)))
    raise SystemExit(1)
except ValueError:
    pass
"""),
]
SEEDS = [s for s in SEEDS if s['demo']]
