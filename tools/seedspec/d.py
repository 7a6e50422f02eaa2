H = '''
import numpy as np
import solidspy.femutil as fem, solidspy.uelutil as ue, solidspy.gaussutil as gau
import solidspy.assemutil as ass, solidspy.postprocesor as pos, solidspy.preprocesor as pre
import solidspy.solutil as sol, solidspy.blochutil as blo
'''
A, P, Q, F, U, G, B, D = ('assemutil.py', 'postprocesor.py', 'preprocesor.py', 'femutil.py', 'uelutil.py', 'gaussutil.py',
                          'blochutil.py', 'solids_GUI.py')
SEEDS = [
 dict(id='v03', property='C16', edits=[(P, '''    vecs1 = np.empty((num, 2))
    vecs2 = np.empty((num, 2))''', '''    vecs1 = np.empty((num, 2), dtype=field.dtype)
    vecs2 = np.empty_like(vecs1)''')],
  needs='a field of integers', breaks='directions truncated',
  demo=H + '''
f = np.array([[2, 1, 1], [0, 3, 1]])
_, _, v, w = pos.principal_dirs(f)
_, _, v1, w1 = pos.principal_dirs(f.astype(float))
assert np.allclose(v, v1) and np.allclose(w, w1)
'''),
 dict(id='v04', property='C15', edits=[(P, '''        stress[cont] = local_forces[2:].dot(tan_vec)/(length*mats[mat_id, 1])''',
  '''        sense = np.sign(local_forces[2]*tan_vec[0])
        stress[cont] = sense*np.linalg.norm(local_forces[2:])/mats[mat_id, 1]''')],
  needs='a vertical member', breaks='stress of vertical members is zero',
  demo=H + '''
nodes = np.array([[0, 0., 0], [1, 0, 2]])
els = np.array([[0, 6, 0, 0, 1]])
s = pos.stress_truss(nodes, els, np.array([[10.0, 2.0]]), np.array([[0, 0], [0, 0.2]]))
assert np.allclose(s, 1.0), s
'''),
 dict(id='v06', property='C18', edits=[(Q, '''-height/2:height/2:''', '''-height//2:height/2:''')],
  needs='a height that is not an even number', breaks='mesh not centred', demo=H + '''
for h in (2, 1, 3.5):
    x, y, els = pre.rect_grid(2, h, 2, 2)
    assert np.isclose(y.min(), -h/2) and np.isclose(y.max(), h/2), (h, y)
'''),
 dict(id='v08', property='C19', edits=[(P, '''        if len(field.shape) == 1:
            current_field = field
        else:''', '''        if nfields == 1:
            current_field = field
        else:''')],
  needs='a field of one column', breaks='plot fails or draws nothing', demo=H + '''
import matplotlib.pyplot as plt
x, y, els = pre.rect_grid(2, 2, 2, 2)
nodes = np.column_stack((np.arange(9), x, y))
got = []
pos.plt.tricontourf = lambda tri, f, *a, **k: got.append(np.array(f))
pos.plt.colorbar = lambda *a, **k: None
pos.plot_node_field(np.arange(9.0).reshape(9, 1), nodes, els)
assert len(got) == 1 and got[0].shape == (9,), got[0].shape
'''),
 dict(id='v10', property='C20', edits=[(Q, '''    els_array[: , 3::] = eles[ele_id, :]''',
  '''    els_array[:, 3:] = eles[min(ele_id, default=0):][:len(ele_id)]''')],
  needs='a group whose cells are not listed one after the other', breaks='cells of another group', demo=H + '''
cells = {'triangle': np.arange(12).reshape(4, 3)}
data = {'triangle': {'gmsh:physical': np.array([1, 2, 1, 2])}}
nf, els = pre.ele_writer(cells, data, 'triangle', 1, 3, 0, 0)
assert (els[:, 3:] == cells['triangle'][[0, 2]]).all()
'''),
 dict(id='v11', property='C20', edits=[(Q, '''    nf = nini + len(ele_id)''', '''    nf = nini + len(phy_surface)''')],
  needs='several physical groups of the same kind of cell', breaks='numbering of the next group', demo=H + '''
cells = {'triangle': np.arange(12).reshape(4, 3)}
data = {'triangle': {'gmsh:physical': np.array([1, 2, 1, 2])}}
nf, els = pre.ele_writer(cells, data, 'triangle', 1, 3, 0, 5)
assert nf == 7, nf
'''),
 dict(id='v13', property='C21', edits=[(D, '''        strain_nodes, stress_nodes = pos.strain_nodes(nodes, elements, mats,
                                                      disp_complete)''', '''        strain_nodes, stress_nodes = pos.strain_nodes(nodes, elements, mats,
                                                      disp_complete.round(12))''')],
  needs='displacements that are small in the units used', breaks='strains of rounded displacements', demo=H + '''
from solidspy.solids_GUI import solids_auto
x, y, els = pre.rect_grid(2, 2, 2, 2)
nodes = np.column_stack((np.arange(9), x, y))
cons = np.zeros((9, 2), int); cons[y < -0.9] = -1
data = dict(nodes=nodes, cons=cons, elements=els, mats=np.array([[1e13, 0.3]]), loads=np.array([[8, 0.1, 1.0]]))
d, e, s = solids_auto(data, plot_contours=False, compute_strains=True)
e1, s1 = pos.strain_nodes(nodes, els, data['mats'], d)
assert np.allclose(s, s1)
'''),
 dict(id='v14', property='C22', edits=[(P, '''        trace = mat[0, 0] + mat[1, 1]''', '''        mat[1, 0] = mat[0, 1]
        trace = mat[0, 0] + mat[1, 1]''')],
  needs='a tensor given by its upper triangle', breaks='the tensor of the caller is changed', demo=H + '''
m = np.array([[1.0, 2.0], [0.0, 3.0]])
c = m.copy()
pos.eigvals(m)
assert (m == c).all()
'''),
 dict(id='v15', property='C22', edits=[(B, '''        pos_diff = coords[node_ima] - coords[node_ref]''', '''        pos_diff = coords[node_ima]
        pos_diff -= coords[node_ref]''')],
  needs='coordinates used again after the call', breaks='coordinates of the image nodes become distances', demo=H + '''
coords = np.array([[0., 0], [1, 0], [0, 1], [1, 1]]) + 5
c = coords.copy()
n = {0: [0], 1: [1], 2: [2], 3: [3]}
blo.bloch_transform_mat((0.3, 0.2), coords, 4, [0, 0, 0], [1, 2, 3], [0, 0, 0], [1, 2, 3], n, n,
                        blo.reassign_dof_bloch(4, [1, 2, 3], [0, 0, 0]))
assert (coords == c).all()
'''),
 dict(id='v16', property='C23', edits=[(G, '''from itertools import product''', '''from functools import lru_cache
from itertools import product'''), (G, '''def gauss_tri(order=2):''', '''@lru_cache(maxsize=None)
def gauss_tri(order=2):''')],
  needs='a caller that changes the points returned', breaks='later calls return the changed points', demo=H + '''
p, w = gau.gauss_tri(order=3)
c = p.copy()
p *= 2
assert np.allclose(gau.gauss_tri(order=3)[0], c)
'''),
 dict(id='v17', property='C24', edits=[(F, '''4: (18, 9, 9)''', '''4: (18, 9, 4)''')],
  needs='the number of points of the 9-noded element', breaks='number of points', demo=H + '''
assert fem.eletype(4)[2] == 9
'''),
 dict(id='v18', property='C25', edits=[(P, '''        color = plt.cm.seismic(scaled_stress[elem[0]])''', '''        color = plt.cm.get_cmap("seismic")(scaled_stress[elem[0]])''')],
  needs='plot of a truss', breaks='function removed from matplotlib', demo=H + '''
nodes = np.array([[0, 0., 0], [1, 0, 2]])
els = np.array([[0, 6, 0, 0, 1]])
pos.plot_truss(nodes, els, np.array([[10.0, 2.0]]), np.array([1.0]))
'''),
 dict(id='v19', property='C09', edits=[(U, '''    young, area  = params[:2]
    stiff = area*young/length''', '''    Q = Q.astype(coord.dtype)
    young, area = params[:2]
    stiff = area*young/length''')],
  needs='coordinates given as integers', breaks='direction cosines truncated', demo=H + '''
c = np.array([[0, 0], [3, 4]])
assert np.allclose(ue.truss2D(c, (2.0, 1.0))[0], ue.truss2D(c.astype(float), (2.0, 1.0))[0])
'''),
 dict(id='v21', property='C14', edits=[(F, '''        H, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
        epsG[:, i] = B @ ul
        xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])''', '''        _, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
        epsG[:, i] = B @ ul
        xl[i, :] = shape_tri3(ri, si)[0] @ coord[:3]''')],
  needs='a 6-noded triangle with curved sides', breaks='points reported on the straight triangle', demo=H + '''
c = np.array([[0, 0], [1, 0], [0, 1], [0.5, -0.1], [0.6, 0.6], [0, 0.5]])
e, x = fem.str_el6(c, np.zeros(12))
p, _ = gau.gauss_tri(order=3)
for k in range(7):
    assert np.allclose(x[k], fem.shape_tri6(*p[k])[0] @ c)
'''),
 dict(id='v22', property='C08', edits=[(U, '''        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_tri6)
        factor = gwts[cont] * det''', '''        H, B, det = fem.elast_diff_2d(r, s, coord, fem.shape_tri6)
        area = det if cont == 0 else area
        factor = gwts[cont] * area''')],
  needs='a 6-noded triangle with curved sides', breaks='area measure of the first point used everywhere', demo=H + '''
c = np.array([[0, 0], [1, 0], [0, 1], [0.5, -0.1], [0.6, 0.6], [0, 0.5]])
k, m = ue.elast_tri6(c, (1.0, 0.3, 2.0))
p, w = gau.gauss_tri(order=3)
M = 0
for q, v in zip(p, w):
    Hm, _, det = fem.elast_diff_2d(*q, c, fem.shape_tri6)
    M = M + det*v*Hm.T @ Hm
assert np.allclose(m, M)
'''),
 dict(id='v27', property='C07', edits=[(F, '''    C = np.zeros((3, 3))
    enu = E/(1 - nu**2)''', '''    C = np.zeros((3, 3), dtype=np.asarray(params).dtype)
    enu = E/(1 - nu**2)''')], needs='integer properties, as a Poisson ratio of zero', breaks='shear modulus truncated',
  demo=H + '''
assert np.allclose(fem.umat((1, 0)), fem.umat((1.0, 0.0)))
'''),
 dict(id='v28', property='C12', edits=[(A, '''    for cont in range(nloads):
        node = int(loads[cont, 0])
        for dof in range(ndof_node):
            dof_id = bc_array[node, dof]
            if dof_id != -1:
                rhs_vec[dof_id] += loads[cont, dof + 1]''', '''    rows = {int(loads[cont, 0]): cont for cont in range(nloads)}
    for node, cont in rows.items():
        for dof in range(ndof_node):
            dof_id = bc_array[node, dof]
            if dof_id != -1:
                rhs_vec[dof_id] += loads[cont, dof + 1]''')],
  needs='two loads at one node', breaks='only the last one counts', demo=H + '''
l = np.array([[0, 1.0, 2.0], [0, 3.0, 4.0]])
assert np.allclose(ass.loadasem(l, np.array([[0, 1]]), 2), [4, 6])
'''),
 dict(id='v31', property='C19', edits=[(P, '''        if S_nodes is not None:
            plot''', '''        if S_nodes is not None and E_nodes is not None:
            plot''')], needs='stresses without strains', breaks='stresses not plotted', demo=H + '''
x, y, els = pre.rect_grid(2, 2, 2, 2)
nodes = np.column_stack((np.arange(9), x, y))
got = []
pos.tri_plot = lambda tri, f, **k: got.append(f)
pos.fields_plot(els, nodes, np.zeros((9, 2)), S_nodes=np.ones((9, 3)))
assert len(got) == 5, len(got)
'''),
]
