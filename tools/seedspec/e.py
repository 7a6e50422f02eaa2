H = '''
import numpy as np
import solidspy.femutil as fem, solidspy.uelutil as ue, solidspy.gaussutil as gau
import solidspy.assemutil as ass, solidspy.postprocesor as pos, solidspy.preprocesor as pre
import solidspy.solutil as sol, solidspy.blochutil as blo
'''
A, P, Q, F, U, G, B, D, S = ('assemutil.py', 'postprocesor.py', 'preprocesor.py', 'femutil.py', 'uelutil.py', 'gaussutil.py',
                             'blochutil.py', 'solids_GUI.py', 'solutil.py')
SEEDS = [
 dict(id='w01', property='C16', edits=[(P, '''    if abs(eig2) > abs(eig1):''', '''    if eig2**2 - eig1**2 > 1e-9:''')],
  needs='a tensor of small entries', breaks='principal values in the wrong order', demo=H + '''
e = pos.eigvals(np.array([[1e-5, 0], [0, 2e-5]]))
assert e[0] == 2e-5 and e[1] == 1e-5, e
'''),
 dict(id='w02', property='C17', edits=[(B, '''            ref_dof = dofs_ref[dofs_ima.index(cont_dof)]''',
  '''            ref_dof = dofs_ref[sorted(dofs_ima).index(cont_dof)]''')],
  needs='image freedoms not listed in increasing order', breaks='freedoms tied to the wrong reference', demo=H + '''
assert blo.reassign_dof_bloch(4, [3, 2], [0, 1]) == [0, 1, 1, 0]
'''),
 dict(id='w04', property='C18', edits=[(Q, '''    els = np.zeros((nx*ny, 7), dtype=int)''', '''    els = np.zeros((nx*ny, 7), dtype=np.uint16)''')],
  needs='a mesh of more than 65536 nodes', breaks='node numbers wrap around', demo=H + '''
x, y, els = pre.rect_grid(1, 1, 300, 300)
assert els.max() == 301*301 - 1
'''),
 dict(id='w05', property='C20', edits=[(Q, '''    cargas = np.zeros((ncargas, 3))''', '''    cargas = np.full((ncargas, 3), P_x)''')],
  needs='a total load given as an integer', breaks='nodal loads truncated', demo=H + '''
c = {'line': np.array([[0, 1], [1, 2]])}
d = {'line': {'gmsh:physical': np.array([5, 5])}}
l = pre.loading(c, d, 5, 1, 0)
assert np.isclose(l[:, 1].sum(), 1)
'''),
 dict(id='w06', property='C20', edits=[(Q, '''    nf = nini + len(ele_id)
''', '''    nf = els_array[-1, 0] + 1
''')], needs='a physical group without cells of the kind', breaks='fails instead of returning an empty table', demo=H + '''
c = {'triangle': np.array([[0, 1, 2]])}
d = {'triangle': {'gmsh:physical': np.array([5])}}
n, t = pre.ele_writer(c, d, 'triangle', 7, 3, 0, 4)
assert n == 4 and len(t) == 0
'''),
 dict(id='w07', property='C13', edits=[(S, '''        u_sol = solve(mat, rhs)''', '''        u_sol = lstsq(mat, rhs, rcond=1e-6)[0]'''),
  (S, 'from numpy.linalg import solve', 'from numpy.linalg import lstsq')],
  needs='stiffnesses of very different size', breaks='soft freedoms do not move', demo=H + '''
u = sol.static_sol(np.diag([1.0, 1e-8]), np.array([1.0, 1.0]))
assert np.allclose(u, [1, 1e8])
'''),
 dict(id='w08', property='C14', edits=[(P, '''    S_nodes[:, 0] /= el_nodes
    S_nodes[:, 1] /= el_nodes
    S_nodes[:, 2] /= el_nodes''', '''    S_nodes[:, 0] = fact1*E_nodes[:, 0] + fact2*E_nodes[:, 1]
    S_nodes[:, 1] = fact2*E_nodes[:, 0] + fact1*E_nodes[:, 1]
    S_nodes[:, 2] = shear*E_nodes[:, 2]''')],
  needs='two materials', breaks='stresses with the material of the last element', demo=H + '''
nodes = np.array([[0, 0, 0], [1, 1, 0], [2, 1, 1], [3, 0, 1], [4, 2, 0], [5, 2, 1.0]])
els = np.array([[0, 1, 0, 0, 1, 2, 3], [1, 1, 1, 1, 4, 5, 2]])
mats = np.array([[1.0, 0.3], [10.0, 0.3]])
u = np.column_stack((nodes[:, 1], 0*nodes[:, 1]))
_, s = pos.strain_nodes(nodes, els, mats, u)
assert np.isclose(s[4, 0], 10*s[0, 0])
'''),
 dict(id='w09', property='C15', edits=[(P, '''    el_energy = -0.5*force.dot(disp)''', '''    el_energy = -0.5*abs(force.dot(disp))''')],
  needs='a stiffness that is not positive', breaks='sign of the energy', demo=H + '''
assert pos.energy(np.array([1.0]), np.array([[-2.0]])) == 1.0
'''),
 dict(id='w10', property='C19', edits=[(P, '''filename=filename[cont])''', '''filename=filename[0])''')],
  needs='several fields saved', breaks='the first file holds the last field', demo=H + '''
import os
x, y, els = pre.rect_grid(2, 2, 2, 2)
nodes = np.column_stack((np.arange(9), x, y))
got = {}
def tri_plot(tri, f, filename=None, **k):
    got[filename] = f
pos.tri_plot = tri_plot
f = np.column_stack((np.zeros(9), np.ones(9)))
pos.plot_node_field(f, nodes, els, filename=['a.pdf', 'b.pdf'])
assert got['a.pdf'][0] == 0
'''),
 dict(id='w11', property='C21', edits=[(D, '''        pos.fields_plot(elements, nodes, disp_complete, E_nodes=strain_nodes,
                        S_nodes=stress_nodes)
    end_time = datetime.now()
    print('Duration for post processing: {}'.format(end_time - start_time))
    print('Analysis terminated successfully!')
    if compute_strains:
        return (disp_complete, strain_nodes, stress_nodes)
    else:
        return disp_complete


if''', '''        pos.fields_plot(elements, nodes, disp_complete, E_nodes=stress_nodes,
                        S_nodes=strain_nodes)
    end_time = datetime.now()
    print('Duration for post processing: {}'.format(end_time - start_time))
    print('Analysis terminated successfully!')
    if compute_strains:
        return (disp_complete, strain_nodes, stress_nodes)
    else:
        return disp_complete


if''')], needs='a plot with strains', breaks='stresses drawn as strains', demo=H + '''
from solidspy.solids_GUI import solids_auto
x, y, els = pre.rect_grid(2, 2, 1, 1)
nodes = np.column_stack((np.arange(4), x, y))
cons = np.array([[-1, -1], [-1, -1], [0, 0], [0, 0]])
got = {}
pos.fields_plot = lambda e, n, d, E_nodes=None, S_nodes=None: got.update(E=E_nodes, S=S_nodes)
r = solids_auto(dict(nodes=nodes, cons=cons, elements=els, mats=np.array([[1.0, 0.3]]),
                         loads=np.array([[2, 0, 1.0]])), compute_strains=True)
assert got['E'] is r[1] and got['S'] is r[2]
'''),
 dict(id='w12', property='C22', edits=[(P, '''            scaled_stress = 0.5*(stresses + max_stress)/max_stress''', '''            scaled_stress = stresses
            scaled_stress += max_stress
            scaled_stress = 0.5*scaled_stress/max_stress''')],
  needs='stresses used after they were plotted', breaks='the stresses of the caller are changed', demo=H + '''
nodes = np.array([[0, 0, 0], [1, 1, 0.0]])
els = np.array([[0, 6, 0, 0, 1]])
s = np.array([2.0])
pos.plot_truss(nodes, els, np.array([[1.0, 1.0]]), s)
assert s[0] == 2
'''),
 dict(id='w13', property='C23', edits=[(A, '''def DME(cons,''', '''_SIZES = {}


def DME(cons,'''), (A, '''        if ndof_el is None:
            ndof, _, _ = fem.eletype(iet)
        else:
            ndof = ndof_el(iet)
''', '''        if iet not in _SIZES:
            _SIZES[iet] = fem.eletype(iet)[0] if ndof_el is None else ndof_el(iet)
        ndof = _SIZES[iet]
''')], needs='a call with sizes of user elements followed by another one', breaks='sizes of an earlier call', demo=H + '''
els = np.array([[0, 21, 0, 0, 1]])
a = ass.DME(np.zeros((2, 2)), els, ndof_el=lambda t: 4)
b = ass.DME(np.zeros((2, 3)), els, ndof_node=3, ndof_el=lambda t: 6)
assert b[0][0, 5] == 5
'''),
 dict(id='w14', property='C25', edits=[(G, """        msg = "The order should be in [1, 10]"
""", """        msg = "The order should be in [1, {}]".format(max_order)
""")], needs='an order that is not available', breaks='fails with another error', demo=H + '''
try:
    gau.gauss_tet(11)
except ValueError:
    pass
'''),
 dict(id='w15', property='C03', edits=[(G, '''    nd_wts = [np.prod(nd_wt) for nd_wt in nd_wts]''', '''    nd_wts = [nd_wt[0]*nd_wt[-1] for nd_wt in nd_wts]''')],
  needs='three or more points per direction in three dimensions', breaks='weights of the rule', demo=H + '''
p, w = gau.gauss_nd(3, ndim=3)
assert np.isclose(sum(w), 8)
'''),
 dict(id='w16', property='C05', edits=[(F, '''    scale = np.prod(np.linalg.norm(jaco, axis=1))''', '''    scale = np.linalg.norm(jaco)''')],
  needs='a small solid element', breaks='good elements are rejected', demo=H + '''
N, dN = fem.shape_tet4(0.2, 0.2, 0.2)
c = 1e-5*np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]])
assert np.isclose(fem.jacoper(dN, c)[0], 1e-15, rtol=1e-6, atol=0)
'''),
 dict(id='w18', property='C04', edits=[(G, '''    elif order in [3, 4, 5]:
        pts = np.array([
            [0.1012''', '''    elif order in [3, 4, 5, 6]:
        pts = np.array([
            [0.1012''')], needs='order six', breaks='rule of degree five only', demo=H + '''
p, w = gau.gauss_tri(6)
assert np.isclose((w*p[:, 0]**6).sum()/2, 1/56, rtol=1e-9)
'''),
 dict(id='w20', property='C11', edits=[(A, '''    elcoor = nodes[elements[ele, 3:], 1:]
''', '''    elcoor = nodes[elements[ele, 3:], 1:3]
''')], needs='solid elements', breaks='the third coordinate is lost', demo=H + '''
nodes = np.array([[0, 0, 0, 0], [1, 1, 0, 0], [2, 0, 1, 0], [3, 0, 0, 1.0]])
got = []
ass.retriever(np.array([[0, 21, 0, 0, 1, 2, 3]]), np.array([[1.0, 0.3]]), nodes, 0, uel=lambda c, p: (got.append(c), (0, 0))[1])
assert got[0].shape == (4, 3)
'''),
 dict(id='w25', property='C21', edits=[(Q, '''\'loads.txt\'), ndmin=2)''', '''\'loads.txt\'))''')],
  needs='a single load', breaks='the table of loads is a vector', demo=H + '''
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    for n, t in (('nodes', '0 0 0 0 0'), ('mater', '1 0.3'), ('eles', '0 1 0 0 0 0 0'), ('loads', '0 1 1')):
        open(os.path.join(d, n + '.txt'), 'w').write(t)
    assert pre.readin(d)[3].shape == (1, 3)
'''),
]
