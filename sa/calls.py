"""Catalogue of calls of the public routines with arbitrary (symbolic) arguments."""
from .ctx import *
from .contracts import install_fem, install_laws
from .elements import NODES
from .mesh import *
from .npcore import SymObj
from .values import Gen, ROWINJ, Sparse
from .pymodel import dkey

ELEMENTS = {'elast_tri3': ('tri3', 2), 'elast_tri6': ('tri6', 2), 'elast_quad4': ('quad4', 2), 'elast_quad9': ('quad9', 2),
            'elast_quad8': ('quad8', 2), 'elast_axi_quad9': ('quad9', 2), 'elast_tet4': ('tet4', 3), 'elast_hex8': ('hex8', 3)}
OPT = ('elast_tri3', 'elast_tri6', 'elast_quad4', 'elast_quad9')      # density optional
STRUCT = {'spring': (2, 2), 'truss2D': (2, 3), 'beam2DU': (4, 5), 'beam2D': (4, 5)}


def dic(d):
    return PyDict({dkey(k): v for k, v in d.items()})


def symlist(n, at):
    c = P(n).as_int()
    if c is not None:
        return PyList([Num(at(P(q)), 'i') for q in range(c)])
    k = T.fresh('k', hi=n)
    return PyList([Gen(k, ONE, (Num(at(Poly.of(k)), 'i'),))])


def op_of(m, tag):
    neq = size('neq' + tag)
    ROWINJ.add('op' + tag)
    at = lambda e, c: Poly.of(atom('in', 'op' + tag, (P(e), P(c)), integer=True, lo=P(-1), hi=neq))
    return neq, from_fn((m.nels, P(18)), lambda ix: at(*ix), 'i')


def bc_of(nn, dpn, tag):
    neq = size('neq' + tag)
    at = lambda i, j: Poly.of(atom('in', 'bc' + tag, (P(i), P(j)), integer=True, lo=P(-1), hi=neq))
    return neq, from_fn((nn, P(dpn)), lambda ix: at(*ix), 'i')


def loads_of(nn, dpn, tag):
    node = lambda k: Poly.of(atom('in', 'loaded' + tag, (P(k),), integer=True, lo=ZERO, hi=nn))
    val = lambda k, d: Poly.of(atom('in', 'load' + tag, (P(k), P(d)), integer=ikind('loads') == 'i'))

    def entry(ix):
        c = ix[1].as_int()
        if c is None:
            z = T.eq(ix[1], ZERO)
            return z * node(ix[0]) + (ONE - z) * val(ix[0], ix[1] - 1)
        return node(ix[0]) if c == 0 else val(ix[0], c - 1)
    return from_fn((size('nloads' + tag, 0), P(dpn + 1)), entry, ikind('loads'))


class C:
    """One call: setup(I) installs contracts, args(I, tag) builds fresh arguments."""

    def __init__(self, label, qual, args, setup=None):
        self.label, self.qual, self.args, self.setup = label, qual, args, setup or (lambda I: None)


def catalogue():
    out = []

    def add(label, qual, args, setup=None):
        out.append(C(label, qual, args, setup))
    num_ = lambda n, **k: lambda t: S(n + t, **k)

    # --- gaussutil
    for n in (2, 3, 5):
        add('rule of %d points' % n, 'gaussutil.gauss_1d', lambda I, t, n=n: ([num(n)], {}))
    for n, d in ((2, 1), (2, 2), (3, 2), (2, 3)):
        add('rule of %d points in %d dimensions' % (n, d), 'gaussutil.gauss_nd', lambda I, t, n=n, d=d: ([num(n), num(d)], {}))
    for n in (1, 2, 3, 7):
        add('triangle rule of order %d' % n, 'gaussutil.gauss_tri', lambda I, t, n=n: ([num(n)], {}))
    for n in (1, 2, 3):
        add('tetrahedron rule of order %d' % n, 'gaussutil.gauss_tet', lambda I, t, n=n: ([num(n)], {}))

    # --- femutil
    for t_ in range(1, 9):
        add('element type %d' % t_, 'femutil.eletype', lambda I, t, n=t_: ([num(n)], {}))
    for el in NODES:
        d = len(NODES[el][0])
        add('at a point', 'femutil.shape_' + el, lambda I, t, d=d: ([S(x + t) for x in 'rst'[:d]], {}))
    for el in ('tri3', 'quad4', 'tri6', 'quad9'):
        for q in ('elast_diff_2d', 'elast_diff_axi'):
            add(el, 'femutil.' + q, lambda I, t, el=el: (
                [S('r' + t), S('s' + t), input_arr('x' + t, (len(NODES[el]), 2)), func(I, 'femutil.shape_' + el)], {}), install_fem)
    for el in ('tet4', 'hex8'):
        add(el, 'femutil.elast_diff_3d', lambda I, t, el=el: (
            [S('r' + t), S('s' + t), S('t' + t), input_arr('x' + t, (len(NODES[el]), 3))],
            {'interp': func(I, 'femutil.shape_' + el)}), install_fem)
    for d, n in ((2, 3), (2, 4), (3, 4), (1, 2)):
        add('%d dimensions, %d nodes' % (d, n), 'femutil.jacoper',
            lambda I, t, d=d, n=n: ([input_arr('dN' + t, (d, n)), input_arr('x' + t, (n, d))], {}))
    for q in ('umat', 'elast_mat_2d', 'elast_mat_axi', 'elast_mat'):
        add('tuple', 'femutil.' + q, lambda I, t: ([(S('E' + t), S('nu' + t))], {}))
        add('array', 'femutil.' + q, lambda I, t: ([input_arr('mat' + t, (2,))], {}))
    for q, n in (('str_el3', 3), ('str_el6', 6), ('str_el4', 4)):
        add('any element', 'femutil.' + q, lambda I, t, n=n: ([input_arr('x' + t, (n, 2)), input_arr('u' + t, (2 * n,))], {}),
            lambda I: install_fem(I, quad=False))

    # --- uelutil
    def fem(I):
        install_fem(I)
        install_laws(I)
    for q, (el, d) in ELEMENTS.items():
        for npar in (2, 3) if q in OPT else (3,):
            add('profile of %d parameters' % npar, 'uelutil.' + q, lambda I, t, el=el, d=d, npar=npar: (
                [input_arr('x' + t, (len(NODES[el]), d)), input_arr('par' + t, (npar,))], {}), fem)
    for q, pars in STRUCT.items():
        for npar in pars:
            add('profile of %d parameters' % npar, 'uelutil.' + q, lambda I, t, npar=npar: (
                [input_arr('x' + t, (2, 2)), input_arr('par' + t, (npar,))], {}))

    # --- assemutil
    for k in 'fi':
        add('table of %s' % ('floats' if k == 'f' else 'integers'), 'assemutil.eqcounter', lambda I, t, k=k: (
            [Mesh(4, 2, 1, tag=t, kind=k).cons], {}))
    add('3 per node', 'assemutil.eqcounter', lambda I, t: ([Mesh(2, 3, 8, tag=t).cons], {'ndof_node': num(3)}))
    for et in (1, 3, 6, 8):
        nn, dpn, _ = CATALOGUE[et]

        def dme(I, t, et=et, nn=nn, dpn=dpn):
            m = Mesh(nn, dpn, et, tag=t)
            return [m.cons, m.elements], {'ndof_node': num(dpn)}
        add('elements of type %d' % et, 'assemutil.DME', dme)
        # sizes of user elements other than those of the catalogue
        def dmu(I, t, et=et, nn=nn + 1, dpn=dpn):
            m = Mesh(nn, dpn, et, tag=t)
            return [m.cons, m.elements], {'ndof_node': num(dpn), 'ndof_el_max': num(nn * dpn + 1),
                                          'ndof_el': user('sizes', lambda I, iet: num(nn * dpn))}
        add('user sizes for type %d' % et, 'assemutil.DME', dmu)
    for et in range(1, 9):
        add('element type %d' % et, 'assemutil.ele_fun', lambda I, t, n=et: ([num(n)], {}))
    for et in (1, 6):
        def asm(I, t, et=et, sparse=None):
            m = Mesh(CATALOGUE[et][0], 2, et, tag=t)
            neq, op = op_of(m, t)
            return [m.elements, m.mats, m.nodes, Num(neq, 'i'), op], ({} if sparse is None else {'sparse': num_bool(sparse)})
        for q in ('dense_assem', 'sparse_assem', 'assembler'):
            add('elements of type %d' % et, 'assemutil.' + q, asm, install_elements)
        add('elements of type %d, dense' % et, 'assemutil.assembler', lambda I, t, a=asm: a(I, t, sparse=False), install_elements)

        nd, nm = CATALOGUE[et][0] * 2, CATALOGUE[et][2]
        for q, kw in (('dense_assem', {}), ('sparse_assem', {}), ('assembler', {}), ('assembler', {'sparse': num_bool(False)})):
            add('user elements of type %d%s' % (et, ', dense' if kw else ''), 'assemutil.' + q, lambda I, t, a=asm, nd=nd, kw=kw: (
                a(I, t)[0], {'uel': user_element(nd), **kw}), install_elements)

        def retr(I, t, et=et):
            m = Mesh(CATALOGUE[et][0], 2, et, tag=t)
            return [m.elements, m.mats, m.nodes, Num(idx('el' + t, m.nels), 'i')], {}
        add('elements of type %d' % et, 'assemutil.retriever', retr, install_elements)
        add('user elements of type %d' % et, 'assemutil.retriever', lambda I, t, r=retr, nd=nd: (
            r(I, t)[0], {'uel': user_element(nd)}), install_elements)
    for dpn in (2, 3):
        def lod(I, t, dpn=dpn):
            nn = size('nnodes' + t)
            neq, bc = bc_of(nn, dpn, t)
            return [loads_of(nn, dpn, t), bc, Num(neq, 'i')], {'ndof_node': num(dpn)}
        add('%d degrees of freedom per node' % dpn, 'assemutil.loadasem', lod)

    # --- solutil
    for form in ('dense', 'csr'):
        def slv(I, t, form=form):
            n = size('neq' + t)
            A = input_arr('K' + t, (n, n))
            return [A if form == 'dense' else Sparse(A, form), input_arr('f' + t, (n,))], {}
        add(form, 'solutil.static_sol', slv)

    # --- postprocesor
    for dpn in (2, 3):
        def cmp_(I, t, dpn=dpn):
            nn = size('nnodes' + t)
            neq, bc = bc_of(nn, dpn, t)
            return [bc, input_arr('nodes' + t, (nn, P(5))), input_arr('sol' + t, (neq,))], {'ndof_node': num(dpn)}
        add('%d degrees of freedom per node' % dpn, 'postprocesor.complete_disp', cmp_)
    for et, el in ((1, 4), (2, 6), (3, 3)):
        def stn(I, t, et=et):
            m = Mesh(CATALOGUE[et][0], 2, et, tag=t)
            return [m.nodes, m.elements, m.mats, input_arr('U' + t, (m.nnodes, P(2)))], {}
        add('elements of type %d' % et, 'postprocesor.strain_nodes', stn, strain_stubs)
    for npar in (2, 3):
        def trs(I, t, npar=npar):
            m = Mesh(2, 2, 6, tag=t, npar=npar)
            return [m.nodes, m.elements, m.mats, input_arr('U' + t, (m.nnodes, P(2)))], {}
        add('profiles of %d parameters' % npar, 'postprocesor.stress_truss', trs)
    for k in 'fi':
        def eig(I, t, k=k):
            a, b, c = (Poly.of(atom('in', 'tensor' + t, (P(q),), integer=k == 'i')) for q in range(3))
            mm = [[a, b], [b, c]]
            return [from_fn((2, 2), lambda ix: mm[ix[0].as_int()][ix[1].as_int()], k)], {}
        add('table of %s' % ('floats' if k == 'f' else 'integers'), 'postprocesor.eigvals', eig)
    add('table that is not symmetric', 'postprocesor.eigvals', lambda I, t: ([input_arr('tensor' + t, (2, 2))], {}))
    add('field', 'postprocesor.principal_dirs', lambda I, t: ([input_arr('field' + t, (size('npts' + t), P(3)))], {}))
    for form in ('dense', 'csr'):
        def enr(I, t, form=form):
            n = size('neq' + t)
            K = input_arr('K' + t, (n, n))
            return [input_arr('u' + t, (n,)), K if form == 'dense' else Sparse(K, form)], {}
        add(form, 'postprocesor.energy', enr)
    for et in (1, 2, 3, 4):
        def m2t(I, t, et=et):
            m = Mesh(CATALOGUE[et][0], 2, et, tag=t)
            return [m.nodes, m.elements], {}
        add('elements of type %d' % et, 'postprocesor.mesh2tri', m2t)
    for cols in (None, 2):
        def pnf(I, t, cols=cols):
            m = Mesh(4, 2, 1, tag=t)
            return [input_arr('z' + t, (m.nnodes,) if cols is None else (m.nnodes, P(cols))), m.nodes, m.elements], {}
        add('%s columns' % cols, 'postprocesor.plot_node_field', pnf)

        def pns(I, t, pnf=pnf):
            return pnf(I, t)[0], {'savefigs': num_bool(True)}
        add('%s columns, saved' % cols, 'postprocesor.plot_node_field', pns)
    for et in (1, 7, 8):
        def fpl(I, t, et=et):
            m = Mesh(CATALOGUE[et][0], 2, et, tag=t)
            return [m.elements, m.nodes, input_arr('U' + t, (m.nnodes, P(2)))], {
                'E_nodes': input_arr('E' + t, (m.nnodes, P(3))), 'S_nodes': input_arr('S' + t, (m.nnodes, P(3)))}
        add('elements of type %d' % et, 'postprocesor.fields_plot', fpl)
    for st in (False, True):
        def ptr(I, t, st=st):
            m = Mesh(2, 2, 6, tag=t)
            m.label = lambda e: P(e)
            return [m.nodes, m.elements, m.mats], ({'stresses': input_arr('s' + t, (m.nels,))} if st else {})
        add('with stresses' if st else 'plain', 'postprocesor.plot_truss', ptr)

    # --- blochutil
    def reas(I, t):
        ROWINJ.add('ima' + t)
        nd, p = size('ndofs' + t), size('nimages' + t, 0)
        return [Num(nd, 'i'),
                symlist(p, lambda k: Poly.of(atom('in', 'ima' + t, (ZERO, P(k)), integer=True, lo=ZERO, hi=nd))),
                symlist(p, lambda k: Poly.of(atom('in', 'ref' + t, (P(k),), integer=True, lo=ZERO, hi=nd)))], {}
    add('any images', 'blochutil.reassign_dof_bloch', reas)

    def blo(I, t, dim=2, dpn=2):
        ROWINJ.add('ima' + t)
        nn, nd, p, q = size('nnodes' + t), size('ndofs' + t), size('nimages' + t, 0), size('nimanodes' + t, 0)
        nodes = lambda nm: lambda k: Poly.of(atom('in', nm + t, (P(k),), integer=True, lo=ZERO, hi=nn))
        ima = lambda k: Poly.of(atom('in', 'ima' + t, (ZERO, P(k)), integer=True, lo=ZERO, hi=nd))
        ref = lambda k: Poly.of(atom('in', 'ref' + t, (P(k),), integer=True, lo=ZERO, hi=nd))
        dof = lambda nm, n, k: Poly.of(atom('in', nm + t, (P(n), P(k)), integer=True, lo=ZERO, hi=nd))
        table = lambda nm: SymObj(nm, getitem=lambda key: PyList([Num(dof(nm, key.p, k), 'i') for k in range(dpn)]))
        newnum = lambda k: Poly.of(atom('in', 'newnum' + t, (P(k),), integer=True, lo=ZERO, hi=nd - p))
        return [input_arr('kv' + t, (P(dim),)), input_arr('x' + t, (nn, P(dim))), Num(nd, 'i'), symlist(q, nodes('nref')),
                symlist(q, nodes('nima')), symlist(p, ref), symlist(p, ima), table('refdofs'), table('imadofs'),
                symlist(nd, newnum)], {}
    add('any images', 'blochutil.bloch_transform_mat', blo)

    # --- preprocesor
    add('any grid', 'preprocesor.rect_grid', lambda I, t: (
        [S('L' + t), S('H' + t), Num(size('nx' + t), 'i'), Num(size('ny' + t), 'i')], {}))
    add('any points', 'preprocesor.node_writer', lambda I, t: ([input_arr('pt' + t, (size('nnodes' + t), P(3))), dic({})], {}))

    def cells(t, kinds):
        a, b = {}, {}
        for kd, nn in kinds.items():
            n = size('n' + kd + t, 0)
            hi = size('nnodes' + t)
            a[kd] = from_fn((n, P(nn)), lambda ix, kd=kd: Poly.of(
                atom('in', 'cell' + kd + t, tuple(P(x) for x in ix), integer=True, lo=ZERO, hi=hi)), 'i')
            b[kd] = dic({'gmsh:physical': input_arr('phys' + kd + t, (n,), 'i')})
        return dic(a), dic(b)
    for kd, nn in (('triangle', 3), ('quad', 4)):
        add(kd, 'preprocesor.ele_writer', lambda I, t, kd=kd, nn=nn: (
            list(cells(t, {kd: nn})) + [kd] + [S(x + t, integer=True) for x in ('grp', 'ety', 'mat', 'n0')], {}))
    add('any line', 'preprocesor.loading', lambda I, t: (
        list(cells(t, {'line': 2})) + [S('grp' + t, integer=True), S('px' + t), S('py' + t)], {}))
    add('any line', 'preprocesor.boundary_conditions', lambda I, t: (
        list(cells(t, {'line': 2})) + [S('grp' + t, integer=True), input_arr('tab' + t, (size('nnodes' + t), P(5))),
                                       S('bx' + t, integer=True), S('by' + t, integer=True)], {}))
    add('any tables', 'preprocesor.echomod', lambda I, t: (
        [input_arr(k + t, (size('rows' + k + t), size('cols' + k + t))) for k in ('nodes', 'mats', 'elements', 'loads')],
        {'folder': Opq('folder' + t)}))

    # --- drivers
    for strains in (False, True):
        def auto(I, t, strains=strains):
            m = Mesh(4, 2, 1, tag=t)
            n3 = from_fn((m.nnodes, P(3)), lambda ix: m.node_entry(ix), 'f')
            return [dic({'nodes': n3, 'cons': m.cons, 'elements': m.elements, 'mats': m.mats,
                         'loads': loads_of(m.nnodes, 2, t)})], {'compute_strains': num_bool(strains)}
        add('strains %s' % strains, 'solids_GUI.solids_auto', auto, flow_stubs)
    return out


def strain_stubs(I):
    """Element strains as opaque functions of coordinates and displacements."""
    for q, rows in (('str_el3', 3), ('str_el6', 7), ('str_el4', 4)):
        def stub(I, b, q=q, rows=rows):
            v = list(b.values())
            key = entries(v[0]) + entries(v[1])
            g = lambda nm: lambda ix: Poly.of(atom('uel', (nm, q), (key, P(ix[0]), P(ix[1]))))
            return from_fn((rows, 3), g('eps'), 'f'), from_fn((rows, 2), g('pos'), 'f')
        I.stubs['%s.femutil.%s' % (PKG, q)] = stub


def ofun(name, kind, shape, integer=False, lo=None, hi=None):
    return from_fn(shape, lambda ix: Poly.of(atom('in', name, tuple(P(x) for x in ix), integer=integer, lo=lo, hi=hi)), kind)


def origin(a):
    """Name of the input an array carries (its generic entry)."""
    if isinstance(a, Sparse):
        a = a.arr
    e = a.get(tuple(sym('og%d' % k, integer=True, lo=ZERO, hi=d) if d.as_int() is None else ZERO
                    for k, d in enumerate(a.shape)))
    return pretty(e)


def flow_stubs(I):
    """The routines of the workflow as opaque functions of (the origin of) their data."""
    import hashlib

    def h(*xs):
        return hashlib.md5('|'.join(origin(x) if isinstance(x, (Arr, Sparse)) else
                                    pretty(x.p) if isinstance(x, Num) else '' for x in xs).encode()).hexdigest()[:8]

    def dme(I, b):
        k = h(b['cons'], b['elements'])
        neq = size('neq' + k)
        nn, ne = b['cons'].shape[0], b['elements'].shape[0]
        return (ofun('op' + k, 'i', (ne, P(18)), True, P(-1), neq), ofun('bc' + k, 'i', (nn, P(2)), True, P(-1), neq),
                Num(neq, 'i'))

    def asm(I, b):
        k = h(b['elements'], b['mats'], b['nodes'], b['neq'], b['assem_op'])
        n = b['neq'].p
        return Sparse(ofun('K' + k, 'f', (n, n)), 'csr'), Sparse(ofun('M' + k, 'f', (n, n)), 'csr')
    st = {
        'assemutil.DME': dme, 'assemutil.assembler': asm,
        'assemutil.loadasem': lambda I, b: ofun('rhs' + h(b['loads'], b['bc_array']), 'f', (b['neq'].p,)),
        'solutil.static_sol': lambda I, b: ofun('disp' + h(b['mat'], b['rhs']), 'f', (b['rhs'].shape[0],)),
        'postprocesor.complete_disp': lambda I, b: ofun('U' + h(b['bc_array'], b['sol']), 'f', (b['nodes'].shape[0], P(2))),
        'postprocesor.strain_nodes': lambda I, b: tuple(
            ofun(x + h(b['nodes'], b['elements'], b['mats'], b['sol_complete']), 'f', (b['nodes'].shape[0], P(3))) for x in 'ES'),
        'postprocesor.fields_plot': lambda I, b: None,
    }
    for k, v in st.items():
        I.stubs['%s.%s' % (PKG, k)] = v


# ------------------------------------------------------------ comparing values
def content_same(a, b, path, bad):
    """Compare two values entry by entry; bad collects (path, x, y)."""
    if isinstance(a, Num) and isinstance(b, Num):
        bad.check(a.p, b.p, path)
    elif isinstance(a, Sparse) and isinstance(b, Sparse):
        content_same(a.arr, b.arr, path, bad)
    elif isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim:
            bad.differ(path + ': number of dimensions')
            return
        for d, (x, y) in enumerate(zip(a.shape, b.shape)):
            bad.check(x, y, '%s: size in dimension %d' % (path, d))
        ks = []
        for d, x in enumerate(a.shape):
            k = x.as_int()
            ks.append([sym('og%d' % d, integer=True, lo=ZERO, hi=x)] if k is None else [P(q) for q in range(k)])
        from itertools import product
        for ix in product(*ks):
            bad.check(a.get(ix), b.get(ix), '%s[%s]' % (path, ', '.join(pretty(q) for q in ix)))
    elif isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            bad.differ(path + ': number of values')
            return
        for k, (x, y) in enumerate(zip(a, b)):
            content_same(x, y, '%s[%d]' % (path, k) if path else 'value %d' % k, bad)
    elif isinstance(a, PyList) and isinstance(b, PyList):
        x, y = a.items, b.items
        if len(x) != len(y):
            bad.differ(path + ': length of the list')
            return
        for k, (p, q) in enumerate(zip(x, y)):
            content_same(p, q, '%s[%d]' % (path, k), bad)
    elif isinstance(a, Gen) and isinstance(b, Gen):
        v = T.fresh('g', hi=a.bv.hi)
        bad.check(a.bv.hi, b.bv.hi, path + ': length of the list')
        f = lambda g, p: T.subst(p, {g.bv: Poly.of(v)})
        bad.check(f(a, a.guard), f(b, b.guard), path + ': elements of the list')
        if len(a.kids) != len(b.kids):
            bad.differ(path + ': elements of the list')
        for x, y in zip(a.kids, b.kids):
            if isinstance(x, Num) and isinstance(y, Num):
                bad.check(f(a, x.p), f(b, y.p), path + ': elements of the list')
    elif isinstance(a, PyDict) and isinstance(b, PyDict):
        x, y = a.items, b.items
        if set(x) != set(y):
            bad.differ('%s: keys %s' % (path, sorted(str(k) for k in set(x) ^ set(y))))
            return
        for k in x:
            content_same(x[k], y[k], '%s[%s]' % (path, k[-1]), bad)
    elif isinstance(a, Opq) and isinstance(b, Opq):
        if a.tag != b.tag or len(a.parts) != len(b.parts):
            bad.weak(path)
            return
        for x, y in zip(a.parts, b.parts):
            content_same(x, y, path, bad)
    elif isinstance(a, Choice) and isinstance(b, Choice) and len(a.alts) == len(b.alts):
        for (g, x), (h, y) in zip(a.alts, b.alts):
            bad.check(g, h, path)
            content_same(x, y, path, bad)
    elif type(a) is type(b):
        if isinstance(a, (str, int, float, bool)) and a != b:
            bad.differ(path)
    elif a is None or b is None or isinstance(a, (Num, Arr)) and isinstance(b, (Num, Arr)):
        bad.differ(path)
    else:
        bad.weak(path)


def arrays_in(v):
    if isinstance(v, Sparse):
        yield v.arr
    elif isinstance(v, Arr):
        yield v
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from arrays_in(x)
    elif isinstance(v, PyList):
        yield from arrays_in(v.items)
    elif isinstance(v, PyDict):
        for x in v.items.values():
            yield from arrays_in(x)
    elif isinstance(v, Choice):
        for _, x in v.alts:
            yield from arrays_in(x)


def spoil(v, k=0):
    """Overwrite every array of a result, as its owner may do."""
    from .values import M, Lazy
    for a in arrays_in(v):
        st = a.store
        if st in M.heap:
            M.heap[st] = Lazy(lambda ix: sym('spoilt', integer=st.kind in 'ib'))
    for l in lists_in(v):
        if l in M.heap:
            M.heap[l] = (Num(sym('spoilt')),)


class Diff:
    """Collects the differences of two values."""

    def __init__(self):
        self.bad, self.und, self.n = [], [], 0

    def check(self, x, y, path):
        from .report import equal
        self.n += 1
        if P(x).t == P(y).t:
            Count.n += 1
            Count.exact += 1
            return
        try:
            r = equal(x, y)
        except Undecided as e:
            self.und.append('%s: %s' % (path, e))
            return
        if r is None:
            self.und.append('%s: normal forms differ but no valuation separates them' % path)
        elif r is not True:
            self.bad.append('%s: %s instead of %s' % (path, pretty(P(x))[:160], pretty(P(y))[:160]))

    def differ(self, msg):
        self.bad.append(msg)

    def weak(self, path):
        self.und.append('%s: values of unknown kind' % path)

    def verdict(self, what, w):
        if self.bad:
            raise Violation('%s: %s' % (what, self.bad[0]), w, differences=self.bad[:10])
        if self.und:
            raise Undecided('%s: %s' % (what, self.und[0]))


def lists_in(v):
    if isinstance(v, PyList):
        yield v
        for x in v.items:
            yield from lists_in(x)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from lists_in(x)
