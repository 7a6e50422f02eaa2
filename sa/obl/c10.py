RULE = ('equation counting and the assembly operator are derived for a mesh with a symbolic number of nodes and elements, '
        'arbitrary connectivity and an arbitrary set of restrained degrees of freedom (boolean atoms), with loops summarised '
        'as bounded sums, and compared with the numbering specification at a symbolic node, element and slot')
from ..ctx import *
from ..mesh import *
from ..report import need, need_shape


def ints(arr, what, w):
    if isinstance(arr, Arr) and arr.kind not in 'ib':
        raise Violation('%s is not an integer array and cannot be used as an index' % what, w)


def counter(dpn, kind, explicit):
    I = new()
    m = Mesh(3, dpn, 3, kind=kind)
    w = where('assemutil.eqcounter')
    r = run(I, 'assemutil.eqcounter', m.cons, **({'ndof_node': num(dpn)} if explicit else {}))
    clean(I, r, 'eqcounter', w)
    neq, bc = tup(r.value, 2, 'eqcounter')
    return m, neq, bc, w


def clean(I, r, name, w, assume=None):
    if r.error is not None:
        raise Violation('%s raises %s: %s' % (name, r.error.etype, r.error.msg), w + line(I, r.error))
    for g, e in r.raises:
        need(g, ZERO, '%s raises %s' % (name, e.etype), w, assume)


def scalar(v, what, w):
    if isinstance(v, Num):
        return v.p
    if isinstance(v, Arr) and not v.shape:
        return v.get(())
    raise Undecided('%s is %s' % (what, type(v).__name__))


def operator(I, m, w, **kw):
    r = run(I, 'assemutil.DME', m.cons, m.elements, **kw)
    clean(I, r, 'DME', w)
    return tup(r.value, 3, 'DME')


def obligations(s):
    w = where('assemutil.eqcounter')
    for dpn in (1, 2, 3):
        for kind in 'fi':
            def f(dpn=dpn, kind=kind):
                m, neq, bc, w = counter(dpn, kind, dpn != 2)
                need(scalar(neq, 'number of equations', w), m.neq(), 'number of equations', w)
                need_shape(bc, (m.nnodes, P(dpn)), 'boundary conditions array', w)
                ints(bc, 'the boundary conditions array', w)
                i = idx('i', m.nnodes)
                for j in range(dpn):
                    need(bc.get((i, P(j))), m.bc(i, j), 'equation number of (node, dof %d)' % j, w)
            s.add('equation numbers, %d dofs per node, %s constraints' % (dpn, 'integer' if kind == 'i' else 'float'), w, f)
    w2 = where('assemutil.DME')

    def one(etype, nn, dpn, kw, own=None):
        nd = nn * dpn
        I = new()
        m = Mesh(nn, dpn, etype)
        kw = {k: num(v) for k, v in kw.items()}
        if own:
            def fn(I, iet):
                need(iet.p, P(etype), 'the user function receives the element type', w2)
                return num(nd)
            kw['ndof_el'] = user('ndof_el', fn)
        op, bc, neq = operator(I, m, w2, **kw)
        need(scalar(neq, 'number of equations', w2), m.neq(), 'number of equations', w2)
        need_shape(bc, (m.nnodes, P(dpn)), 'boundary conditions array', w2)
        ints(bc, 'the boundary conditions array', w2)
        ints(op, 'the assembly operator', w2)
        if not isinstance(op, Arr) or len(op.shape) != 2:
            raise Undecided('assembly operator is not a matrix')
        need(P(op.shape[0]), m.nels, 'rows of the assembly operator', w2)
        i, e = idx('i', m.nnodes), idx('e', m.nels)
        for j in range(dpn):
            need(bc.get((i, P(j))), m.bc(i, j), 'equation number of (node, dof %d)' % j, w2)
        for k in range(nn):
            for j in range(dpn):
                need(op.get((e, P(k * dpn + j))), m.bc(m.conn(e, k), j),
                     'assembly operator of (element, node %d, dof %d)' % (k, j), w2)

    for etype, (nn, dpn, _) in CATALOGUE.items():
        kw = {} if dpn == 2 else {'ndof_node': dpn}
        s.add('assembly operator, element type %d' % etype, w2, lambda a=(etype, nn, dpn, kw): one(*a))
    for name, etype, nn, dpn, mx in (('hexahedra', 9, 8, 3, 24), ('tetrahedra', 10, 4, 3, 12), ('scalar quads', 12, 4, 1, 9),
                                     ('8-noded quads', 11, 8, 2, 18)):
        s.add('assembly operator, user elements (%s)' % name, w2,
              lambda a=(etype, nn, dpn, {'ndof_node': dpn, 'ndof_el_max': mx}, True): one(*a))
