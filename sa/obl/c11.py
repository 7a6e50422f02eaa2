RULE = ('assembly is derived for symbolic numbers of elements, equations and degrees of freedom per element, with opaque '
        'element matrices (functions of the coordinates and parameters they receive) and an arbitrary assembly operator; '
        'entry (a, b) of the result must be the sum over elements and slots of the entries scattered to (a, b)')
from ..ctx import *
from ..mesh import *
from ..report import need, need_shape, need_array
from .c10 import clean


def matrix(v, what, sparse, w):
    from ..values import Sparse
    if isinstance(v, Sparse):
        if not sparse:
            raise Violation('%s is sparse where a dense array is asked for' % what, w)
        return v.arr
    if isinstance(v, Arr):
        if sparse:
            raise Violation('%s is dense where a sparse matrix is asked for' % what, w)
        return v
    raise Undecided('%s is %s' % (what, type(v).__name__))


def scatter(m, op, nd, el, a, b):
    e = T.fresh('e', hi=m.nels)
    r, c = T.fresh('r', hi=P(nd)), T.fresh('c', hi=P(nd))
    E_, R_, C_ = Poly.of(e), Poly.of(r), Poly.of(c)
    return T.mk_sum([e, r, c], T.eq(op.at(E_, R_), a) * T.eq(op.at(E_, C_), b) * el(E_, R_, C_))


def check(fname, sparse, etype, nd=None, width=None, npar=2, dim=2, nn=None, kw=None):
    """sparse: which kind of result; kw: how it is asked for."""
    I = new()
    w = where('assemutil.' + fname)
    args = {}
    if etype is None:
        nd = size('ndof')
        width = nd + size('extra', 0)
        nn = nn or 3
        args['uel'] = user_element(nd)
        name = 'uel'
        et = size('etype')
    else:
        nn, dpn, name = CATALOGUE[etype]
        nd = nn * dpn
        width = 18
        et = etype
    install_elements(I)
    m = Mesh(nn, 2, et, dim=dim, npar=npar)
    op = Op(m, width)
    args.update(kw or {})
    r = run(I, 'assemutil.' + fname, m.elements, m.mats, m.nodes, Num(op.neq, 'i'), op.arr, **args)
    clean(I, r, fname, w)
    K, M = tup(r.value, 2, fname)
    a, b = idx('a', op.neq), idx('b', op.neq)
    for v, which, what in ((K, 'K', 'stiffness'), (M, 'M', 'mass')):
        arr = matrix(v, 'global ' + what, sparse, w)
        need_shape(arr, (op.neq, op.neq), 'global ' + what, w)
        need(arr.get((a, b)), scatter(m, op, nd, lambda e, i, j: spec_element(m, name, e, which, i, j, npar), a, b),
             'entry of the global %s matrix' % what, w)


def mixed(fname, sparse, kw):
    """Springs and trusses in one mesh."""
    I = new()
    w = where('assemutil.' + fname)
    install_elements(I)
    m = Mesh(2, 2, 5)
    ty = lambda e: Poly.of(atom('in', 'istruss', (P(e),), integer=True, boolean=True))
    old = m.el_entry
    m.elements = from_fn((m.nels, P(5)), lambda ix: P(5) + ty(ix[0]) if ix[1] == P(1) else old(ix), 'i')
    op = Op(m, 4)
    r = run(I, 'assemutil.' + fname, m.elements, m.mats, m.nodes, Num(op.neq, 'i'), op.arr, **kw)
    clean(I, r, fname, w)
    K, M = tup(r.value, 2, fname)
    a, b = idx('a', op.neq), idx('b', op.neq)
    for v, which, what in ((K, 'K', 'stiffness'), (M, 'M', 'mass')):
        arr = matrix(v, 'global ' + what, sparse, w)
        need(arr.get((a, b)), scatter(m, op, 4, lambda e, i, j:
             ty(e) * spec_element(m, 'truss2D', e, which, i, j, 2) +
             (ONE - ty(e)) * spec_element(m, 'spring', e, which, i, j, 2), a, b),
             'entry of the global %s matrix' % what, w)


def obligations(s):
    yes, no = num_bool(True), num_bool(False)
    routes = (('sparse_assem', True, {}), ('dense_assem', False, {}), ('assembler', True, {}),
              ('assembler', True, {'sparse': yes}), ('assembler', False, {'sparse': no}))
    for fname, sp, kw in routes:
        w = where('assemutil.' + fname)
        tag = fname + (' (%s)' % ('sparse' if sp else 'dense') if fname == 'assembler' and kw else '')
        for npar in (2, 3):
            s.add('%s: user element, %d parameters' % (tag, npar), w,
                  lambda a=(fname, sp), kw=kw, npar=npar: check(*a, etype=None, npar=npar, kw=kw))
        s.add('%s: user element, integer data' % tag, w,
              ints(lambda a=(fname, sp), kw=kw: check(*a, etype=None, npar=3, kw=kw), 'xy', 'mat'))
        s.add('%s: user solid element' % tag, w, lambda a=(fname, sp), kw=kw: check(*a, etype=None, npar=3, dim=3, nn=8, kw=kw))
        for t in CATALOGUE:
            if fname != 'assembler' or kw:
                continue
            s.add('%s: element type %d' % (tag, t), w, lambda a=(fname, sp), t=t, kw=kw: check(*a, etype=t, kw=kw))
        for t in (CATALOGUE if fname != 'assembler' else ()):
            s.add('%s: element type %d' % (tag, t), w, lambda a=(fname, sp), t=t, kw=kw: check(*a, etype=t, kw=kw, npar=3))
            s.add('%s: element type %d, integer data' % (tag, t), w,
                  ints(lambda a=(fname, sp), t=t, kw=kw: check(*a, etype=t, kw=kw), 'xy', 'mat'))
        s.add('%s: springs and trusses in one mesh' % tag, w, lambda a=(fname, sp), kw=kw: mixed(*a, kw))
    w = where('assemutil.retriever')
    for own in (False, True):
        for t in CATALOGUE:
            def f(t=t, own=own):
                I = new()
                nn, dpn, name = CATALOGUE[t]
                install_elements(I)
                m = Mesh(nn, dpn, t, npar=3)
                e = idx('e', m.nels)
                kw = {'uel': user_element(7)} if own else {}
                r = run(I, 'assemutil.retriever', m.elements, m.mats, m.nodes, Num(e, 'i'), **kw)
                clean(I, r, 'retriever', w)
                K, M = tup(r.value, 2, 'retriever')
                n = 7 if own else nn * dpn
                for v, which in ((K, 'K'), (M, 'M')):
                    need_array(v, (n, n), lambda i, j: spec_element(m, 'uel' if own else name, e, which, i, j, 3),
                               'element matrix', w)
            s.add('retriever: %s element type %d' % ('user' if own else 'catalogue', t), w, f)
