RULE = ('the right-hand side is derived for a symbolic number of nodes, equations and load rows (including none), arbitrary '
        'loaded nodes with repetitions and an arbitrary equation numbering, and compared with the sum of all loads scattered '
        'to the free degrees of freedom')
from ..ctx import *
from ..mesh import *
from ..report import need, need_shape
from .c10 import clean


def numbering(dpn, extra=0):
    nn, neq = size('nnodes'), size('neq')
    at = lambda i, j: Poly.of(atom('in', 'bc', (P(i), P(j)), integer=True, lo=P(-1), hi=neq))
    return nn, neq, from_fn((nn, P(dpn + extra)), lambda ix: at(*ix), 'i'), at


def obligations(s):
    w = where('assemutil.loadasem')
    for dpn in (1, 2, 3, 6):
        for kind in 'fi':
            for explicit in ((False, True) if dpn == 2 else (True,)):
                def f(dpn=dpn, kind=kind, explicit=explicit):
                    I = new()
                    nn, neq, bc, at = numbering(dpn)
                    nl = size('nloads', 0)
                    node = lambda k: Poly.of(atom('in', 'loaded', (P(k),), integer=True, lo=ZERO, hi=nn))
                    val = lambda k, d: Poly.of(atom('in', 'load', (P(k), P(d)), integer=kind == 'i'))

                    def entry(ix):
                        c = ix[1].as_int()
                        if c is None:
                            z = T.eq(ix[1], ZERO)
                            return z * node(ix[0]) + (ONE - z) * val(ix[0], ix[1] - 1)
                        return node(ix[0]) if c == 0 else val(ix[0], c - 1)
                    loads = from_fn((nl, P(dpn + 1)), entry, kind)
                    r = run(I, 'assemutil.loadasem', loads, bc, Num(neq, 'i'), **({'ndof_node': num(dpn)} if explicit else {}))
                    clean(I, r, 'loadasem', w)
                    need_shape(r.value, (neq,), 'right-hand side', w)
                    if r.value.kind != 'f':
                        raise Violation('the right-hand side is not a floating point array', w)
                    a = idx('a', neq)
                    k = T.fresh('k', hi=nl)
                    K = Poly.of(k)
                    spec = ZERO
                    for d in range(dpn):
                        spec = spec + T.mk_sum([k], T.eq(at(node(K), P(d)), a) * val(K, P(d)))
                    need(r.value.get((a,)), spec, 'entry of the right-hand side', w)
                s.add('loads superpose, %d dofs per node, %s loads%s' % (dpn, 'integer' if kind == 'i' else 'float',
                                                                        ' (explicit)' if explicit and dpn == 2 else ''), w, f)
