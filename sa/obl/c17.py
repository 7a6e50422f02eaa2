RULE = ('the renumbering and the transformation matrix are derived for symbolic numbers of degrees of freedom and of image '
        'conditions, arbitrary distinct image and reference degrees of freedom, coordinates and wavevector; the new number '
        'must be the rank of the reference among the remaining ones, and the matrix must carry 1 for kept and the phase '
        'exp(i k.(x_image - x_reference)) for image degrees of freedom')
from .. import ctx
from ..ctx import *
from ..values import Sparse, Gen, ROWINJ
from ..npcore import SymObj
from ..npfun import u_fn
from ..mesh import idx
from ..report import need, need_shape
from .c10 import clean

ROWINJ.add('ima')


def symlist(n, at):
    c = P(n).as_int()
    if c is not None:
        return PyList([Num(at(P(q)), 'i') for q in range(c)])
    k = T.fresh('k', hi=n)
    return PyList([Gen(k, ONE, (Num(at(Poly.of(k)), 'i'),))])


def obligations(s):
    w = where('blochutil.reassign_dof_bloch')

    def f():
        I = new()
        nd, p = size('ndofs', small=(ctx.SMALL or 0) + 2), size('nimages', 0, small=2)
        ima = lambda k: Poly.of(atom('in', 'ima', (ZERO, P(k)), integer=True, lo=ZERO, hi=nd))
        ref = lambda k: Poly.of(atom('in', 'ref', (P(k),), integer=True, lo=ZERO, hi=nd))
        r = run(I, 'blochutil.reassign_dof_bloch', Num(nd, 'i'), symlist(p, ima), symlist(p, ref))
        clean(I, r, 'reassign_dof_bloch', w)
        from ..npfun import toarr
        v = r.value
        if not isinstance(v, PyList):
            raise Violation('reassign_dof_bloch does not return a list', w)
        a = toarr(v)
        need_shape(a, (nd,), 'new numbers', w)
        d = idx('d', nd)
        k = T.fresh('k', hi=p)
        K = Poly.of(k)
        hit = T.eq(ima(K), d)
        E = T.exists([k], hit)
        j = T.fresh('j', hi=p)
        below = lambda q: T.mk_sum([j], T.lt(ima(Poly.of(j)), q))
        pos = T.mk_sum([k], hit * K)
        spec = E * (ref(pos) - below(ref(pos))) + (ONE - E) * (d - below(d))
        l = T.fresh('l', hi=p)
        kept = ONE - T.exists([k, l], T.eq(ref(K), ima(Poly.of(l))))
        need(a.get((d,)), spec, 'new number of a degree of freedom', w, kept)
    s.add('new numbers of the degrees of freedom', w, f)

    w2 = where('blochutil.bloch_transform_mat')
    for dim in (1, 2, 3):
        for dpn in (1, 2, 3):
            def g(dim=dim, dpn=dpn):
                I = new()
                nn, nd, p, q = size('nnodes'), size('ndofs', small=(ctx.SMALL or 0) + 2), size('nimages', 0, small=2), size('nimanodes', 0)
                nodes = lambda nm: lambda k: Poly.of(atom('in', nm, (P(k),), integer=True, lo=ZERO, hi=nn))
                dofs = lambda nm: lambda k: Poly.of(atom('in', nm, (P(k),), integer=True, lo=ZERO, hi=nd))
                nref, nima = nodes('nref'), nodes('nima')
                ima = lambda k: Poly.of(atom('in', 'ima', (ZERO, P(k)), integer=True, lo=ZERO, hi=nd))
                dof = lambda nm, n, k: Poly.of(atom('in', nm, (P(n), P(k)), integer=True, lo=ZERO, hi=nd))
                table = lambda nm: SymObj(nm, getitem=lambda key: PyList([Num(dof(nm, key.p, k), 'i') for k in range(dpn)]))
                newnum = lambda k: Poly.of(atom('in', 'newnum', (P(k),), integer=True, lo=ZERO, hi=nd - p))
                kv = input_arr('kv', (P(dim),))
                xs = input_arr('x', (nn, P(dim)))
                r = run(I, 'blochutil.bloch_transform_mat', kv, xs, Num(nd, 'i'), symlist(q, nref), symlist(q, nima),
                        symlist(p, dofs('ref')), symlist(p, ima), table('refdofs'), table('imadofs'),
                        symlist(nd, newnum))
                clean(I, r, 'bloch_transform_mat', w2)
                v = r.value
                if not isinstance(v, Sparse):
                    if isinstance(v, Arr):
                        raise Violation('bloch_transform_mat returns a dense matrix', w2)
                    raise Undecided('transformation is %s' % type(v).__name__)
                need_shape(v.arr, (nd, nd - p), 'transformation', w2)
                a, c = idx('a', nd), idx('c', nd - p)
                k, e = T.fresh('k', hi=p), T.fresh('e', hi=q)
                E = Poly.of(e)
                keep = ONE - T.exists([k], T.eq(ima(Poly.of(k)), a))
                ph = ZERO
                for d in range(dim):
                    ph = ph + kv.at(d) * (xs.get((nima(E), P(d))) - xs.get((nref(E), P(d))))
                phase = u_fn('exp')(T.I * ph)
                spec = keep * T.eq(newnum(a), c)
                for j in range(dpn):
                    spec = spec + T.mk_sum([e], T.eq(dof('imadofs', nima(E), j), a) *
                                           T.eq(newnum(dof('refdofs', nref(E), j)), c) * phase)
                need(v.arr.get((a, c)), spec, 'entry of the transformation', w2)
            s.add('transformation in %d dimensions, %d dofs per node' % (dim, dpn), w2, g)
