RULE = ('the conversion routines are derived for gmsh meshes of symbolic size with arbitrary physical groups: the rows written '
        'for a group are its cells in order, every node of a physical line and no other is restrained or loaded once, and the '
        'loads add up to the given force')
from ..ctx import *
from ..values import Gen, nth, uniq_array
from ..pymodel import dkey, to_set
from ..mesh import idx
from ..report import need, need_shape
from .c10 import clean

NN = {'triangle': 3, 'triangle6': 6, 'quad': 4, 'quad9': 9}


def dic(d):
    return PyDict({dkey(k): v for k, v in d.items()})


class Group:
    """Cells of one kind with their physical tags."""

    def __init__(self, tag, nn, nnodes, other=None, sized=True):
        self.tag, self.nn, self.nnodes = tag, nn, nnodes
        self.n = size('ncells_' + tag, 0)
        self.tags = from_fn((self.n,), lambda ix: self.phys(ix[0]), 'i')
        self.cells = from_fn((self.n, P(nn)), lambda ix: self.cell(*ix), 'i')

    def phys(self, k):
        return Poly.of(atom('in', 'phys_' + self.tag, (P(k),), integer=True))

    def cell(self, k, c):
        return Poly.of(atom('in', 'cell_' + self.tag, (P(k), P(c)), integer=True, lo=ZERO, hi=self.nnodes))

    def member(self, k, grp):
        return T.eq(self.phys(k), grp)

    def count(self, grp):
        k = T.fresh('k', hi=self.n)
        return T.mk_sum([k], self.member(Poly.of(k), grp))

    def nth(self, grp, i):
        """i-th cell of the group."""
        k = T.fresh('k', hi=self.n)
        return nth(k, self.member(Poly.of(k), grp), i)

    def nodes_of(self, I, grp):
        """The set of nodes of the cells of a group, as an array."""
        k = T.fresh('k', hi=self.n)
        l = PyList([Gen(k, self.member(Poly.of(k), grp), tuple(Num(self.cell(Poly.of(k), c), 'i') for c in range(self.nn)))])
        return uniq_array(to_set(I, l).segs)

    def touches(self, grp, q):
        """Is node q in the group?"""
        k = T.fresh('k', hi=self.n)
        kp = Poly.of(k)
        any_ = ONE
        for c in range(self.nn):
            any_ = any_ * (ONE - T.eq(self.cell(kp, c), q))
        return T.exists([k], self.member(kp, grp) * (ONE - any_))


def mesh_dicts(groups):
    return (dic({g.tag: g.cells for g in groups}),
            dic({g.tag: dic({'gmsh:physical': g.tags, 'gmsh:geometrical': input_arr('geo_' + g.tag, (g.n,), 'i')})
                 for g in groups}))


def obligations(s):
    w = where('preprocesor.ele_writer')
    for tag, nn in NN.items():
        def f(tag=tag, nn=nn, conc=None):
            I = new()
            g = Group(tag, nn, size('nnodes'))
            o = Group('line', 2, g.nnodes)
            cells, data = mesh_dicts([o, g])
            grp, et, mt, n0 = (sym(x, integer=True) for x in ('group', 'etype', 'mat', 'first'))
            r = run(I, 'preprocesor.ele_writer', cells, data, tag, *(Num(x, 'i') for x in (grp, et, mt, n0)))
            clean(I, r, 'ele_writer', w)
            nf, els = tup(r.value, 2, 'ele_writer')
            cnt = g.count(grp)
            if not isinstance(nf, Num):
                raise Undecided('next element number')
            need(nf.p, n0 + cnt, 'number following the last element', w)
            need_shape(els, (cnt, 3 + nn), 'element table', w)
            if els.kind != 'i':
                raise Violation('the element table is not an integer array', w)
            i = idx('i', cnt)
            for c, v in enumerate((n0 + i, et, mt)):
                need(els.get((i, P(c))), v, ('number', 'type', 'material')[c] + ' of an element', w)
            for c in range(nn):
                need(els.get((i, P(3 + c))), g.cell(g.nth(grp, i), c), 'node %d of an element' % c, w)
        s.add('elements of a physical surface, %s' % tag, w, f)

    wn = where('preprocesor.node_writer')
    for dim in (2, 3):
        def f(dim=dim):
            I = new()
            n = size('nnodes')
            pts = input_arr('pt', (n, P(dim)))
            r = run(I, 'preprocesor.node_writer', pts, dic({}))
            clean(I, r, 'node_writer', wn)
            need_shape(r.value, (n, 5), 'node table', wn)
            if r.value.kind != 'f':
                raise Violation('the node table is not a float array', wn)
            i = idx('i', n)
            for c, (v, what) in enumerate(((i, 'number'), (pts.get((i, P(0))), 'x'), (pts.get((i, P(1))), 'y'),
                                           (ZERO, 'first restraint'), (ZERO, 'second restraint'))):
                need(r.value.get((i, P(c))), v, '%s of a node' % what, wn)
        s.add('nodes with %d coordinates' % dim, wn, f)

    wb = where('preprocesor.boundary_conditions')
    wl = where('preprocesor.loading')

    def lines():
        nn = size('nnodes')
        g = Group('line', 2, nn)
        o = Group('triangle', 3, nn)
        return (nn, g) + mesh_dicts([g, o])

    def f():
        I = new()
        nn, g, cells, data = lines()
        tab = input_arr('tab', (nn, P(5)))
        grp, bx, by = (sym(x, integer=True) for x in ('group', 'bx', 'by'))
        r = run(I, 'preprocesor.boundary_conditions', cells, data, Num(grp, 'i'), tab, Num(bx, 'i'), Num(by, 'i'))
        clean(I, r, 'boundary_conditions', wb)
        need_shape(r.value, (nn, 5), 'node table', wb)
        q = idx('q', nn)
        on = g.touches(grp, q)
        old = lambda c: Poly.of(atom('in', 'tab', (q, P(c))))
        for c in range(5):
            want = old(c) if c < 3 else T.ite(on, bx if c == 3 else by, old(c))
            need(r.value.get((q, P(c))), want, 'column %d of the node table' % c, wb)
    s.add('nodes of a physical line are restrained, the others keep their data', wb, f)

    for kind in 'fi':
        def f(kind=kind):
            I = new()
            nn, g, cells, data = lines()
            grp = sym('group', integer=True)
            px, py = (sym(x, integer=kind == 'i') for x in ('px', 'py'))
            r = run(I, 'preprocesor.loading', cells, data, Num(grp, 'i'), Num(px, kind), Num(py, kind))
            if r.error is not None:
                raise Violation('loading raises %s: %s' % (r.error.etype, r.error.msg), wl)
            if not isinstance(r.value, Arr) or r.value.ndim != 2:
                raise Undecided('load table')
            if r.value.kind != 'f':
                raise Violation('the load table is not a float array', wl)
            with_set = g.nodes_of(I, grp)
            m = with_set.shape[0]
            need_shape(r.value, (m, 3), 'load table', wl)
            i = idx('i', m)
            got = r.value.get((i, ZERO))
            if not listed(got, with_set, i):
                need(got, with_set.get((i,)), 'node of a load', wl)
            need(r.value.get((i, P(1))), px * T.inverse(m), 'horizontal load of a node', wl)
            need(r.value.get((i, P(2))), py * T.inverse(m), 'vertical load of a node', wl)
        s.add('loads of a physical line, %s' % ('integer' if kind == 'i' else 'float'), wl, f)


def listed(got, arr, i):
    """The loaded nodes enumerate the same set (in whatever order)."""
    return T.same(P(got), arr.get((i,)))
