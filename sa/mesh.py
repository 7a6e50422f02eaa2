"""Meshes, constraints and element stand-ins shared by the obligations on the global routines."""
from .ctx import *
from .values import all_idx, ROWINJ
from . import valuate

ROWINJ.update(('conn', 'op'))

# type -> (nodes per element, dofs per node, attribute of the element routine)
CATALOGUE = {1: (4, 2, 'elast_quad4'), 2: (6, 2, 'elast_tri6'), 3: (3, 2, 'elast_tri3'), 4: (9, 2, 'elast_quad9'),
             5: (2, 2, 'spring'), 6: (2, 2, 'truss2D'), 7: (2, 3, 'beam2DU'), 8: (2, 3, 'beam2D')}


def restr(i, j, tag=''):
    """Is degree of freedom j of node i restrained?"""
    return Poly.of(atom('R', (tag,) if tag else (), (P(i), P(j)), integer=True, boolean=True))


class Mesh:
    def __init__(self, nn, dpn, etype, dim=2, kind='f', npar=2, tag=''):
        self.tag = tag
        ROWINJ.add('conn' + tag)
        self.nn, self.dpn, self.etype, self.dim = nn, dpn, etype, dim
        self.nnodes = size('nnodes' + tag, small=nn + 1)
        self.nels = size('nels' + tag, small=2)
        self.nmats = size('nmats' + tag, small=2)
        self.cons = from_fn((self.nnodes, P(dpn)), lambda ix: -restr(*ix, tag), kind if kind != 'f' else ikind('cons'))
        self.elements = from_fn((self.nels, P(3 + nn)), self.el_entry, 'i')
        self.nodes = from_fn((self.nnodes, P(1 + dim)), self.node_entry, ikind('xy'))
        self.mats = input_arr('mat' + tag, (self.nmats, P(npar)))

    def conn(self, e, k):
        return Poly.of(atom('in', 'conn' + self.tag, (P(e), P(k)), integer=True, lo=ZERO, hi=self.nnodes))

    def mat_id(self, e):
        return Poly.of(atom('in', 'matid' + self.tag, (P(e),), integer=True, lo=ZERO, hi=self.nmats))

    def el_entry(self, ix):
        e, c = ix
        k = c.as_int()
        if k is None:
            # columns are told apart by their number
            from .terms import eq
            out = eq(c, P(0)) * self.label(e) + eq(c, P(1)) * P(self.etype) + eq(c, P(2)) * self.mat_id(e)
            low = T.lt(c, P(3))
            return out + (ONE - low) * self.conn(e, c - 3)
        if k == 0:
            return self.label(e)
        if k == 1:
            return P(self.etype)
        if k == 2:
            return self.mat_id(e)
        return self.conn(e, k - 3)

    def label(self, e):
        return Poly.of(atom('in', 'ellabel' + self.tag, (P(e),), integer=True, lo=ZERO))

    def node_entry(self, ix):
        i, c = ix
        k = c.as_int()
        if k is None:
            from .terms import eq
            z = eq(c, P(0))
            return z * self.nlabel(i) + (ONE - z) * self.coord(i, c - 1)
        return self.nlabel(i) if k == 0 else self.coord(i, k - 1)

    def nlabel(self, i):
        return Poly.of(atom('in', 'nlabel' + self.tag, (P(i),), integer=True, lo=ZERO))

    def coord(self, i, d):
        if ikind('xy') == 'i':
            return Poly.of(atom('in', 'xy~i' + self.tag, (P(i), P(d)), integer=True))
        return Poly.of(atom('in', 'xy' + self.tag, (P(i), P(d))))

    def eq_number(self, i, j):
        """Equation number of free degree of freedom (i, j): free ones before it, row by row."""
        a = T.fresh('a', hi=P(i))
        out = ZERO
        for k in range(self.dpn):
            out = out + T.mk_sum([a], ONE - restr(Poly.of(a), k))
        for k in range(j):
            out = out + ONE - restr(i, k)
        return out

    def bc(self, i, j):
        r = restr(i, j)
        return r * -1 + (ONE - r) * self.eq_number(i, j)

    def neq(self):
        a = T.fresh('a', hi=self.nnodes)
        return sum((T.mk_sum([a], ONE - restr(Poly.of(a), k)) for k in range(self.dpn)), ZERO)


def idx(name, hi):
    return sym(name, integer=True, lo=ZERO, hi=P(hi))


def user(name, fn):
    """A function supplied by the user, with its own fixed signature."""
    fn.exact = True
    return Builtin(name, fn)


# ------------------------------------------------------- element stand-ins
def entries(v):
    """Canonical content of an argument handed to an element routine."""
    if isinstance(v, Num):
        return (v.p,)
    if isinstance(v, Arr):
        sh = v.ishape()
        if sh is None:
            raise Undecided('argument of symbolic shape handed to an element routine')
        return tuple(v.get(tuple(P(k) for k in ix)) for ix in all_idx(sh))
    if isinstance(v, PyList) and v.concrete():
        v = tuple(v.items)
    if isinstance(v, tuple):
        return sum((entries(x) for x in v), ())
    raise Undecided('%s handed to an element routine' % type(v).__name__)


def shape_of(v):
    if isinstance(v, Arr):
        return v.ishape()
    if isinstance(v, PyList) and v.concrete():
        v = tuple(v.items)
    return (len(v),) if isinstance(v, tuple) else ()


def eterm(which, name, key, i, j):
    return Poly.of(atom('uel', (which, name), (tuple(key), P(i), P(j))))


def element(name, ndof, coord, params):
    """Opaque matrices of an element: functions of its coordinates and parameters only."""
    sh = shape_of(coord)
    key = entries(coord) + entries(params)
    nm = '%s/%s' % (name, ','.join(map(str, sh)))
    n = P(ndof)
    return tuple(from_fn((n, n), lambda ix, w=w: eterm(w, nm, key, *ix), 'f') for w in 'KM')


def install_elements(I, only=None):
    for t, (nn, dpn, name) in CATALOGUE.items():
        def stub(I, b, name=name, nd=nn * dpn):
            v = list(b.values())
            return element(name, nd, v[0], v[1])
        I.stubs['%s.uelutil.%s' % (PKG, name)] = stub


def user_element(nd, name='uel'):
    return user(name, lambda I, coord, params: element(name, nd, coord, params))


def spec_element(m, name, e, which, i, j, npar):
    """Specified entry of the matrices of element e."""
    key = tuple(m.coord(m.conn(e, k), d) for k in range(m.nn) for d in range(m.dim)) + \
        tuple(m.mats.get((m.mat_id(e), P(q))) for q in range(npar))
    return eterm(which, '%s/%d,%d' % (name, m.nn, m.dim), key, i, j)


class Op:
    """Assembly operator: rows of distinct equation numbers, -1 for restrained."""

    def __init__(self, m, width):
        self.neq = size('neq')
        self.width = width
        self.arr = from_fn((m.nels, P(width)), lambda ix: self.at(*ix), 'i')

    def at(self, e, c):
        return Poly.of(atom('in', 'op', (P(e), P(c)), integer=True, lo=P(-1), hi=self.neq))
