RULE = ('the structured mesh is derived for symbolic sizes and numbers of divisions (the case of one division included) and '
        'compared at a symbolic row and column: coordinates of the node, numbering of the elements, type, counterclockwise '
        'corners')
from ..ctx import *
from ..mesh import idx
from ..report import need, need_shape
from .c10 import clean


def obligations(s):
    w = where('preprocesor.rect_grid')

    def grid(nx=None, ny=None, kind='f', eletype=False):
        I = new()
        nx = size('nx') if nx is None else P(nx)
        ny = size('ny') if ny is None else P(ny)
        L, H = sym('L', integer=kind == 'i', lo=ONE if kind == 'i' else None), sym('H', integer=kind == 'i', lo=ONE if kind == 'i' else None)
        r = run(I, 'preprocesor.rect_grid', Num(L, kind), Num(H, kind), Num(nx, 'i'), Num(ny, 'i'),
                **({'eletype': None} if eletype else {}))
        clean(I, r, 'rect_grid', w)
        x, y, els = tup(r.value, 3, 'rect_grid')
        n = (nx + 1) * (ny + 1)
        need_shape(x, (n,), 'x coordinates', w)
        need_shape(y, (n,), 'y coordinates', w)
        need_shape(els, (nx * ny, 7), 'element table', w)
        return nx, ny, L, H, x, y, els

    for kind in 'fi':
        def f(kind=kind):
            nx, ny, L, H, x, y, els = grid(kind=kind)
            r, q = idx('r', ny + 1), idx('q', nx + 1)
            k = r * (nx + 1) + q
            for v, what in ((x, 'x'), (y, 'y')):
                if v.kind != 'f':
                    raise Violation('the %s coordinates are not floating point numbers' % what, w)
            need(x.get((k,)), L * (q * T.inverse(nx) - F(1, 2)), 'x coordinate of a node', w)
            need(y.get((k,)), H * (r * T.inverse(ny) - F(1, 2)), 'y coordinate of a node', w)
        s.add('coordinates, %s dimensions' % ('integer' if kind == 'i' else 'float'), w, f)

    def g():
        nx, ny, L, H, x, y, els = grid()
        if els.kind != 'i':
            raise Violation('the element table is not an integer array', w)
        r, q = idx('r', ny), idx('q', nx)
        e = r * nx + q
        n0 = r * (nx + 1) + q
        for c, (v, what) in enumerate(((e, 'number'), (ONE, 'type'), (ZERO, 'material'), (n0, 'first corner'),
                                       (n0 + 1, 'second corner'), (n0 + nx + 2, 'third corner'),
                                       (n0 + nx + 1, 'fourth corner'))):
            need(els.get((e, P(c))), v, '%s of an element' % what, w)
    s.add('element table', w, g)
    for nx, ny in ((1, 1), (1, 3), (3, 1), (3, 2), (2, 3)):
        def h(nx=nx, ny=ny):
            nx, ny, L, H, x, y, els = grid(nx, ny)
            nx, ny = nx.as_int(), ny.as_int()
            for r in range(ny):
                for q in range(nx):
                    e, n0 = r * nx + q, r * (nx + 1) + q
                    for c, v in enumerate((e, 1, 0, n0, n0 + 1, n0 + nx + 2, n0 + nx + 1)):
                        need(els.at(e, c), P(v), 'column %d of element %d' % (c, e), w)
            for r in range(ny + 1):
                for q in range(nx + 1):
                    k = r * (nx + 1) + q
                    need(x.at(k), L * (F(q, nx) - F(1, 2)), 'x coordinate of node %d' % k, w)
                    need(y.at(k), H * (F(r, ny) - F(1, 2)), 'y coordinate of node %d' % k, w)
        s.add('grid of %d by %d elements of any size' % (nx, ny), w, h)
