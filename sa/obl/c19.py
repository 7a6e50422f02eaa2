RULE = ('the triangles handed to matplotlib are derived for meshes of symbolic size and, per element type, checked to '
        'partition the reference element with all its nodes as corners; the calls that draw fields and members are derived '
        'as an ordered record and compared with the data they must carry')
from itertools import combinations

from ..ctx import *
from ..npcore import SymObj
from ..values import Gen, Guarded
from ..elements import NODES
from ..mesh import *
from ..report import need, need_shape
from .c10 import clean

TRI = {1: 'quad4', 2: 'tri6', 3: 'tri3', 4: 'quad9'}
AREA = {'quad4': F(4), 'quad9': F(4), 'tri3': F(1, 2), 'tri6': F(1, 2)}


def calls(r, *names):
    """Calls recorded, in order, by last name."""
    out = []
    for e in r.effects:
        if isinstance(e, (Gen, Guarded)):
            if any(k[0] == 'call' and (k[1] or '').rsplit('.', 1)[-1] in names for k in flat(e)):
                raise Undecided('conditional drawing')
            continue
        if not isinstance(e, tuple):
            raise Undecided('effects not derived')
        if e[0] == 'call' and e[1].rsplit('.', 1)[-1] in names:
            out.append((e[1].rsplit('.', 1)[-1], e[2], e[3]))
    return out


def flat(e):
    for k in e.kids:
        if isinstance(k, (Gen, Guarded)):
            yield from flat(k)
        elif isinstance(k, tuple):
            yield k
        else:
            raise Undecided('effects not derived')


def triangulation(v):
    if not (isinstance(v, Opq) and v.tag == 'call' and getattr(v.parts[0], 'parts', ('',))[0] == 'matplotlib.tri.Triangulation'):
        raise Undecided('%s instead of a triangulation' % v)
    if len(v.parts) != 4:
        raise Undecided('arguments of the triangulation')
    return v.parts[1:]


def local(p, e, m):
    """Local node of an entry of the triangle table."""
    p = P(p)
    a = p.as_atom()
    if a is not None and a.head == 'in' and a.args[0] == 'conn' and T.same(P(a.args[1][0]), P(e)):
        return P(a.args[1][1]).as_int()
    if T.has_unknown(p):
        raise Undecided('triangle not derived')
    return None


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def apart(t, u):
    """Interiors of two triangles are disjoint (separating edge)."""
    for p, q in ((t, u), (u, t)):
        for i in range(3):
            a, b, c = p[i], p[(i + 1) % 3], p[(i + 2) % 3]
            s = 1 if cross(a, b, c) > 0 else -1
            if all(s * cross(a, b, x) <= 0 for x in q):
                return True
    return False


def partition(tris, el, w):
    X = NODES[el]
    pts = [[tuple(map(F, X[k])) for k in t] for t in tris]
    for t, p in zip(tris, pts):
        if cross(*p) == 0:
            raise Violation('triangle of local nodes %s is degenerate' % (t,), w)
        for k, x in enumerate(X):
            x = tuple(map(F, x))
            s = 1 if cross(*p) > 0 else -1
            if k not in t and all(s * cross(p[i], p[(i + 1) % 3], x) >= 0 for i in range(3)):
                raise Violation('triangle of local nodes %s passes over node %d' % (t, k), w)
    for (t, p), (u, q) in combinations(zip(tris, pts), 2):
        if not apart(p, q):
            raise Violation('triangles of local nodes %s and %s overlap' % (t, u), w)
    if sum(abs(cross(*p)) for p in pts) / 2 != AREA[el]:
        raise Violation('the triangles do not cover the element: local nodes %s' % (tris,), w)


def obligations(s):
    w = where('postprocesor.mesh2tri')
    for t, el in TRI.items():
        def tri(t=t, nels=None):
            I = new()
            m = Mesh(CATALOGUE[t][0], 2, t)
            if nels:
                m.nels = P(nels)
                m.elements = from_fn((m.nels, P(3 + m.nn)), m.el_entry, 'i')
            r = run(I, 'postprocesor.mesh2tri', m.nodes, m.elements)
            clean(I, r, 'mesh2tri', w)
            x, y, tr = triangulation(r.value)
            return m, x, y, tr

        def f(tri=tri, t=t, el=el):
            m, x, y, tr = tri(nels=2)
            sh = tr.ishape()
            if sh is None or len(sh) != 2:
                raise Undecided('triangles of unknown shape')
            if sh[1] != 3:
                raise Violation('the triangles have %d corners' % sh[1], w)
            own = {0: [], 1: []}
            for k in range(sh[0]):
                for e in own:
                    loc = [local(tr.at(k, c), e, m) for c in range(3)]
                    if None not in loc:
                        own[e].append(tuple(loc))
                        break
                else:
                    raise Violation('row %d of the triangles is not made of three nodes of one element: %s' % (
                        k, [pretty(tr.at(k, c)) for c in range(3)]), w)
            for e in own:
                partition(own[e], el, w)
        s.add('elements of type %d are partitioned in triangles' % t, w, f)

        def g(tri=tri, t=t, el=el):
            m, x, y, tr = tri()
            i = idx('i', m.nnodes)
            for v, d, n in ((x, 0, 'horizontal'), (y, 1, 'vertical')):
                need_shape(v, (m.nnodes,), '%s coordinates' % n, w)
                need(v.get((i,)), m.coord(i, d), '%s coordinates of the triangulation' % n, w)
            if tr.ndim != 2:
                raise Undecided('triangles of unknown shape')
            k = (tr.shape[0] * T.inverse(m.nels)).as_int()
            if k is None:
                need(tr.shape[0], m.nels * {3: 1, 1: 2, 2: 4, 4: 8}[t], 'number of triangles', w)
            e = idx('e', m.nels)
            if m.nels.as_int() is not None:
                e = P(m.nels.as_int() - 1)
            for row in (lambda j: e * k + j, lambda j: e + m.nels * j):
                tris = []
                for j in range(k):
                    try:
                        tris.append(tuple(local(tr.get((row(j), P(c))), e, m) for c in range(3)))
                    except Undecided:
                        tris.append((None,))
                if not any(None in q for q in tris):
                    break
            else:
                raise Undecided('order of the triangles')
            partition(tris, el, w)
        s.add('triangulation of a mesh of any size of elements of type %d' % t, w, g)

    wp = where('postprocesor.tri_plot')
    for kind, name in (('contourf', 'tricontourf'), ('pcolor', 'tripcolor'), (None, 'tricontourf')):
        for save in (False, True):
            def h(kind=kind, name=name, save=save):
                I = new()
                tri = SymObj('triangulation')
                n = size('nnodes')
                z = input_arr('z', (n,))
                kw = {'plt_type': kind} if kind else {}
                if save:
                    kw.update(savefigs=num_bool(True), filename='F.pdf')
                r = run(I, 'postprocesor.tri_plot', tri, z, title='T', levels=S('lv', integer=True, lo=ONE), **kw)
                clean(I, r, 'tri_plot', wp)
                c = calls(r, 'tricontourf', 'tripcolor', 'tricontour')
                drawn(c, name, tri, lambda i: P(z.get((i,))), n, wp)
                if name == 'tricontourf':
                    lv = c[0][1][2] if len(c[0][1]) > 2 else c[0][2].get('levels')
                    if not isinstance(lv, Num):
                        raise Violation('the number of levels is not passed to the contour plot', wp)
                    need(lv.p, sym('lv', integer=True, lo=ONE), 'number of levels', wp)
                titled(r, ['T'], wp)
                saved(r, ['F.pdf'] if save else [], wp)
            s.add('field over a triangulation, %s%s' % (kind or 'default', ', saved' if save else ''), wp, h)

    wn = where('postprocesor.plot_node_field')
    for cols in (None, 1, 2, 3):
        for kind in ('contourf', 'pcolor'):
            def h(cols=cols, kind=kind):
                I = new()
                m = Mesh(4, 2, 1)
                n = cols or 1
                z = input_arr('z', (m.nnodes,) if cols is None else (m.nnodes, P(cols)))
                save = kind == 'pcolor'
                r = run(I, 'postprocesor.plot_node_field', z, m.nodes, m.elements, plt_type=kind, savefigs=num_bool(save),
                        title=tuple('T%d' % k for k in range(n)), figtitle=tuple('W%d' % k for k in range(n)),
                        filename=tuple('F%d' % k for k in range(n)))
                clean(I, r, 'plot_node_field', wn)
                fields(r, [lambda i, c=c: z.get((i,) if cols is None else (i, P(c))) for c in range(n)],
                       'tricontourf' if kind == 'contourf' else 'tripcolor', m, wn)
                titled(r, ['T%d' % k for k in range(n)], wn)
                windows(r, ['W%d' % k for k in range(n)], wn)
                saved(r, ['F%d' % k for k in range(n)] if save else [], wn)
                pages(r, ['F%d' % k for k in range(n)] if save else [], wn)
            s.add('one plot per column, %s, %s' % ('vector' if cols is None else '%d columns' % cols, kind), wn, h)

    def h():
        I = new()
        m = Mesh(4, 2, 1)
        z = input_arr('z', (m.nnodes, P(2)))
        r = run(I, 'postprocesor.plot_node_field', z, m.nodes, m.elements, savefigs=num_bool(True))
        clean(I, r, 'plot_node_field', wn)
        fields(r, [lambda i, c=c: z.get((i, P(c))) for c in range(2)], 'tricontourf', m, wn)
        saved(r, ['output0.pdf', 'output1.pdf'], wn)
        pages(r, ['output0.pdf', 'output1.pdf'], wn)
    s.add('default titles and names of files', wn, h)

    wf = where('postprocesor.fields_plot')
    for t in range(1, 9):
        for have in ((0, 0), (1, 0), (0, 1), (1, 1)):
            def h(t=t, have=have):
                I = new()
                nn, dpn, _ = CATALOGUE[t]
                m = Mesh(nn, dpn, t)
                U = input_arr('U', (m.nnodes, P(dpn)))
                E = input_arr('E', (m.nnodes, P(3)))
                S_ = input_arr('S', (m.nnodes, P(3)))
                kw = {}
                if have[0]:
                    kw['E_nodes'] = E
                if have[1]:
                    kw['S_nodes'] = S_
                r = run(I, 'postprocesor.fields_plot', m.elements, m.nodes, U, **kw)
                clean(I, r, 'fields_plot', wf)
                want = []
                if t < 5:
                    want = [(U, 0), (U, 1)] + [(E, c) for c in range(3) if have[0]] + [(S_, c) for c in range(3) if have[1]]
                fields(r, [lambda i, A=A, c=c: A.get((i, P(c))) for A, c in want], 'tricontourf', m, wf)
                if t < 5:
                    ttl = [e[1][0] for e in calls(r, 'title')]
                    if len(ttl) == len(want):
                        names = ['u_x', 'u_y'] + [r'\epsilon_{xx}', r'\epsilon_{yy}', r'\gamma_{xy}'] * have[0] + \
                            [r'\sigma_{xx}', r'\sigma_{yy}', r'\tau_{xy}'] * have[1]
                        for got, nm in zip(ttl, names):
                            # the symbol of another quantity on this plot
                            if isinstance(got, str) and any(o in got and o != nm for o in ALL) and nm not in got:
                                raise Violation('the plot of %s is titled %s' % (nm, got), wf)
            s.add('fields plotted for elements of type %d, strains %d, stresses %d' % ((t,) + have), wf, h)

    for t in (5, 6, 7, 8):
        def h(t=t):
            # one structural element anywhere keeps the continuum plots away
            I = new()
            m = Mesh(4, 2, 1)
            st = lambda e: Poly.of(atom('in', 'struct', (P(e),), integer=True, boolean=True))
            base = m.elements
            els = from_fn(base.shape, lambda ix: ONE + (t - 1) * st(ix[0]) if ix[1].as_int() == 1 else base.get(ix), 'i')
            r = run(I, 'postprocesor.fields_plot', els, m.nodes, input_arr('U', (m.nnodes, P(2))))
            clean(I, r, 'fields_plot', wf)
            g = [e for e in r.effects if isinstance(e, Guarded)
                 and any(k[0] == 'call' and k[1].rsplit('.', 1)[-1] == 'tricontourf' for k in flat(e))]
            flatly = [e for e in r.effects if isinstance(e, tuple) and e[1].rsplit('.', 1)[-1] == 'tricontourf']
            if flatly and not g:
                raise Violation('meshes with elements of type %d are plotted as continua' % t, wf)
            e = T.fresh('e', hi=m.nels)
            free = T.eq(T.mk_sum([e], st(Poly.of(e))), ZERO)
            for x in g:
                need(x.guard, free, 'condition for plotting the fields', wf)
        s.add('an element of type %d anywhere in the mesh' % t, wf, h)

    wt = where('postprocesor.plot_truss')
    DRAW = {}
    for st in (False, True):
        for npar in (2, 3):
            def h(st=st, npar=npar, member=None):
                member = DRAW[st]
                I = new()
                m = Mesh(2, 2, 6, npar=npar)
                m.label = lambda e: P(e)
                sg = input_arr('s', (m.nels,))
                kw = {'stresses': sg} if st else {}
                lo, hi = sym('wmin', lo=ZERO), sym('wmax', lo=ZERO)
                r = run(I, 'postprocesor.plot_truss', m.nodes, m.elements, m.mats, max_val=Num(hi, 'f'), min_val=Num(lo, 'f'),
                        title='T', figtitle='W', **kw)
                clean(I, r, 'plot_truss', wt)
                titled(r, ['T'], wt)
                windows(r, ['W'], wt)
                saved(r, [], wt)
                gens = [e for e in r.effects if isinstance(e, Gen) and any(k[1].rsplit('.', 1)[-1] == 'plot' for k in flat(e))]
                alone = [e for e in r.effects if isinstance(e, tuple) and e[0] == 'call' and e[1].rsplit('.', 1)[-1] == 'plot']
                n = m.nels.as_int()
                if not gens and n is not None and alone:
                    # a truss of few members, drawn one by one
                    if len(alone) != n:
                        raise Violation('%d members are drawn instead of %d' % (len(alone), n), wt)
                    for e, k in enumerate(alone):
                        member(I, m, P(e), k, hi, lo, sg)
                    return
                if len(gens) != 1 or alone:
                    raise Undecided('members drawn one by one')
                g = gens[0]
                need(g.guard, ONE, 'members drawn', wt)
                need(g.bv.hi, m.nels, 'number of members drawn', wt)
                ks = [k for k in flat(g) if k[1].rsplit('.', 1)[-1] == 'plot']
                if len(ks) != 1 or any(isinstance(k, (Gen, Guarded)) for k in g.kids):
                    raise Undecided('calls that draw a member')
                member(I, m, Poly.of(g.bv), ks[0], hi, lo, sg)

            def member(I, m, e, call, hi, lo, sg, st=st):
                ends = [m.conn(e, k) for k in range(2)]
                args = call[2]
                pts = []
                for a in args[:2]:
                    if isinstance(a, PyList) and a.concrete():
                        a = tuple(a.items)
                    if isinstance(a, Arr) and a.ishape() is not None and a.ndim == 1:
                        a = tuple(Num(a.at(k), 'f') for k in range(a.ishape()[0]))
                    if not isinstance(a, tuple) or not all(isinstance(x, Num) for x in a):
                        raise Undecided('points of the members')
                    if len(a) != 2:
                        raise Violation('members are drawn with %d points' % len(a), wt)
                    pts.append([x.p for x in a])
                ok = False
                for o in (ends, ends[::-1]):
                    ok = ok or all(T.same(pts[d][k], m.coord(o[k], d)) for d in range(2) for k in range(2))
                if not ok:
                    for d in range(2):
                        for k in range(2):
                            need(pts[d][k], m.coord(ends[k], d), 'coordinate of an end of a member', wt)
                opt = call[3]
                lw = opt.get('lw', opt.get('linewidth'))
                if not isinstance(lw, Num):
                    raise Undecided('width of the members')
                k = T.fresh('k', hi=m.nmats)
                A = lambda i: m.mats.get((P(i), ONE))
                big, small = [x.p for x in (I.call_method(m.mats_col(), 'max'), I.call_method(m.mats_col(), 'min'))] \
                    if hasattr(m, 'mats_col') else ext_vals(I, m)
                span = big - small
                many = ONE - T.lt(span, F(1, 1000000)) - T.eq(span, F(1, 1000000))
                need(lw.p, (hi - lo) * (A(m.mat_id(e)) - small) * T.inverse(span) + lo, 'width of a member', wt, assume=many)
                if st:
                    c = opt.get('color', opt.get('c'))
                    if not (isinstance(c, Opq) and c.tag == 'call' and len(c.parts) == 2 and isinstance(c.parts[1], Num)):
                        raise Undecided('colour of the members')
                    hs, ls = ext_of(I, sg)
                    top = T.fmax([-ls, hs])
                    none = T.eq(top, 0) + T.lt(top, ZERO)
                    need(c.parts[1].p, F(1, 2) + sg.get((e,)) * T.inverse(top) * F(1, 2), 'colour of a member', wt,
                         assume=ONE - none)
                    need(c.parts[1].p, F(1, 2), 'colour of the members of an unstressed truss', wt, assume=none)
            DRAW[st] = member
            s.add('truss members, %s, profiles of %d parameters' % ('coloured by stress' if st else 'plain', npar), wt, h)


ALL = ['u_x', 'u_y', r'\epsilon_{xx}', r'\epsilon_{yy}', r'\gamma_{xy}', r'\sigma_{xx}', r'\sigma_{yy}', r'\tau_{xy}']


def ext_of(I, a):
    from ..npfun import np_max, np_min
    return np_max(I, a).p, np_min(I, a).p


def ext_vals(I, m):
    return ext_of(I, from_fn((m.nmats,), lambda ix: m.mats.get((ix[0], ONE)), 'f'))


def drawn(c, name, tri, at, n, w):
    if len(c) != 1:
        if not c:
            raise Undecided('no plot recorded')
        raise Violation('the field is drawn %d times' % len(c), w)
    if c[0][0] != name:
        raise Violation('%s is called instead of %s' % (c[0][0], name), w)
    if not c[0][1] or c[0][1][0] is not tri and not same_obj(c[0][1][0], tri):
        raise Undecided('triangulation of the plot')
    z = c[0][1][1] if len(c[0][1]) > 1 else None
    data(z, at, n, w)


def same_obj(a, b):
    return isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag


def data(z, at, n, w):
    if not isinstance(z, Arr):
        raise Undecided('data of the plot')
    if z.ndim != 1:
        raise Violation('the plotted field has %d dimensions: the triangulation takes one value per node' % z.ndim, w)
    need_shape(z, (n,), 'plotted field', w)
    i = idx('i', n)
    need(z.get((i,)), at(i), 'plotted field', w)


def fields(r, ats, name, m, w):
    c = calls(r, 'tricontourf', 'tripcolor', 'tricontour')
    other = calls(r, 'plot', 'contourf', 'pcolor', 'pcolormesh', 'scatter', 'trisurf', 'plot_trisurf')
    if other or (ats and not c):
        raise Undecided('other kinds of plots')
    if len(c) != len(ats):
        raise Violation('%d fields are plotted instead of %d' % (len(c), len(ats)), w)
    for k, at in zip(c, ats):
        if k[0] != name:
            raise Violation('%s is called instead of %s' % (k[0], name), w)
        triangulation(k[1][0])
        data(k[1][1] if len(k[1]) > 1 else None, at, m.nnodes, w)


def listing(r, names, want, what, w):
    got = [e[1][0] if e[1] else next(iter(e[2].values()), None) for e in calls(r, *names)]
    if not got and want:
        raise Undecided('no %s recorded' % what)
    if not all(isinstance(g, str) for g in got):
        raise Undecided(what)
    return got


def titled(r, want, w):
    got = listing(r, ('title', 'set_title'), want, 'title', w)
    if got != want:
        raise Violation('titles %s instead of %s' % (got, want), w)


def windows(r, want, w):
    got = listing(r, ('figure',), want, 'window', w)
    if got != want:
        raise Violation('windows %s instead of %s' % (got, want), w)


def saved(r, want, w):
    got = listing(r, ('savefig',), want, 'file', w)
    if sorted(set(got)) != sorted(want):
        raise Violation('figures saved to %s instead of %s' % (got, want), w)


STATE = ('figure', 'tricontourf', 'tripcolor', 'title', 'colorbar', 'axis', 'savefig', 'get_fignums', 'xlabel', 'ylabel', 'suptitle')


def pages(r, files, w):
    """The file of each field holds that field alone: the state of pyplot is followed through the record."""
    now, drawn, disk, n = 0, {}, {}, 0
    for e in r.effects:
        if not isinstance(e, tuple) or e[0] != 'call' or not e[1].startswith('matplotlib.'):
            continue
        name = e[1].rsplit('.', 1)[-1]
        if e[1] == 'matplotlib.tri.Triangulation':
            continue
        if e[1] != 'matplotlib.pyplot.' + name or name not in STATE:
            return
        if name == 'figure':
            if e[3] and set(e[3]) != {'num'}:
                return
            a = e[2][0] if e[2] else e[3].get('num')
            now = a if isinstance(a, str) else pretty(a.p) if isinstance(a, Num) else None
            if now is None:
                return
        elif name in ('tricontourf', 'tripcolor'):
            drawn[now] = drawn.get(now, ()) + (n,)
            n += 1
        elif name == 'savefig':
            f = e[2][0] if e[2] else None
            if not isinstance(f, str):
                return
            disk[f] = drawn.get(now, ())
    for k, f in enumerate(files):
        if f in disk and disk[f] != (k,):
            raise Violation('%s holds the fields %s instead of field %d' % (f, list(disk[f]), k), w)
