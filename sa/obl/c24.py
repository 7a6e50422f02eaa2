RULE = ('the catalogue of element types is derived for every type: sizes, local routine, and their agreement with the matrices '
        'the routines return and with the equation map; every other type, as a symbolic integer, is rejected')
from ..ctx import *
from ..contracts import install_fem, install_laws
from ..elements import NODES
from ..mesh import *
from ..report import need, need_shape
from .c10 import clean

SIZES = {1: (8, 4, 4), 2: (12, 6, 7), 3: (6, 3, 3), 4: (18, 9, 9), 5: (4, 2, 3), 6: (4, 2, 3), 7: (6, 2, 3), 8: (6, 2, 3)}
ROUTINE = {1: 'elast_quad4', 2: 'elast_tri6', 3: 'elast_tri3', 4: 'elast_quad9', 5: 'spring', 6: 'truss2D', 7: 'beam2DU',
           8: 'beam2D'}
PARS = {5: 2, 6: 2, 7: 4, 8: 4}


def obligations(s):
    w, wf = where('femutil.eletype'), where('assemutil.ele_fun')
    for t, sizes in SIZES.items():
        def f(t=t, sizes=sizes):
            for k in 'i':
                I = new()
                r = run(I, 'femutil.eletype', num(t, k))
                clean(I, r, 'eletype', w)
                for x, y, n in zip(tup(r.value, 3, 'eletype'), sizes, ('degrees of freedom', 'nodes', 'points')):
                    need(x.p, P(y), '%s of element type %d' % (n, t), w)
        s.add('sizes of element type %d' % t, w, f)

        def g(t=t):
            for k in 'i':
                I = new()
                r = run(I, 'assemutil.ele_fun', num(t, k))
                clean(I, r, 'ele_fun', wf)
                v = r.value
                if v is not func(I, 'uelutil.' + ROUTINE[t]):
                    if isinstance(v, FuncV) and v.qual.startswith(PKG + '.uelutil.') and v.qual.split('.')[-1] in ROUTINE.values():
                        raise Violation('routine of element type %d is %s instead of %s' % (
                            t, v.qual.split('.')[-1], ROUTINE[t]), wf)
                    raise Undecided('routine of element type %d is %s' % (t, getattr(v, 'qual', v)))
                Count.n += 1
                Count.exact += 1
        s.add('routine of element type %d' % t, wf, g)

        def h(t=t, sizes=sizes):
            I = new()
            install_fem(I)
            install_laws(I)
            fn = value(I, 'assemutil.ele_fun', num(t))
            wu = where('uelutil.' + ROUTINE[t])
            r = I.analyse(fn, input_arr('x', (sizes[1], 2)), input_arr('par', (PARS.get(t, 3),)))
            Count.analysed.update(I.analysed)
            if r.error is not None:
                raise Undecided('raises %s' % r.error.etype)
            v = tup(r.value, 2, ROUTINE[t])
            for x, n in zip(v, ('stiffness', 'mass')):
                need_shape(x, (sizes[0], sizes[0]), '%s matrix of element type %d' % (n, t), wu)
        s.add('matrices of element type %d' % t, where('uelutil.' + ROUTINE[t]), h)

        def d(t=t, sizes=sizes):
            dpn = sizes[0]//sizes[1]
            I = new()
            m = Mesh(sizes[1], dpn, t)
            wd = where('assemutil.DME')
            r = run(I, 'assemutil.DME', m.cons, m.elements, **({} if dpn == 2 else {'ndof_node': num(dpn)}))
            clean(I, r, 'DME', wd)
            op, bc, neq = tup(r.value, 3, 'DME')
            e = sym('el', integer=True, lo=ZERO, hi=m.nels)
            for k in range(sizes[1]):
                for q in range(dpn):
                    need(op.get((e, P(k*dpn + q))), bc.get((m.conn(e, k), P(q))),
                         'equation of degree of freedom %d of node %d of element type %d' % (q, k, t), wd)
        s.add('equation map of element type %d' % t, where('assemutil.DME'), d)

    for q, ww in (('femutil.eletype', w), ('assemutil.ele_fun', wf)):
        def f(q=q, ww=ww):
            I = new()
            k = sym('etype', integer=True)
            r = run(I, q, Num(k, 'i'))
            bad = ONE
            for t in SIZES:
                bad = bad - T.eq(k, P(t))
            got = ZERO
            for g, e in r.raises:
                if e.etype != 'ValueError':
                    raise Violation('%s raises %s instead of ValueError' % (q, e.etype), ww)
                got = got + g
            if r.error is not None:
                raise Violation('%s always raises' % q, ww)
            need(got, bad, '%s rejects exactly the types out of the catalogue' % q.split('.')[-1], ww)
        s.add('%s: types out of the catalogue' % q.split('.')[-1], ww, f)
        for t in (0, -1, 9, 10, 12):
            def f(q=q, ww=ww, t=t):
                I = new()
                r = run(I, q, num(t))
                if r.error is None:
                    raise Violation('%s accepts the element type %d' % (q, t), ww)
                if r.error.etype != 'ValueError':
                    raise Violation('%s raises %s for the element type %d' % (q, r.error.etype, t), ww)
                Count.n += 1
                Count.exact += 1
            s.add('%s: type %d' % (q.split('.')[-1], t), ww, f)
