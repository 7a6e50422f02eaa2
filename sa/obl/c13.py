RULE = ('the solution routine must return the solution term of the given matrix and right-hand side for every accepted kind of '
        'matrix and reject the others; the complete displacement array is derived for a symbolic mesh and arbitrary numbering '
        'and compared entry by entry')
from ..ctx import *
from ..values import Sparse
from ..mesh import *
from ..report import need, need_shape
from .c10 import clean
from .c12 import numbering


def obligations(s):
    w = where('solutil.static_sol')
    for form in ('dense', 'csr'):
        def f(form=form):
            from ..npfun import np_solve, solve_atom
            I = new()
            n = size('neq')
            A, b = input_arr('K', (n, n)), input_arr('f', (n,))
            r = run(I, 'solutil.static_sol', A if form == 'dense' else Sparse(A, 'csr'), b)
            clean(I, r, 'static_sol', w)
            need_shape(r.value, (n,), 'solution', w)
            i = idx('i', n)
            need(r.value.get((i,)), (np_solve if form == 'dense' else solve_atom)(I, A, b).get((i,)), 'the solution solves K u = f', w)
        s.add('solution of a %s system' % form, w, f)
    for form in ('list', 'number'):
        def f(form=form):
            I = new()
            A = PyList([PyList([S('a'), S('b')]), PyList([S('b'), S('c')])]) if form == 'list' else S('a')
            r = run(I, 'solutil.static_sol', A, input_arr('f', (2,)))
            if r.error is None:
                raise Violation('static_sol accepts a %s instead of a matrix' % form, w)
            if r.error.etype != 'TypeError':
                raise Violation('static_sol raises %s for a %s' % (r.error.etype, form), w)
        s.add('a %s is rejected' % form, w, f)

    w2 = where('postprocesor.complete_disp')
    for dpn in (1, 2, 3, 6):
        for explicit in ((False, True) if dpn == 2 else (True,)):
            def f(dpn=dpn, explicit=explicit):
                I = new()
                nn, neq, bc, at = numbering(dpn)
                nodes = input_arr('nodes', (nn, P(5)))
                sol = input_arr('sol', (neq,))
                r = run(I, 'postprocesor.complete_disp', bc, nodes, sol, **({'ndof_node': num(dpn)} if explicit else {}))
                clean(I, r, 'complete_disp', w2)
                need_shape(r.value, (nn, P(dpn)), 'complete displacements', w2)
                i = idx('i', nn)
                for d in range(dpn):
                    e = at(i, P(d))
                    c = T.eq(e, P(-1))
                    need(r.value.get((i, P(d))), (ONE - c) * sol.get((e,)), 'displacement of dof %d' % d, w2)
            s.add('complete displacements, %d dofs per node%s' % (dpn, ' (explicit)' if explicit and dpn == 2 else ''), w2, f)
