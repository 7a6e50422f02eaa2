RULE = ('for every element type each derivative entry is compared, as a polynomial in the natural coordinates, with the '
        'formal derivative of the interpolation function returned next to it')
from ..ctx import *
from ..report import need, need_shape
from ..elements import *
from .c01 import shape_terms, integers


def obligations(s):
    for el in SHAPES:
        w = where('femutil.shape_' + el)
        for d in range(dim(el)):
            def f(el=el, w=w, d=d):
                N, dN, xi = shape_terms(el)
                n = len(NODES[el])
                need_shape(N, (n,), 'functions of ' + el, w)
                need_shape(dN, (dim(el), n), 'derivatives of ' + el, w)
                for i in range(n):
                    need(dN.at(d, i), diff(N.at(i), xi[d]),
                         'derivative of function %d of %s along %s' % (i, el, 'rst'[d]), w)
            s.add('%s: derivatives along %s' % (el, 'rst'[d]), w, f)
        s.add('%s: derivatives at coordinates given as integers' % el, w,
              lambda el=el, w=w: integers(el, 1, 'derivative', w))
