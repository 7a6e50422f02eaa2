"""Models of the numerical library functions."""
from .pyops import *
from . import pyops as PO
from . import terms as T
from . import values as V
from . import strict
from fractions import Fraction
import inspect

LOOP_LIMIT = 4096


def arr0(v):
    """Array or number operand."""
    if isinstance(v, Num):
        return v
    if isinstance(v, Sparse):
        return v.arr
    return toarr(v)


def wrap0(a):
    """0-d arrays behave as numbers."""
    if isinstance(a, Arr) and a.ndim == 0:
        return Num(a.get(()), a.kind)
    return a


def geti(I, v, what='integer'):
    v = to_num(I, v)
    if v.k in 'fc':
        raise PyRaise('TypeError', "'float' object cannot be interpreted as an integer")
    return v.p


def shape_arg(I, s):
    if isinstance(s, Num):
        return (geti(I, s),)
    if isinstance(s, Arr):
        if s.ndim == 0:
            return (geti(I, s),)
        n = s.shape[0].as_int()
        if n is None:
            raise Undecided('shape of symbolic rank')
        if s.kind in 'fc' and n:
            raise PyRaise('TypeError', 'expected a sequence of integers')
        return tuple(s.get((P(i),)) for i in range(n))
    if isinstance(s, (tuple, PyList)):
        return tuple(geti(I, x) for x in unpack_any(I, s))
    raise Undecided('shape')


def check_shape(shape):
    for d in shape:
        if d.is_const() and d.const() < 0:
            raise PyRaise('ValueError', 'negative dimensions are not allowed')
    return shape


def axis_arg(I, ax, nd):
    if ax is None:
        return None
    if isinstance(ax, (tuple, PyList)):
        return [axis_arg(I, x, nd)[0] for x in unpack_any(I, ax)]
    k = geti(I, ax).as_int()
    if k is None:
        raise Undecided('symbolic axis')
    if not -nd <= k < nd:
        raise PyRaise('AxisError', 'axis %d is out of bounds for array of dimension %d' % (k, nd))
    return [k % nd]


# ---------------------------------------------------------------- creation
def np_array(I, v, dtype=None, copy=None, order=None, ndmin=None, subok=None):
    if isinstance(v, Choice):
        return I.split(v, lambda x: np_array(I, x, dtype, copy, order, ndmin))
    if isinstance(v, (str, Opq)) or v is None:
        raise Undecided('array of an opaque object')
    if isinstance(v, PySet) or isinstance(v, SymSet):
        raise Undecided('object array of a set')
    a = toarr(v)
    k = dkind(I, dtype, a.kind)
    if k == a.kind:
        r = a if isinstance(v, Arr) and no_copy(I, copy) else dup(a)
    else:
        r = astype(I, a, k)
    if ndmin is not None:
        n = ndmin.p.as_int()
        while r.ndim < n:
            r = arr_get(I, r, (None, ELL))
    return r


def no_copy(I, copy):
    return copy is not None and I.truth(copy) == ZERO


def dup(a):
    fz = a.frozen()
    r = from_fn(a.shape, fz.get, a.kind)
    r.seq = a.seq
    r.uniq = a.uniq
    return r


def np_asarray(I, v, dtype=None, order=None, **kw):
    if isinstance(v, Arr):
        k = dkind(I, dtype, v.kind)
        return v if k == v.kind else astype(I, v, k)
    return np_array(I, v, dtype)


def astype(I, a, k):
    if isinstance(k, Narrow) or isinstance(k, str) and k in ('b', 'i', 'f', 'c'):
        kd = k
    else:
        kd = dkind(I, k)
    src = a.kind
    fz = a.frozen()
    r = from_fn(a.shape, lambda idx: cast(fz.get(idx), kd, src), kd)
    if a.seq is not None and a.ndim == 1 and all(isinstance(v, Poly) for _, _, v in a.seq):
        r.seq = [(b, g, cast(v, kd, src)) for b, g, v in a.seq]
    elif a.seq is not None and src == kd:
        r.seq = a.seq
    r.uniq = a.uniq
    return r


def filled(p, k='f'):
    def f(I, shape, dtype=None, order=None, **kw):
        if isinstance(shape, Opq):
            raise Undecided('opaque shape')
        s = check_shape(shape_arg(I, shape))
        return full(s, p, dkind(I, dtype, k))
    return f


JUNK = [0]


def junk(s, k):
    """Array of uninitialised memory: values nothing is known about, different for every array."""
    JUNK[0] += 1
    n = JUNK[0]
    if k not in 'fi':
        return unknown_arr('uninitialised element', s, k)
    return from_fn(s, lambda idx: Poly.of(atom('junk', n, tuple(P(i) for i in idx), integer=k == 'i')), k)


def np_empty(I, shape, dtype=None, order=None, **kw):
    s = check_shape(shape_arg(I, shape))
    return junk(s, dkind(I, dtype, 'f'))


def np_full(I, shape, val, dtype=None, order=None, **kw):
    s = check_shape(shape_arg(I, shape))
    if isinstance(val, Num):
        return full(s, val.p, dkind(I, dtype, val.k))
    v = toarr(val)
    fz = v.frozen()
    return from_fn(s, lambda idx: fz.get(bidx(fz.shape, idx)), dkind(I, dtype, v.kind))


def like(f0):
    def f(I, a, dtype=None, **kw):
        if isinstance(a, Opq):
            raise Undecided('opaque shape')
        x = toarr(a)
        k = dkind(I, dtype, x.kind)
        return f0(x.shape, k)
    return f


zeros_like = like(lambda s, k: full(s, ZERO, k))
ones_like = like(lambda s, k: full(s, ONE, k))
empty_like = like(junk)


def full_like(I, a, val, dtype=None, **kw):
    x = toarr(a)
    k = dkind(I, dtype, x.kind)
    v = arr0(val)
    if isinstance(v, Num):
        return full(x.shape, cast(v.p, k, v.k), k)
    fz = v.frozen()
    return from_fn(x.shape, lambda idx: cast(fz.get(bidx(fz.shape, idx)), k, fz.kind), k)


def np_eye(I, n, m=None, k=None, dtype=None, **kw):
    n = geti(I, n)
    m = n if m is None else geti(I, m)
    kk = ZERO if k is None else geti(I, k)
    return from_fn((n, m), lambda idx: eq(idx[0] + kk, idx[1]), dkind(I, dtype, 'f'))


def np_arange(I, *a, dtype=None, **kw):
    ns = [to_num(I, x) for x in a]
    if len(ns) == 1:
        ns = [num(0), ns[0]]
    if len(ns) == 2:
        ns.append(num(1))
    k = jk(*[x.k for x in ns])
    k = 'i' if k == 'b' else k
    st, en, sp = [x.p for x in ns]
    if all(is_int(x) for x in (st, en, sp)) and sp.as_int():
        n = Rng(st, en, sp).length()
    elif all(x.is_const() for x in (st, en, sp)):
        import math
        n = P(max(0, math.ceil((en.const() - st.const()) / sp.const())))
    else:
        raise Undecided('length of a floating point range')
    r = from_fn((n,), lambda idx: st + sp * idx[0], dkind(I, dtype, k))
    return r


def np_linspace(I, a, b, num=None, endpoint=None, retstep=None, dtype=None, axis=None):
    a, b = wrap0(arr0(a)), wrap0(arr0(b))
    n = P(50) if num is None else geti(I, num)
    ep = endpoint is None or I.truth(endpoint) == ONE
    d = n - 1 if ep else n

    def at(i, x, y):
        if n == ONE:
            return x
        return x + (y - x) * i * inverse(d) if not d.is_const() else x + (y - x) * i * P(1 / d.const())
    if isinstance(a, Arr) or isinstance(b, Arr):
        raise Undecided('linspace of arrays')
    r = from_fn((n,), lambda idx: at(idx[0], a.p, b.p), dkind(I, dtype, 'f'))
    if retstep is not None and I.truth(retstep) == ONE:
        return (r, Num((b.p - a.p) * inverse(d), 'f'))
    return r


def np_diag(I, v, k=None):
    a = toarr(v).frozen()
    kk = 0 if k is None else geti(I, k).as_int()
    if a.ndim == 1:
        n = a.shape[0] + abs(kk)

        def f(idx):
            i = idx[0] if kk >= 0 else idx[1]
            g = eq(idx[0] + kk, idx[1])
            if not g.t:
                return ZERO
            return g * a.get((i,))
        return from_fn((n, n), f, a.kind)
    return np_diagonal(I, a, k)


def np_diagonal(I, v, k=None, **kw):
    a = toarr(v).frozen()
    kk = 0 if k is None else geti(I, k).as_int()
    if a.ndim != 2:
        raise Undecided('diagonal')
    m = pmin(a.shape[0] if kk >= 0 else a.shape[0] + kk, a.shape[1] - kk if kk >= 0 else a.shape[1])
    return from_fn((m,), lambda idx: a.get((idx[0] - min(kk, 0), idx[0] + max(kk, 0))), a.kind)


def np_trace(I, v, offset=None):
    return np_sum(I, np_diagonal(I, v, offset))


# ------------------------------------------------------------------- shape
def np_transpose(I, a, axes=None):
    if isinstance(a, Sparse):
        return Sparse(np_transpose(I, a.arr), a.fmt)
    a = toarr(a)
    nd = a.ndim
    perm = list(reversed(range(nd))) if axes is None else [geti(I, x).as_int() % nd for x in unpack_any(I, axes)]
    inv = [perm.index(d) for d in range(nd)]
    im = a.imap

    def m(idx):
        t = tuple(idx[inv[d]] for d in range(nd))
        return im(t) if im else t
    return Arr(a.store, tuple(a.shape[p] for p in perm), m)


def np_swapaxes(I, a, x, y):
    a = toarr(a)
    p = list(range(a.ndim))
    i, j = geti(I, x).as_int(), geti(I, y).as_int()
    p[i], p[j] = p[j], p[i]
    return np_transpose(I, a, tuple(num(k) for k in p))


def np_moveaxis(I, a, s, d):
    a = toarr(a)
    nd = a.ndim
    ss, dd = axis_arg(I, s, nd), axis_arg(I, d, nd)
    order = [k for k in range(nd) if k not in ss]
    for x, y in sorted(zip(dd, ss)):
        order.insert(x, y)
    return np_transpose(I, a, tuple(num(k) for k in order))


def np_reshape(I, a, shape, order=None, newshape=None, copy=None):
    a = toarr(a)
    if order is not None and order not in ('C', 'A'):
        if order == 'F':
            t = np_reshape(I, np_transpose(I, a), PyList(list(reversed(unpack_any(I, shape)))) if not isinstance(
                shape, Num) else shape)
            return np_transpose(I, t)
        raise Undecided('reshape order')
    return reshape_to(I, a, shape_arg(I, shape))


def total(shape):
    t = ONE
    for d in shape:
        t = t * d
    return t


def reshape_to(I, a, shp):
    shp = list(shp)
    n = total(a.shape)
    neg1 = [i for i, d in enumerate(shp) if d == P(-1)]
    if neg1:
        rest = ONE
        for i, d in enumerate(shp):
            if i != neg1[0]:
                rest = rest * d
        shp[neg1[0]] = fdiv(n, rest) if rest != ZERO else ZERO
        if n.is_const() and rest.is_const() and rest != ZERO and n.const() % rest.const():
            raise PyRaise('ValueError', 'cannot reshape array')
    elif total(shp) != n:
        if (total(shp) - n).is_const():
            raise PyRaise('ValueError', 'cannot reshape array of size %s into shape %s' % (n, tuple(shp)))
    shp = tuple(shp)
    if shp == a.shape:
        return Arr(a.store, a.shape, a.imap, a.seq)
    # drop / add unit axes: plain index map
    core_a = [i for i, d in enumerate(a.shape) if d != ONE]
    core_s = [i for i, d in enumerate(shp) if d != ONE]
    im = a.imap
    olds = a.shape
    if [olds[i] for i in core_a] == [shp[i] for i in core_s]:
        def m(idx):
            t = [ZERO] * len(olds)
            for i, j in zip(core_a, core_s):
                t[i] = idx[j]
            t = tuple(t)
            return im(t) if im else t
        r = Arr(a.store, shp, m)
        if a.seq is not None and a.ndim == 1 and len(shp) == 1:
            r.seq = a.seq
        return r
    # common leading / trailing axes
    lead = 0
    while lead < len(shp) and lead < len(olds) and shp[lead] == olds[lead]:
        lead += 1
    trail = 0
    while trail < len(shp) - lead and trail < len(olds) - lead and shp[-1 - trail] == olds[-1 - trail]:
        trail += 1

    def m(idx):
        mid_s = shp[lead:len(shp) - trail]
        mid_o = olds[lead:len(olds) - trail]
        mi = idx[lead:len(idx) - trail] if trail else idx[lead:]
        if mid_o:
            k = flatidx(mi, mid_s) if mid_s else ZERO
            t = tuple(idx[:lead]) + unflatten(k, mid_o) + (tuple(idx[len(idx) - trail:]) if trail else ())
        else:
            t = tuple(idx[:lead]) + (tuple(idx[len(idx) - trail:]) if trail else ())
        return im(t) if im else t
    seq = None
    if len(shp) == 1 and a.ndim == 2 and a.seq is None:
        pass
    if a.seq is not None and len(shp) == 1 and a.ndim == 2:
        # rows of an irregular sequence
        seq = []
        for b, g, row in a.seq:
            k = row.shape[0].as_int()
            if k is not None:
                seq = None
                break
        r = Arr(a.store, shp, m)
        return r
    return Arr(a.store, shp, m, seq)


def np_ravel(I, a, order=None):
    if isinstance(a, Num):
        return toarr(PyList([a]))
    a = toarr(a)
    return np_reshape(I, a, num(-1), order)


def np_flatten(I, a, order=None):
    return dup(np_ravel(I, a, order))


def np_squeeze(I, a, axis=None):
    a = toarr(a)
    ax = axis_arg(I, axis, a.ndim)
    keep = [d for i, d in enumerate(a.shape) if not (d == ONE and (ax is None or i in ax))]
    return wrap0(reshape_to(I, a, keep)) if keep else reshape_to(I, a, ())


def np_expand_dims(I, a, axis):
    a = toarr(a)
    k = geti(I, axis).as_int() % (a.ndim + 1)
    s = list(a.shape)
    s.insert(k, ONE)
    return reshape_to(I, a, s)


def atleast(n):
    def f(I, *args):
        out = []
        for v in args:
            a = toarr(v)
            if a.ndim >= n:
                out.append(a)
                continue
            if n == 1:
                s = (ONE,)
            elif n == 2:
                s = (ONE, ONE) if a.ndim == 0 else (ONE, a.shape[0])
            else:
                s = {0: (ONE, ONE, ONE), 1: (ONE,) + a.shape + (ONE,), 2: a.shape + (ONE,)}[a.ndim]
            out.append(reshape_to(I, a, s))
        return out[0] if len(out) == 1 else tuple(out)
    return f


def seqlist(I, v):
    if isinstance(v, Arr):
        return [arr_get(I, v, Num(P(i), 'i')) for i in range(v.shape[0].as_int())] \
            if v.shape[0].as_int() is not None else None
    t, s = seq_of(I, v)
    if t != 'c':
        return None
    return s


def np_concatenate(I, arrs, axis=num(0), out=None, dtype=None):
    xs = seqlist(I, arrs)
    if xs is None:
        # concatenation of a symbolic list of equally shaped blocks
        if isinstance(arrs, PyList):
            return concat_gen(I, arrs)
        raise Undecided('concatenation of a symbolic sequence')
    xs = [toarr(x) for x in xs]
    if not xs:
        raise PyRaise('ValueError', 'need at least one array to concatenate')
    if axis is None:
        return concat([np_ravel(I, x) for x in xs], 0)
    return concat(xs, axis_arg(I, axis, xs[0].ndim)[0])


def concat_gen(I, l):
    segs = flat_segs(l.items)
    arrs = [toarr(v).frozen() for _, _, v in segs]
    kd = jk(*[a.kind for a in arrs])
    if len(segs) == 1 and len(segs[0][0]) == 1 and segs[0][1] == ONE:
        (bv,), g, _ = segs[0]
        a = arrs[0]
        m = a.shape[0]
        if bv not in m.fv:
            add_radix(m)

            def f(idx):
                return subst_get(a, (mod(idx[0], m),) + tuple(idx[1:]), {bv: fdiv(idx[0], m)})
            return from_fn((bv.hi * m,) + a.shape[1:], f, kd)
    if all(a.ndim == 1 for a in arrs):
        out = []
        for (b, g, _), a in zip(segs, arrs):
            if a.seq is not None:
                for b2, g2, v in a.seq:
                    out.append((tuple(b) + tuple(b2), g * g2, v))
            else:
                k = a.shape[0].as_int()
                if k is not None and k <= UNROLL and not b:
                    out += [(b, g, a.get((P(i),))) for i in range(k)]
                else:
                    j = fresh('k', hi=a.shape[0])
                    out.append((tuple(b) + (j,), g, a.get((P(j),))))
        return seq_array(out, kd)
    raise Undecided('concatenation of an irregular sequence')


def concat(xs, ax):
    kd = jk(*[a.kind for a in xs])
    nd = xs[0].ndim
    if nd == 0:
        raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
    for a in xs[1:]:
        if a.ndim != nd:
            raise PyRaise('ValueError', 'all the input array dimensions must match')
        for d in range(nd):
            df = a.shape[d] - xs[0].shape[d]
            if d != ax and df.is_const() and df != ZERO:
                raise PyRaise('ValueError', 'all the input array dimensions except for the concatenation '
                              'axis must match exactly')
    if len(xs) == 1:
        return dup(xs[0])
    fz = [a.frozen() for a in xs if a.shape[ax] != ZERO]
    if not fz:
        return dup(xs[0])
    if len(fz) == 1:
        r = dup(fz[0])
        return r if r.kind == kd else from_fn(r.shape, r.get, kd)
    offs = [ZERO]
    for a in fz:
        offs.append(offs[-1] + a.shape[ax])
    shp = list(fz[0].shape)
    shp[ax] = offs[-1]
    if nd == 1 and (any(a.seq is not None for a in fz) or offs[-1].as_int() is None):
        segs = []
        for a in fz:
            segs += bag_segs_ordered(a)
        r = from_fn(shp, lambda idx: piecewise(fz, offs, ax, idx), kd)
        r.seq = segs
        return r
    r = from_fn(shp, lambda idx: piecewise(fz, offs, ax, idx), kd)
    if offs[-1].as_int() is None and ax == 0:
        segs = []
        for a in fz:
            if a.seq is not None:
                segs += a.seq
            else:
                j = fresh('k', hi=a.shape[0])
                segs.append(((j,), ONE, row_at(a, P(j))))
        r.seq = segs
    return r


def row_at(a, p):
    return from_fn(a.shape[1:], lambda idx: a.get((p,) + tuple(idx)), a.kind, lazy=True)


def bag_segs_ordered(a):
    if a.seq is not None:
        return list(a.seq)
    k = a.shape[0].as_int()
    if k is not None and k <= UNROLL:
        return [((), ONE, a.get((P(i),))) for i in range(k)]
    j = fresh('k', hi=a.shape[0])
    return [((j,), ONE, a.get((P(j),)))]


def piecewise(fz, offs, ax, idx):
    k = idx[ax]
    out = ZERO
    for i, a in enumerate(fz):
        lo, hi = offs[i], offs[i + 1]
        g = ONE
        if i:
            g = g * le(lo, k)
        if i < len(fz) - 1:
            g = g * lt(k, hi)
        if not g.t:
            continue
        t = list(idx)
        t[ax] = k - lo
        v = a.get(tuple(t))
        if g == ONE:
            return v
        out = out + g * v
    return out


def np_hstack(I, arrs, **kw):
    xs = seqlist(I, arrs)
    if xs is None:
        return np_concatenate(I, arrs)
    xs = [atleast(1)(I, x) for x in xs]
    return concat(xs, 0 if xs[0].ndim == 1 else 1)


def np_vstack(I, arrs, **kw):
    xs = seqlist(I, arrs)
    if xs is None:
        a = toarr(arrs)
        if a.ndim == 2:
            return a
        if a.ndim == 3:
            return np_concatenate(I, arrs)
        raise Undecided('vstack')
    return concat([atleast(2)(I, x) for x in xs], 0)


def np_column_stack(I, arrs):
    xs = seqlist(I, arrs)
    if xs is None:
        return np_transpose(I, toarr(arrs))
    xs = [toarr(x) for x in xs]
    xs = [reshape_to(I, a, (a.shape[0], ONE)) if a.ndim == 1 else a for a in xs]
    return concat(xs, 1)


def np_stack(I, arrs, axis=None, **kw):
    a = toarr(arrs)
    if axis is not None:
        k = axis_arg(I, axis, a.ndim)[0]
        if k:
            return np_moveaxis(I, a, num(0), num(k))
    return a


def np_append(I, a, b, axis=None):
    if axis is None:
        return concat([np_ravel(I, a), np_ravel(I, b)], 0)
    x = toarr(a)
    return concat([x, toarr(b)], axis_arg(I, axis, x.ndim)[0])


def np_tile(I, a, reps):
    a = toarr(a).frozen()
    r = shape_arg(I, reps)
    nd = max(a.ndim, len(r))
    r = (ONE,) * (nd - len(r)) + tuple(r)
    shp = (ONE,) * (nd - a.ndim) + a.shape
    off = nd - a.ndim

    def f(idx):
        t = []
        for d in range(off, nd):
            if r[d] == ONE:
                t.append(idx[d])
            elif shp[d] == ONE:
                t.append(ZERO)
            else:
                add_radix(shp[d])
                t.append(mod(idx[d], shp[d]))
        return a.get(tuple(t))
    return from_fn(tuple(x * y for x, y in zip(shp, r)), f, a.kind)


def np_repeat(I, a, n, axis=None):
    args_n = n
    n = to_num(I, n) if not (isinstance(n, (PyList, tuple)) or isinstance(n, Arr) and n.ndim) else None
    a = toarr(a)
    if n is None:
        ks = toarr(args_n)
        k = ks.shape[0].as_int()
        ks = [ks.at(i).as_int() for i in range(k)] if k is not None and k <= 64 else [None]
        if None in ks:
            raise Undecided('repeat with varying counts')
        ids = PyList([num(i) for i, c in enumerate(ks) for _ in range(c)])
        if not ids.items:
            raise Undecided('repeat with varying counts')
        return np_take(I, a, toarr(ids), axis)
    n = n.p
    if axis is None:
        a = np_ravel(I, a)
        ax = 0
    else:
        ax = axis_arg(I, axis, a.ndim)[0]
    fz = a.frozen()
    shp = list(a.shape)
    shp[ax] = shp[ax] * n
    add_radix(n)

    def f(idx):
        t = list(idx)
        t[ax] = fdiv(idx[ax], n)
        return fz.get(tuple(t))
    return from_fn(shp, f, a.kind)


def np_flip(I, a, axis=None):
    a = toarr(a)
    ax = axis_arg(I, axis, a.ndim) or range(a.ndim)
    return arr_get(I, a, tuple(SliceV(None, None, num(-1)) if d in ax else SliceV(None, None, None)
                               for d in range(a.ndim)))


def np_roll(I, a, shift, axis=None):
    a = toarr(a)
    s = geti(I, shift)
    if axis is None:
        if a.ndim != 1:
            return np_reshape(I, np_roll(I, np_ravel(I, a), shift), tuple(Num(d, 'i') for d in a.shape))
        ax = 0
    else:
        ax = axis_arg(I, axis, a.ndim)[0]
    fz = a.frozen()
    n = a.shape[ax]

    def f(idx):
        t = list(idx)
        t[ax] = mod(idx[ax] - s, n)
        return fz.get(tuple(t))
    return from_fn(a.shape, f, a.kind)


def np_broadcast_to(I, a, shape, **kw):
    a = toarr(a)
    s = shape_arg(I, shape)
    fz = a.frozen()
    return from_fn(bshape([a.shape, s]), lambda idx: fz.get(bidx(fz.shape, idx)), a.kind)


def np_tri(lower):
    def f(I, a, k=None):
        a = toarr(a)
        kk = ZERO if k is None else geti(I, k)
        fz = a.frozen()
        if lower:
            return from_fn(a.shape, lambda idx: le(idx[-1], idx[-2] + kk) * fz.get(idx), a.kind)
        return from_fn(a.shape, lambda idx: le(idx[-2] + kk, idx[-1]) * fz.get(idx), a.kind)
    return f


def np_split(I, a, n, axis=None):
    a = toarr(a)
    ax = 0 if axis is None else axis_arg(I, axis, a.ndim)[0]
    if isinstance(n, Num):
        k = n.p.as_int()
        m = a.shape[ax]
        if k is None:
            raise Undecided('split')
        w = fdiv(m, P(k))
        cuts = [w * i for i in range(1, k)]
    else:
        cuts = [x.p for x in unpack_any(I, n)]
    cuts = [ZERO] + cuts + [a.shape[ax]]
    out = []
    for x, y in zip(cuts, cuts[1:]):
        s = [SliceV(None, None, None)] * a.ndim
        s[ax] = SliceV(Num(x, 'i'), Num(y, 'i'), None)
        out.append(arr_get(I, a, tuple(s)))
    return PyList(out)


# ------------------------------------------------------------------ ufuncs
def ufunc(f, kindf=None):
    def g(I, *args):
        xs = [arr0(a) for a in args]
        ks = [kind(x) for x in xs]
        return ew(f, kindf(*ks) if kindf else ('f' if 'c' not in ks else 'c'), *xs)
    g.arity = len([p for p in inspect.signature(f).parameters.values() if p.default is p.empty])
    return g


def same_kind(*ks):
    return jk(*ks)


def u_abs(I, x):
    if isinstance(x, Choice):
        return I.split(x, lambda y: u_abs(I, y))
    if isinstance(x, (str, PyDict)) or x is None:
        raise PyRaise('TypeError', 'bad operand type for abs()')
    if isinstance(x, Sparse):
        return Sparse(u_abs(I, x.arr), x.fmt)
    a = arr0(x)
    if kind(a) == 'c':
        return ew(lambda p: fn('cabs', p), 'f', a)
    return ew(absv, kind(a), a)


u_abs.arity = 1


def u_fn(name):
    def f(p):
        if name in ('sin', 'tan', 'sinh', 'tanh', 'arctan', 'arcsin', 'log1p', 'expm1') and not p.t:
            return ZERO
        if name in ('cos', 'exp', 'cosh') and not p.t:
            return ONE
        if name == 'log' and p == ONE:
            return ZERO
        if name == 'exp':
            q = p * T.I * (-1)
            if p.t and all(any(a.head == 'I' for a, _ in m) for m in p.t):
                # exp(i x) = cos x + i sin x
                return u_fn('cos')(q) + T.I * u_sin(q)
        if name == 'sin':
            return u_sin(p)
        if name == 'cos':
            q, s = canon_sign(p)
            return fn('cos', p if is_canon(p) else -p)
        return fn(name, p)
    return f


for _n in ('sin', 'cos', 'exp', 'tan', 'sinh', 'cosh', 'tanh', 'arctan', 'arcsin', 'log1p', 'expm1', 'log'):
    T.FN_BUILD.setdefault('f:' + _n, u_fn(_n))


def is_canon(p):
    q, s = canon_sign(p)
    return s > 0 if not isinstance(s, bool) else s


def u_sin(p):
    if not p.t:
        return ZERO
    if is_canon(p):
        return fn('sin', p)
    return -fn('sin', -p)


def u_sign(p):
    return lt(ZERO, p) - lt(p, ZERO)


def b_logic(op):
    def f(a, b):
        a, b = truth(a), truth(b)
        return {'and': lambda: a * b, 'or': lambda: b_or(a, b), 'xor': lambda: a + b - 2 * a * b}[op]()
    return f


def fop(name):
    def g(I, a, b):
        return I.binop(name, arr0(a), arr0(b))
    g.arity = 2
    return g


def hypot(a, b):
    return sqrt(a * a + b * b)


def real_part(p):
    """p = a + I b -> a, b (None if not separable)."""
    ia = T.I.as_atom()
    a, b = {}, {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(ia, 0)
        mm = tuple(sorted(d.items(), key=T._mk))
        if e == 0:
            a[mm] = c
        elif e == 1:
            b[mm] = c
        else:
            return None
    for q in (a, b):
        for m in q:
            for at, _ in m:
                if ia in T.deps(at):
                    return None
    return Poly(a), Poly(b)


def conj(p):
    r = real_part(p)
    if r is None:
        return fn('conj', p)
    return r[0] - T.I * r[1]


def u_real(I, x):
    a = arr0(x)
    if kind(a) != 'c':
        return a
    return ew(lambda p: real_part(p)[0] if real_part(p) else fn('real', p), 'f', a)


def u_imag(I, x):
    a = arr0(x)
    if kind(a) != 'c':
        return ew(lambda p: ZERO, kind(a), a)
    return ew(lambda p: real_part(p)[1] if real_part(p) else fn('imag', p), 'f', a)


def np_isclose(I, a, b, rtol=None, atol=None, equal_nan=None):
    rt = num(T.Fraction(1, 100000), 'f') if rtol is None else arr0(rtol)
    at = num(T.Fraction(1, 10 ** 8), 'f') if atol is None else arr0(atol)

    def f(x, y, r, t):
        return le(absv(x - y), t + r * absv(y))
    return ew(f, 'b', arr0(a), arr0(b), rt, at)


def np_allclose(I, a, b, rtol=None, atol=None, equal_nan=None):
    r = np_isclose(I, a, b, rtol, atol)
    return np_all(I, r)


def np_array_equal(I, a, b, **kw):
    x, y = toarr(a), toarr(b)
    if x.ndim != y.ndim or any((p - q).is_const() and p != q for p, q in zip(x.shape, y.shape)):
        return FALSE
    return np_all(I, ew(eq, 'b', x, y))


# -------------------------------------------------------------- reductions
def reduce_axes(I, a, axis, keepdims, comb, kd, empty=None):
    """comb(bvs|None, list of polys | body) reduces."""
    if isinstance(a, Num):
        a = toarr(a)
    ax = axis_arg(I, axis, a.ndim)
    if ax is None:
        ax = list(range(a.ndim))
    kd_ = keepdims is not None and I.truth(keepdims) == ONE
    keep = [d for d in range(a.ndim) if d not in ax]
    fz = a.frozen()
    rs = [a.shape[d] for d in ax]
    n = 1
    for d in rs:
        k = d.as_int()
        n = None if n is None or k is None else n * k
    shp = tuple(a.shape[d] for d in keep)

    def build(idx, t):
        full_ = [None] * a.ndim
        for d, i in zip(keep, idx):
            full_[d] = i
        for d, i in zip(ax, t):
            full_[d] = i
        return fz.get(tuple(full_))

    if a.seq is not None and 0 in ax and rs[0].as_int() is None and len(ax) == 1:
        def f(idx):
            parts = []
            for b, g, v in a.seq:
                body = v if isinstance(v, Poly) else v.get(tuple(idx))
                parts.append((b, g, body))
            return comb.segs(parts)
    elif n is not None and n <= LOOP_LIMIT:
        def f(idx):
            return comb.items([build(idx, tuple(P(i) for i in t)) for t in all_idx([d.as_int() for d in rs])])
    else:
        def f(idx):
            bvs = [fresh('r', hi=d) for d in rs]
            return comb.segs([(tuple(bvs), ONE, build(idx, tuple(P(b) for b in bvs)))])
    if not keep:
        r = Num(f(()), kd)
        if kd_:
            return full((ONE,) * a.ndim, r.p, kd)
        return r
    r = from_fn(shp, f, kd)
    if kd_:
        s = [ONE if d in ax else a.shape[d] for d in range(a.ndim)]
        r = reshape_to(I, r, s)
    return r


class SumC:
    @staticmethod
    def items(l):
        out = ZERO
        for x in l:
            out = out + x
        return out

    @staticmethod
    def segs(ps):
        out = ZERO
        for b, g, v in ps:
            out = out + (mk_sum(list(b), g * v) if b else g * v)
        return out


class ProdC:
    @staticmethod
    def items(l):
        out = ONE
        for x in l:
            out = out * x
        return out

    @staticmethod
    def segs(ps):
        out = ONE
        for b, g, v in ps:
            out = out * (binder('prod', list(b), ite(g, v, ONE)) if b else ite(g, v, ONE))
        return out


class AnyC:
    @staticmethod
    def items(l):
        out = ZERO
        for x in l:
            out = b_or(out, truth(x))
        return out

    @staticmethod
    def segs(ps):
        out = ZERO
        for b, g, v in ps:
            c = g * truth(v)
            out = b_or(out, exists(list(b), c) if b else c)
        return out


class AllC:
    @staticmethod
    def items(l):
        out = ONE
        for x in l:
            out = out * truth(x)
        return out

    @staticmethod
    def segs(ps):
        out = ZERO
        for b, g, v in ps:
            c = g * (ONE - truth(v))
            out = b_or(out, exists(list(b), c) if b else c)
        return ONE - out


def ext_c(mx):
    class C:
        @staticmethod
        def items(l):
            if not l:
                raise PyRaise('ValueError', 'zero-size array to reduction operation')
            out = l[0]
            for x in l[1:]:
                out = pmax(out, x) if mx else pmin(out, x)
            return out

        @staticmethod
        def segs(ps):
            parts = []
            ps = list(ps)
            while ps:
                b, g, v = ps.pop(0)
                ab = v.as_atom() if mx else None
                if ab is not None and ab.head == 'abs' and any(x in v.fv for x in b):
                    # largest size: the largest one or minus the smallest one
                    ps.insert(0, (b, g, ab.args[0]))
                    parts.append(-ext_c(False).segs([(b, g, ab.args[0])]))
                    continue
                if not b and g == ONE:
                    parts.append(v)
                elif b and not any(x in v.fv for x in b) and g == ONE:
                    parts.append(v)
                else:
                    integer = is_int(v)
                    base = binder('max' if mx else 'min', list(b), g, v)
                    at = base.as_atom()
                    lo = None
                    if integer and mx and prove_nonneg(v):
                        lo = ZERO
                    base = Poly.of(atom(at.head, *at.args, integer=integer, lo=lo))
                    parts.append(base)
            return C.items(parts)
    return C


def ufunc_reduce(f):
    def g(I, a, axis=num(0), dtype=None, out=None, keepdims=None, initial=None, where=None):
        if any(x is not None for x in (dtype, out, initial, where)):
            raise Undecided('arguments of reduce')
        return f(I, a, axis, keepdims=keepdims)
    return g


def np_sum(I, a, axis=None, dtype=None, out=None, keepdims=None, initial=None, **kw):
    if isinstance(a, Choice):
        return I.split(a, lambda x: np_sum(I, x, axis, dtype, out, keepdims))
    a = arr0(a)
    k = kind(a)
    r = reduce_axes(I, a, axis, keepdims, SumC, dkind(I, dtype, 'i' if k == 'b' else k))
    if initial is not None:
        r = I.binop('Add', r, initial)
    return r


def np_prod(I, a, axis=None, dtype=None, out=None, keepdims=None, **kw):
    a = arr0(a)
    k = kind(a)
    return reduce_axes(I, a, axis, keepdims, ProdC, 'i' if k == 'b' else k)


def np_any(I, a, axis=None, out=None, keepdims=None, **kw):
    return reduce_axes(I, arr0(a), axis, keepdims, AnyC, 'b')


def np_all(I, a, axis=None, out=None, keepdims=None, **kw):
    return reduce_axes(I, arr0(a), axis, keepdims, AllC, 'b')


def np_max(I, a, axis=None, out=None, keepdims=None, initial=None, **kw):
    if isinstance(a, (PyList, tuple)) and axis is None and all(isinstance(x, Num) for x in (a if isinstance(a, tuple) else a.items)):
        pass
    a = arr0(a)
    return reduce_axes(I, a, axis, keepdims, ext_c(True), kind(a))


def np_min(I, a, axis=None, out=None, keepdims=None, initial=None, **kw):
    a = arr0(a)
    return reduce_axes(I, a, axis, keepdims, ext_c(False), kind(a))


def np_mean(I, a, axis=None, dtype=None, out=None, keepdims=None):
    a = arr0(a)
    s = np_sum(I, a, axis, None, None, keepdims)
    if isinstance(a, Num):
        return Num(a.p, 'f')
    ax = axis_arg(I, axis, a.ndim)
    n = ONE
    for d in (range(a.ndim) if ax is None else ax):
        n = n * a.shape[d]
    return I.binop('Div', s, Num(n, 'i'))


def np_average(I, a, axis=None, weights=None, **kw):
    if weights is None:
        return np_mean(I, a, axis)
    w, a = toarr(weights), toarr(a)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        ax = axis_arg(I, axis, a.ndim)[0]
        w = np_reshape(I, w, tuple(Num(w.shape[0] if d == ax else ONE, 'i') for d in range(a.ndim)))
        return I.binop('Div', np_sum(I, I.binop('Mult', a, w), axis), np_sum(I, w))
    if w.ndim != a.ndim:
        raise Undecided('weights of an average')
    if axis is not None:
        return I.binop('Div', np_sum(I, I.binop('Mult', a, w), axis), np_sum(I, w, axis))
    return I.binop('Div', np_sum(I, I.binop('Mult', toarr(a), w), axis), np_sum(I, w))


def np_count_nonzero(I, a, axis=None, **kw):
    a = toarr(a)
    return np_sum(I, ew(truth, 'i', a), axis)


def np_cumsum(I, a, axis=None, dtype=None, out=None):
    a = toarr(a)
    if axis is None:
        a = np_ravel(I, a)
        ax = 0
    else:
        ax = axis_arg(I, axis, a.ndim)[0]
    fz = a.frozen()
    k = 'i' if a.kind == 'b' else a.kind

    def f(idx):
        n = idx[ax].as_int()
        if n is not None and n < LOOP_LIMIT:
            out = ZERO
            for i in range(n + 1):
                t = list(idx)
                t[ax] = P(i)
                out = out + fz.get(tuple(t))
            return out
        j = fresh('u', hi=idx[ax] + 1)
        t = list(idx)
        t[ax] = P(j)
        return mk_sum([j], fz.get(tuple(t)))
    return from_fn(a.shape, f, k)


def np_arg(mx):
    def f(I, a, axis=None, **kw):
        a = toarr(a)
        if a.ndim == 1 or axis is None:
            a = np_ravel(I, a)
            k = a.shape[0].as_int()
            if k is not None and k <= 64:
                vals = [a.get((P(i),)) for i in range(k)]
                best, bi = vals[0], ZERO
                for i, v in enumerate(vals[1:], 1):
                    c = lt(best, v) if mx else lt(v, best)
                    best = ite(c, v, best)
                    bi = ite(c, P(i), bi)
                return Num(bi, 'i')
        elif a.ndim == 2:
            fz, ax = a.frozen(), axis_arg(I, axis, 2)[0]
            n = a.shape[ax].as_int()
            if n is not None and n <= 16:
                row = lambda i: from_fn((n,), lambda j: fz.get((j[0], i[0]) if ax == 0 else (i[0], j[0])), a.kind)
                return from_fn((a.shape[1 - ax],), lambda i: f(I, row(i)).p, 'i')
        raise Undecided('argmax')
    return f


# ---------------------------------------------------------------- products
def np_dot(I, a, b, out=None):
    if isinstance(a, Choice):
        return I.split(a, lambda x: np_dot(I, x, b))
    if isinstance(b, Choice):
        return I.split(b, lambda x: np_dot(I, a, x))
    if isinstance(a, Sparse) or isinstance(b, Sparse):
        return PO.sparse_op(I, 'MatMult', a, b) if isinstance(a, Sparse) else np_matmul(I, a, b)
    a, b = wrap0(arr0(a)), wrap0(arr0(b))
    if isinstance(a, Num) or isinstance(b, Num):
        return I.binop('Mult', a, b)
    return contract_last(a, b)


def np_matmul(I, a, b):
    if isinstance(a, Choice):
        return I.split(a, lambda x: np_matmul(I, x, b))
    if isinstance(b, Choice):
        return I.split(b, lambda x: np_matmul(I, a, x))
    if isinstance(a, Sparse) and isinstance(b, Sparse):
        return Sparse(np_matmul(I, a.arr, b.arr), 'csr')
    a, b = wrap0(arr0(a)), wrap0(arr0(b))
    if isinstance(a, Num) or isinstance(b, Num):
        raise PyRaise('ValueError', 'matmul: Input operand does not have enough dimensions')
    if a.ndim <= 2 and b.ndim <= 2:
        return contract_last(a, b)
    # batched
    s1, s2 = a.shape, b.shape
    if a.ndim == 1 or b.ndim == 1:
        return contract_last(a, b)
    bs = bshape([s1[:-2] or (ONE,), s2[:-2] or (ONE,)])
    if not s1[:-2] and not s2[:-2]:
        bs = ()
    fa, fb = a.frozen(), b.frozen()

    def f(idx):
        bt, i, j = idx[:-2], idx[-2], idx[-1]
        ia = bidx(s1[:-2], bt)
        ib = bidx(s2[:-2], bt)
        return dot_sum(s1[-1], lambda k: fa.get(ia + (i, k)), lambda k: fb.get(ib + (k, j)))
    return from_fn(tuple(bs) + (s1[-2], s2[-1]), f, jk(a.kind, b.kind))


def check_dim(x, y):
    d = x - y
    if d.is_const() and d != ZERO:
        raise PyRaise('ValueError', 'shapes not aligned: %s (dim) != %s (dim)' % (x, y))
    return y if y.is_const() else x


def dot_sum(n, fa, fb):
    k = n.as_int()
    if k is not None and k <= LOOP_LIMIT:
        out = ZERO
        for i in range(k):
            x = fa(P(i))
            if not x.t:
                continue
            y = fb(P(i))
            if y.t:
                out = out + x * y
        return out
    v = fresh('d', hi=n)
    return mk_sum([v], fa(P(v)) * fb(P(v)))


def contract_last(a, b):
    n = check_dim(a.shape[-1], b.shape[-2] if b.ndim > 1 else b.shape[0])
    fa, fb = a.frozen(), b.frozen()
    sa = a.shape[:-1]
    sb = b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ()
    na = len(sa)
    kd = jk(a.kind, b.kind)
    if kd == 'b':
        raise Undecided('boolean product')
    hook = getattr(M.I, 'dot_hook', None)
    if hook is not None and a.ishape() is not None and b.ishape() is not None and a.ndim <= 2 and b.ndim <= 2:
        r = hook(a, b)
        if r is not None:
            return r

    def f(idx):
        ia, ib = tuple(idx[:na]), tuple(idx[na:])
        if b.ndim > 1:
            return dot_sum(n, lambda k: fa.get(ia + (k,)), lambda k: fb.get(ib[:-1] + (k,) + ib[-1:]))
        return dot_sum(n, lambda k: fa.get(ia + (k,)), lambda k: fb.get((k,)))
    if not sa and not sb:
        return Num(f(()), kd)
    return from_fn(sa + sb, f, kd)


def np_outer(I, a, b, **kw):
    a, b = np_ravel(I, a), np_ravel(I, b)
    fa, fb = a.frozen(), b.frozen()
    return from_fn((a.shape[0], b.shape[0]), lambda idx: fa.get((idx[0],)) * fb.get((idx[1],)), jk(a.kind, b.kind))


def multiply_outer(I, a, b, **kw):
    a, b = toarr(a).frozen(), toarr(b).frozen()
    return from_fn(a.shape + b.shape, lambda idx: a.get(tuple(idx[:a.ndim])) * b.get(tuple(idx[a.ndim:])), jk(a.kind, b.kind))


def for_outer(I, a, b):
    """a with an axis of length one for each axis of b."""
    a = toarr(a)
    return arr_get(I, a, tuple([SliceV(None, None, None)] * a.ndim + [None] * toarr(b).ndim))


def np_inner(I, a, b):
    a, b = wrap0(arr0(a)), wrap0(arr0(b))
    if isinstance(a, Num) or isinstance(b, Num):
        return I.binop('Mult', a, b)
    if b.ndim == 1:
        return contract_last(a, b)
    return contract_last(a, np_swapaxes(I, b, num(b.ndim - 1), num(b.ndim - 2)))


def np_vdot(I, a, b):
    a, b = np_ravel(I, a), np_ravel(I, b)
    if a.kind == 'c':
        a = ew(conj, 'c', a)
    return contract_last(a, b)


def np_kron(I, a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim != 2 or b.ndim != 2:
        if a.ndim == 1 and b.ndim == 1:
            fa, fb = a.frozen(), b.frozen()
            n = b.shape[0]
            add_radix(n)
            return from_fn((a.shape[0] * n,), lambda idx: fa.get((fdiv(idx[0], n),)) * fb.get((mod(idx[0], n),)),
                           jk(a.kind, b.kind))
        return prelude('kron')(I, a, b)
    fa, fb = a.frozen(), b.frozen()
    n, m = b.shape
    add_radix(n)
    add_radix(m)
    return from_fn((a.shape[0] * n, a.shape[1] * m),
                   lambda idx: fa.get((fdiv(idx[0], n), fdiv(idx[1], m))) * fb.get((mod(idx[0], n), mod(idx[1], m))),
                   jk(a.kind, b.kind))


def np_cross(I, a, b, **kw):
    a, b = toarr(a).frozen(), toarr(b).frozen()
    if a.ndim != 1 or b.ndim != 1:
        raise Undecided('cross')
    n, m = a.shape[0].as_int(), b.shape[0].as_int()
    if n == 2 and m == 2:
        raise PyRaise('ValueError', 'Both input arrays must be (arrays of) 3-dimensional vectors')
    x = [a.at(i) if i < n else ZERO for i in range(3)]
    y = [b.at(i) if i < m else ZERO for i in range(3)]
    v = [x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]
    return from_fn((3,), lambda i: v[i[0].as_int()], jk(a.kind, b.kind))


def np_tensordot(I, a, b, axes=None):
    a, b = toarr(a), toarr(b)
    if axes is None:
        k = 2
    elif isinstance(axes, Num):
        k = axes.p.as_int()
    else:
        xs, ys = unpack(I, axes, 2)
        xa = axis_arg(I, xs, a.ndim)
        ya = axis_arg(I, ys, b.ndim)
        k = None
    if k is not None:
        xa = list(range(a.ndim - k, a.ndim))
        ya = list(range(k))
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(110 + i) for i in range(b.ndim)]
    for x, y in zip(xa, ya):
        lb[y] = la[x]
    out = [c for i, c in enumerate(la) if i not in xa] + [c for i, c in enumerate(lb) if i not in ya]
    return np_einsum(I, ''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), a, b)


def np_einsum(I, spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Undecided('einsum form')
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Undecided('einsum with ellipsis')
    ins, arrow, out = spec.partition('->')
    ins = ins.split(',')
    if not arrow:
        allc = ''.join(ins)
        out = ''.join(sorted(c for c in set(allc) if allc.count(c) == 1))
    ops = [toarr(o).frozen() for o in ops]
    if len(ops) != len(ins):
        raise PyRaise('ValueError', 'einsum: wrong number of operands')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise PyRaise('ValueError', 'einsum: operand has wrong number of dimensions')
        for c, d in zip(s, o.shape):
            if c in dims and dims[c] != d:
                if dims[c] == ONE:
                    dims[c] = d
                    continue
                if d == ONE:
                    continue
                df = dims[c] - d
                if df.is_const():
                    raise PyRaise('ValueError', 'einsum: dimension mismatch')
            dims.setdefault(c, d)
    if len(ops) > 2 and all(len(set(x)) == len(x) for x in ins):
        later = set(out).union(*ins[2:])
        mid = ''.join(c for c in dict.fromkeys(ins[0] + ins[1]) if c in later)
        if all(dims[c].as_int() is not None and dims[c].as_int() <= LOOP_LIMIT for c in mid):
            first = toarr(np_einsum(I, '%s,%s->%s' % (ins[0], ins[1], mid), *ops[:2]))
            return np_einsum(I, ','.join([mid] + ins[2:]) + '->' + out, first, *ops[2:])
    summed = [c for c in dims if c not in out]

    def f(idx):
        env = dict(zip(out, idx))

        def rec(i, env):
            if i == len(summed):
                t = ONE
                for s, o in zip(ins, ops):
                    t = t * o.get(tuple(ZERO if o.shape[d] == ONE else env[c] for d, c in enumerate(s)))
                    if not t.t:
                        return ZERO
                return t
            c = summed[i]
            k = dims[c].as_int()
            if k is not None and k <= LOOP_LIMIT:
                r = ZERO
                for j in range(k):
                    env[c] = P(j)
                    r = r + rec(i + 1, env)
                return r
            v = fresh('e', hi=dims[c])
            env[c] = P(v)
            return mk_sum([v], rec(i + 1, env))
        return rec(0, dict(env))
    kd = jk(*[o.kind for o in ops])
    if not out:
        return Num(f(()), kd)
    return from_fn(tuple(dims[c] for c in out), f, kd)


# ---------------------------------------------------------- linear algebra
def det_poly(m):
    n = len(m)
    if n == 0:
        return ONE
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    out = ZERO
    for j in range(n):
        if not m[0][j].t:
            continue
        sub = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = m[0][j] * det_poly(sub)
        out = out + t if j % 2 == 0 else out - t
    return out


def cells2(a):
    n, m = a.shape[0].as_int(), a.shape[1].as_int()
    if n is None or m is None:
        return None
    return [[a.at(i, j) for j in range(m)] for i in range(n)]


def la_square(a):
    if a.ndim != 2:
        if a.ndim > 2:
            raise Undecided('stacked linear algebra')
        raise PyRaise('LinAlgError', '%d-dimensional array given' % a.ndim)
    d = a.shape[0] - a.shape[1]
    if d.is_const() and d != ZERO:
        raise PyRaise('LinAlgError', 'Last 2 dimensions of the array must be square')


def np_det(I, a):
    a = toarr(a)
    la_square(a)
    m = cells2(a)
    if m is None or len(m) > 4:
        return Num(Poly.of(atom('det', canon(a))), 'f')
    hook = getattr(I, 'la_hook', None)
    if hook is not None:
        r = hook('det', m)
        if r is not None:
            return Num(r, 'f')
    return Num(det_poly(m), a.kind if a.kind == 'c' else 'f')


def np_inv(I, a):
    a = toarr(a)
    la_square(a)
    m = cells2(a)
    if m is None or len(m) > 4:
        c = canon(a)
        return from_fn(a.shape, lambda idx: Poly.of(atom('minv', c, tuple(idx))), 'f')
    hook = getattr(I, 'la_hook', None)
    if hook is not None:
        r = hook('inv', m)
        if r is not None:
            n = len(m)
            return from_fn((n, n), lambda i: r[i[0].as_int()][i[1].as_int()], 'f')
    n = len(m)
    d = det_poly(m)
    if not d.t:
        raise PyRaise('LinAlgError', 'Singular matrix')
    di = inverse(d) if not d.is_const() else P(1 / d.const())

    def f(idx):
        i, j = idx[0].as_int(), idx[1].as_int()
        sub = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
        v = det_poly(sub)
        return (v if (i + j) % 2 == 0 else -v) * di
    return from_fn((n, n), f, a.kind if a.kind == 'c' else 'f')


def np_solve(I, a, b):
    aa = a.arr if isinstance(a, Sparse) else toarr(a)
    la_square(aa)
    m = cells2(aa)
    if m is not None and len(m) <= 3:
        return np_matmul(I, np_inv(I, aa), b)
    return solve_atom(I, aa, b)


def solve_atom(I, a, b):
    b = b.arr if isinstance(b, Sparse) else toarr(b)
    ca, cb = canon(a), canon(b)
    shp = b.shape
    if len(shp) == 2 and shp[1] == ONE:
        pass
    return from_fn(shp, lambda idx: Poly.of(atom('solve', ca, cb, tuple(idx))), 'f')


def sp_solve(I, a, b, lower=None, overwrite_a=None, overwrite_b=None, check_finite=None, assume_a=None, transposed=None):
    """scipy.linalg.solve: for structured matrices only one triangle is read."""
    a = toarr(a)
    if overwrite_a is not None and I.truth(overwrite_a) != ZERO:
        raise Undecided('overwriting solver')
    if overwrite_b is not None and I.truth(overwrite_b) != ZERO:
        if I.truth(overwrite_b) != ONE or not isinstance(b, Arr) or b.ndim != 1 or b.kind != 'f' or a.kind != 'f':
            raise Undecided('overwriting solver')
        r = sp_solve(I, a, b, lower=lower, assume_a=assume_a, transposed=transposed)
        TABLE['numpy.copyto'].fn(I, b, r)
        return r
    if transposed is not None and I.truth(transposed) == ONE:
        a = np_transpose(I, a)
    if assume_a in (None, 'gen', 'general'):
        return np_solve(I, a, b)
    if assume_a not in ('sym', 'symmetric', 'her', 'hermitian', 'pos', 'positive definite'):
        raise Undecided('solver for a structured matrix')
    low = lower is not None and I.truth(lower) == ONE
    fz = a.frozen()

    def f(idx):
        i, j = idx
        up = T.le(j, i) if low else T.le(i, j)
        return up * fz.get((i, j)) + (ONE - up) * fz.get((j, i))
    return np_solve(I, from_fn(a.shape, f, a.kind), b)


def factored(I, a, **kw):
    """splu, factorized: the matrix remembered for the solution."""
    if kw:
        raise Undecided('options of the factorisation')
    m = a.arr if isinstance(a, Sparse) else toarr(a)
    return Sparse(dup(m), 'csc')


def factorized(I, a):
    m = factored(I, a)
    return Builtin('solve', lambda I, b: np_solve(I, m, b))


def splu(I, a, **kw):
    m = factored(I, a, **kw)
    solve = Builtin('solve', lambda I, b, trans='N': np_solve(I, m if trans == 'N' else Sparse(np_transpose(I, m.arr), 'csc'), b))
    have = {'solve': solve, 'shape': tuple(Num(d, 'i') for d in m.arr.shape)}

    def attr(name):
        if name not in have:
            raise Undecided('attribute %s of the factorisation' % name)
        return have[name]
    return SymObj('SuperLU', attr=attr)


def lu_factor(I, a, **kw):
    return Opq('lu', dup(toarr(a)))


def lu_solve(I, lu, b, trans=None, **kw):
    if not isinstance(lu, Opq) or lu.tag != 'lu':
        raise Undecided('factors of unknown origin')
    a = lu.parts[0]
    if trans is not None and not (isinstance(trans, Num) and trans.p == ZERO):
        a = np_transpose(I, a)
    return np_solve(I, a, b)


def approximate(name):
    """Iterative solvers: the result is near the solution only to the tolerance asked for."""
    def f(I, a, b, *r, **kw):
        x = solve_atom(I, a.arr if isinstance(a, Sparse) else toarr(a), b)
        e = lambda idx: Poly.of(atom('iterate', name, tuple(idx)))
        return from_fn(x.shape, lambda idx: x.get(idx) + e(idx), 'f'), Num(ZERO, 'i')
    f.lenient = True
    return f


def cutoff(I, *tols):
    """Singular values are dropped only below rounding?"""
    for t in tols:
        if t is None:
            continue
        c = t.p if isinstance(t, Num) else None
        c = c.const() if c is not None and c.is_const() else None
        if c is None:
            raise Undecided('cut-off of the singular values')
        if c > Fraction(1, 10 ** 9):
            return True
        if c > Fraction(1, 10 ** 13):
            raise Undecided('cut-off of the singular values')
    return False


def off(x, name):
    """Right only where no singular value is dropped."""
    return from_fn(x.shape, lambda idx: x.get(idx) + Poly.of(atom('iterate', name, tuple(idx))), 'f')


def np_lstsq(I, a, b, rcond=None, cond=None, **kw):
    if kw:
        raise Undecided('options of lstsq')
    aa = a.arr if isinstance(a, Sparse) else toarr(a)
    la_square(aa)
    x = np_solve(I, aa, b)
    if cutoff(I, rcond, cond):
        x = off(x, 'lstsq')
    return x, Opq('residuals'), Num(aa.shape[0], 'i'), Opq('singular values')


def np_pinv(I, a, rcond=None, hermitian=None, rtol=None, atol=None, **kw):
    if kw or hermitian is not None:
        raise Undecided('options of pinv')
    aa = toarr(a)
    la_square(aa)
    x = np_inv(I, aa)
    return off(x, 'pinv') if cutoff(I, rcond, rtol, atol) else x


def np_norm(I, a, ord=None, axis=None, keepdims=None):
    a = arr0(a)
    if kind(a) == 'c':
        raise Undecided('complex norm')
    if ord is not None and not (isinstance(ord, Num) and ord.p == P(2)) and ord != 'fro':
        if isinstance(ord, Num) and ord.p == ONE and not isinstance(a, Num) and (a.ndim == 1):
            return np_sum(I, u_abs(I, a), axis, None, None, keepdims)
        if isinstance(ord, Num) and ord.p == fn('inf') and not isinstance(a, Num) and a.ndim == 1:
            return np_max(I, u_abs(I, a), axis)
        raise Undecided('norm order')
    if ord is not None and isinstance(ord, Num) and not isinstance(a, Num) and a.ndim == 2 and axis is None:
        raise Undecided('spectral norm')
    s = np_sum(I, ew(lambda x: x * x, 'f', a), axis, None, None, keepdims)
    return ew(sqrt, 'f', s)


def np_eig(name):
    def f(I, a, *r, **kw):
        a = toarr(a)
        la_square(a)
        c = canon(a)
        w = from_fn((a.shape[0],), lambda idx: Poly.of(atom('eigval', name, c, idx[0])), 'f')
        v = from_fn(a.shape, lambda idx: Poly.of(atom('eigvec', name, c, tuple(idx))), 'f')
        if name.endswith('vals') or name.endswith('valsh'):
            return w
        return (w, v)
    return f


# --------------------------------------------------------------- selection
def np_where(I, c, a=None, b=None):
    c = arr0(c)
    if a is None:
        if isinstance(c, Num):
            c = toarr(c)
        if kind(c) != 'b':
            c = ew(truth, 'b', c)
        return np_nonzero(I, c)
    if isinstance(a, Opq) or isinstance(b, Opq):
        raise Undecided('where')
    x, y = arr0(a), arr0(b)
    f = (lambda p, q, r: ite(p, q, r)) if kind(c) == 'b' else (lambda p, q, r: ite(truth(p), q, r))
    return ew(f, jk(kind(x), kind(y)), c, x, y)


def np_nonzero(I, a):
    a = toarr(a)
    if a.kind != 'b':
        a = ew(truth, 'b', a)
    if a.ndim == 1:
        return (mask_to_idx(a),)
    ish = a.ishape()
    if ish is not None and small(a.shape) is not None and small(a.shape) <= 400:
        hits = []
        ok = True
        for i in all_idx(ish):
            v = a.get(tuple(P(k) for k in i))
            if not v.is_const():
                ok = False
                break
            if v.const():
                hits.append(i)
        if ok:
            return tuple(from_fn((len(hits),), lambda idx, d=d: P(hits[idx[0].as_int()][d]), 'i')
                         for d in range(a.ndim))
    fz = a.frozen()
    bvs = tuple(fresh('m', hi=d) for d in a.shape)
    g = fz.get(tuple(P(b) for b in bvs))
    n = mk_sum(list(bvs), g)
    out = []
    x = fresh('m', hi=total(a.shape))
    ii = unflatten(P(x), a.shape)
    gx = fz.get(ii)
    for d in range(a.ndim):
        r = Arr(Store('i', Lazy(lambda idx, d=d: unflatten(nth(x, gx, idx[0]), a.shape)[d])), (n,))
        r.seq = [(bvs, g, P(bvs[d]))]
        out.append(r)
    return tuple(out)


def np_flatnonzero(I, a):
    return np_nonzero(I, np_ravel(I, a))[0]


def np_argwhere(I, a):
    t = np_nonzero(I, a)
    return np_transpose(I, toarr(PyList(list(t)))) if all(x.seq is None for x in t) else np_column_stack(I, PyList(list(t)))


def np_unique(I, a, return_index=None, return_inverse=None, return_counts=None, axis=None, **kw):
    if axis is not None:
        raise Undecided('unique along an axis')
    a = toarr(a)
    ish = a.ishape()
    if any(x is not None and I.truth(x) == ONE for x in (return_index, return_inverse, return_counts)):
        return unique_more(I, a, return_index, return_inverse, return_counts)
    if ish is not None and small(a.shape) is not None:
        vals = [a.get(tuple(P(k) for k in i)) for i in all_idx(ish)]
        if all(v.is_const() for v in vals):
            u = sorted({v.const() for v in vals})
            return from_fn((len(u),), lambda idx: P(u[idx[0].as_int()]), a.kind)
    return uniq_array(bag_segs(a), a.kind)


def unique_more(I, a, return_index, return_inverse, return_counts):
    fz = a.frozen()
    flat = np_ravel(I, a)
    n = flat.shape[0]
    ff = flat.frozen()
    bag, low = uniq_bag(bag_segs(a), a.kind)
    m = ucard(bag)

    def elem(j):
        return uelem(bag, j) - low

    def at(idx, f):
        k = T.fresh('k', hi=n)
        return mk_sum([k], f(P(k)) * eq(ff.get((P(k),)), elem(idx[0])))

    def first(k):
        j = T.fresh('j', hi=k)
        return k * (ONE - exists([j], eq(ff.get((P(j),)), ff.get((k,)))))
    u = Arr(Store(a.kind, Lazy(lambda idx: elem(idx[0]))), (m,))
    u.uniq = True
    out = [u]
    for wanted, make in ((return_index, lambda: from_fn((m,), lambda idx: at(idx, first), 'i')),
                         (return_inverse, lambda: from_fn(a.shape, lambda idx: urank(bag, fz.get(idx) + low), 'i')),
                         (return_counts, lambda: from_fn((m,), lambda idx: at(idx, lambda k: ONE), 'i'))):
        if wanted is not None and I.truth(wanted) == ONE:
            out.append(make())
    return tuple(out)


def np_bincount(I, x, weights=None, minlength=None):
    a = toarr(x)
    if weights is not None:
        w = toarr(weights)
    n = np_max(I, a).p + 1
    if minlength is not None:
        n = pmax(geti(I, minlength), n)
    segs = bag_segs_ordered(a)
    if weights is not None:
        ws = bag_segs_ordered(w)
        segs = align(align(None, segs), ws)
        return from_fn((n,), lambda idx: SumC.segs([(b, g, eq(v[0], idx[0]) * v[1]) for b, g, v in segs]), 'f')
    return from_fn((n,), lambda idx: SumC.segs([(b, g, eq(v, idx[0])) for b, g, v in segs]), 'i')


def np_sort(I, a, axis=-1, **kw):
    a = dup(toarr(a))
    if not a.shape:
        raise PyRaise('AxisError', 'axis -1 is out of bounds for array of dimension 0')
    if axis is None:
        a = np_ravel(I, a)
        axis = -1
    ax = axis_arg(I, axis, a.ndim)[0] if isinstance(axis, Num) else axis % a.ndim
    k = a.shape[ax].as_int()
    if a.ndim == 1 and k is not None:
        vals = [a.get((P(i),)) for i in range(k)]
        if all(v.is_const() for v in vals):
            vals = sorted(vals, key=lambda v: v.const())
            return from_fn((k,), lambda idx: vals[idx[0].as_int()], a.kind)
        if k == 2:
            lo, hi = pmin(*vals), pmax(*vals)
            return from_fn((2,), lambda idx: (lo, hi)[idx[0].as_int()], a.kind)
    if a.uniq and a.ndim == 1:
        return a
    return ordered(a, ax, lambda at, q: at(q), a.kind)


def np_argsort(I, a, axis=-1, kind=None, **kw):
    a = toarr(a)
    if axis is None:
        a = np_ravel(I, a)
        axis = -1
    ax = axis_arg(I, axis, a.ndim)[0] if isinstance(axis, Num) else axis % a.ndim
    return ordered(a, ax, lambda at, q: P(q), 'i')


def ordered(a, ax, what, kd):
    """Entry i along the axis: the element whose rank is i (a stable sort)."""
    if a.kind == 'c':
        raise Undecided('sorting complex numbers')
    fz = a.frozen()
    n = a.shape[ax]
    k = n.as_int()
    if k is not None and k > 8:
        raise Undecided('sorting symbolic values')

    def f(idx):
        idx = list(idx)
        i = idx[ax]

        def at(q):
            return fz.get(tuple(idx[:ax] + [P(q)] + idx[ax + 1:]))

        def before(j, q, x):
            return T.lt(at(j), x) + T.eq(at(j), x) * T.lt(P(j), P(q))
        if k is not None:
            out = ZERO
            for q in range(k):
                x = at(q)
                r = sum((T.le(at(j), x) if j < q else T.lt(at(j), x) for j in range(k) if j != q), ZERO)
                out = out + T.eq(r, i) * what(at, q)
            return out
        q, j = fresh('q', hi=n), fresh('j', hi=n)
        x = at(P(q))
        r = T.mk_sum([j], before(P(j), P(q), x))
        return T.mk_sum([q], T.eq(r, i) * what(at, P(q)))
    return from_fn(a.shape, f, kd)


def np_ptp(I, a, axis=None, out=None, keepdims=None):
    return I.binop('Sub', np_max(I, a, axis, None, keepdims), np_min(I, a, axis, None, keepdims))


def np_isin(I, a, b, assume_unique=None, invert=None, **kw):
    a = arr0(a)
    bs = bag_segs(toarr(b)) if not isinstance(b, (SymSet, PySet)) else None
    if bs is None:
        raise Undecided('isin with a set')
    inv = invert is not None and I.truth(invert) == ONE

    def f(p):
        out = ZERO
        for bv, g, v in bs:
            e = g * eq(v, p)
            out = b_or(out, exists(list(bv), e) if bv else e)
        return ONE - out if inv else out
    return ew(f, 'b', a)


def np_ix_(I, *args):
    out = []
    n = len(args)
    for d, v in enumerate(args):
        a = toarr(v)
        if a.kind == 'b':
            a = mask_to_idx(a)
        if a.kind == 'f' and a.shape[0] == ZERO:
            a = full((0,), ZERO, 'i')
        s = [ONE] * n
        s[d] = a.shape[0]
        r = reshape_to(I, a, s)
        out.append(r)
    return tuple(out)


def add_at(I, a, idx, v=None):
    if v is None:
        raise Undecided('ufunc.at')
    scatter(I, a, idx, v, ONE)


def sub_at(I, a, idx, v=None):
    scatter(I, a, idx, v, P(-1))


def scatter(I, a, k, v, sign):
    """Unbuffered accumulation: every selected position contributes."""
    if not isinstance(a, Arr):
        raise Undecided('ufunc.at on a non-array')
    s = select(I, a, k)
    va = arr0(v)
    if a.kind == 'i' and kind(va) in 'fc':
        raise PyRaise('UFuncTypeError', 'cannot cast ufunc output')
    arr_set_add(I, a, k, va if sign == ONE else ew(lambda x: -x, kind(va), va))


def arr_set_add(I, a, k, v):
    arr_set(I, a, k, v, 'add')


def np_take(I, a, idx, axis=None, mode=None):
    a = toarr(a)
    if mode not in (None, 'raise'):
        n = total(a.shape) if axis is None else a.shape[axis_arg(I, axis, a.ndim)[0]]
        if mode == 'clip':
            idx = ew(lambda p: pmin(pmax(p, ZERO), n - 1), 'i', arr0(idx))
        elif mode == 'wrap':
            idx = I.binop('Mod', arr0(idx), Num(n, 'i'))
        else:
            raise Undecided('take')
    if axis is None:
        a = np_ravel(I, a)
        ax = 0
    else:
        ax = axis_arg(I, axis, a.ndim)[0]
    return arr_get(I, a, tuple([SliceV(None, None, None)] * ax + [idx]))


def np_delete(I, a, obj, axis=None):
    a = toarr(a)
    if axis is None:
        a = np_ravel(I, a)
        ax = 0
    else:
        ax = axis_arg(I, axis, a.ndim)[0]
    n = a.shape[ax]
    if isinstance(obj, Num):
        sel_ = [pos(obj.p, n)]
        segs = [((), ONE, sel_[0])]
    else:
        o = toarr(obj)
        if o.kind == 'b':
            m = ew(lambda x: ONE - x, 'b', o)
            return arr_get(I, a, tuple([SliceV(None, None, None)] * ax + [m]))
        segs = [(b, g, pos(v, n)) for b, g, v in bag_segs(o)]
    x = fresh('k', hi=n)

    def keep(p):
        out = ZERO
        for bv, g, v in segs:
            e = g * eq(v, p)
            out = b_or(out, exists(list(bv), e) if bv else e)
        return ONE - out
    m = from_fn((n,), lambda idx: keep(idx[0]), 'b')
    return arr_get(I, a, tuple([SliceV(None, None, None)] * ax + [m]))


def np_setdiff1d(I, a, b, **kw):
    a = toarr(a)
    segs = bag_segs(a)
    bs = bag_segs(toarr(b))
    out = []
    for bv, g, v in segs:
        ex = ZERO
        for b2, g2, v2 in bs:
            e = g2 * eq(v2, v)
            ex = b_or(ex, exists(list(b2), e) if b2 else e)
        out.append((bv, g * (ONE - ex), v))
    return uniq_array(out, a.kind)


def np_copyto(I, a, v):
    arr_set(I, a, ELL, v)


def np_fill_diagonal(I, a, v, *r):
    n = a.shape[0]
    i = from_fn((n,), lambda idx: idx[0], 'i')
    arr_set(I, a, (i, i), v)


def np_meshgrid(I, *args, indexing=None, sparse=None, copy=None):
    xs = [np_ravel(I, a).frozen() for a in args]
    ij = indexing == 'ij'
    n = len(xs)
    shp = [x.shape[0] for x in xs]
    axes = list(range(n))
    if not ij and n >= 2:
        shp[0], shp[1] = shp[1], shp[0]
        axes[0], axes[1] = 1, 0
    return tuple(from_fn(tuple(shp), lambda idx, d=d: xs[d].get((idx[axes[d]],)), xs[d].kind) for d in range(n))


def grid_index(I, name, k):
    if name == 'numpy.s_':
        return k
    if name in ('numpy.r_', 'numpy.c_'):
        parts = k if isinstance(k, tuple) else (k,)
        out = []
        for p in parts:
            if isinstance(p, SliceV):
                p = grid_axis(I, p)
            elif isinstance(p, str):
                raise Undecided('r_ directive')
            out.append(atleast(1)(I, p))
        if name == 'numpy.r_':
            return concat(out, 0)
        return np_column_stack(I, PyList(out))
    ks = k if isinstance(k, tuple) else (k,)
    axs = [grid_axis(I, s).frozen() for s in ks]
    shp = tuple(a.shape[0] for a in axs)
    kd = jk(*[a.kind for a in axs])
    if name == 'numpy.ogrid':
        return tuple(reshape_to(I, a, tuple(a.shape[0] if j == d else ONE for j in range(len(axs))))
                     for d, a in enumerate(axs))
    if not isinstance(k, tuple):
        return axs[0]

    def f(idx):
        d = idx[0].as_int()
        if d is None:
            return sel(tuple(a.get((idx[1 + j],)) for j, a in enumerate(axs)), idx[0])
        return axs[d].get((idx[1 + d],))
    return from_fn((P(len(axs)),) + shp, f, kd)


def grid_axis(I, s):
    a = num(0) if s.a is None else to_num(I, s.a)
    b = to_num(I, s.b)
    c = s.c
    if isinstance(c, Num) and c.k == 'c':
        r = real_part(c.p)
        if r is None or r[0].t:
            raise Undecided('grid step')
        n = r[1]
        if not is_int(n):
            n = trunc(n)
        return np_linspace(I, a, b, Num(n, 'i'))
    return np_arange(I, a, b, num(1) if c is None else c)


# --------------------------------------------------------------------- I/O
def np_loadtxt(I, fname, *a, **kw):
    I.effects_add(('call', 'numpy.loadtxt', (fname,) + tuple(a), dict(kw)))
    h = getattr(I, 'file_hook', None)
    if h is None:
        raise Undecided('file input')
    return h(I, fname, a, kw)


def np_savetxt(I, fname, x, fmt=None, *a, **kw):
    I.effects_add(('savetxt', fname, freeze(x), fmt, tuple(a), dict(kw)))
    return None


def leggauss(I, n):
    k = geti(I, n).as_int()
    if k is None:
        raise Undecided('Gauss-Legendre rule of symbolic order')
    x, w = gauss_legendre(k)
    return (from_fn((k,), lambda i: P(x[i[0].as_int()]), 'f'), from_fn((k,), lambda i: P(w[i[0].as_int()]), 'f'))


def gauss_legendre(n):
    """Rational approximations of the nodes and weights (40 digits)."""
    from decimal import Decimal, getcontext
    import math
    getcontext().prec = 60
    xs, ws = [], []
    for i in range(n):
        x = Decimal(math.cos(math.pi * (i + 0.75) / (n + 0.5)))
        for _ in range(8):
            p0, p1 = Decimal(1), x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            if n == 1:
                p1, p0 = x, Decimal(1)
            dp = n * (x * p1 - p0) / (x * x - 1)
            x = x - p1 / dp
        p0, p1 = Decimal(1), x
        for k in range(2, n + 1):
            p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
        dp = n * (x * p1 - p0) / (x * x - 1)
        w = 2 / ((1 - x * x) * dp * dp)
        q = Decimal(10) ** -40
        xs.append(Fraction(x.quantize(q)))
        ws.append(Fraction(w.quantize(q)))
    return list(reversed(xs)), list(reversed(ws))


# -------------------------------------------------------- array attributes
def arr_attr(I, a, name):
    if isinstance(a, Num):
        if name in ('real',):
            return u_real(I, a)
        if name == 'imag':
            return u_imag(I, a)
        if name == 'shape':
            return ()
        if name == 'ndim':
            return num(0)
        if name == 'size':
            return num(1)
        if name == 'is_integer':
            return Builtin('is_integer', lambda I: Num(eq(trunc(a.p), a.p), 'b'))
        if name == 'T':
            return a
        if name == 'dtype':
            return Opq('dtype', a.k)
        cls = {'b': 'int', 'i': 'numpy.int64', 'f': 'numpy.float64', 'c': 'complex'}[a.k]
        if name not in EXT.get('@' + cls, ()) and name not in EXT['@ndarray']:
            raise PyRaise('AttributeError', "'%s' object has no attribute '%s'" % (cls, name))
    else:
        if name == 'shape':
            return tuple(Num(d, 'i') for d in a.shape)
        if name == 'ndim':
            return num(a.ndim)
        if name == 'size':
            return Num(total(a.shape), 'i')
        if name == 'T':
            return np_transpose(I, a)
        if name == 'dtype':
            return Opq('dtype', a.kind)
        if name == 'real':
            return u_real(I, a)
        if name == 'imag':
            return u_imag(I, a)
        if name == 'flat':
            return np_ravel(I, a)
    m = METHODS.get(name)
    if m is not None:
        return Builtin('ndarray.' + name, lambda I, *r, **kw: m(I, a, *r, **kw))
    if name in EXT['@ndarray'] or name in EXT.get('@numpy.float64', ()):
        raise Undecided('array attribute %s' % name)
    raise PyRaise('AttributeError', "'numpy.ndarray' object has no attribute '%s'" % name)


def m_reshape(I, a, *s, order=None, **kw):
    a = toarr(a)
    return np_reshape(I, a, s[0] if len(s) == 1 else tuple(s), order)


def m_transpose(I, a, *s):
    if not s or s[0] is None:
        return np_transpose(I, a)
    return np_transpose(I, a, s[0] if len(s) == 1 and not isinstance(s[0], Num) else tuple(s))


def m_fill(I, a, v):
    arr_set(I, a, ELL, v)


def m_tolist(I, a):
    a = toarr(a)
    if a.ndim == 0:
        return Num(a.get(()), a.kind)
    if a.ndim == 1:
        return PyList(to_items(I, a))
    n = a.shape[0].as_int()
    if n is not None and n <= UNROLL_IT:
        return PyList([m_tolist(I, arr_get(I, a, Num(P(i), 'i'))) for i in range(n)])
    j = fresh('l', hi=a.shape[0])
    return PyList([Gen(j, ONE, (m_tolist(I, arr_get(I, a, Num(P(j), 'i'))),))])


def m_item(I, a, *k):
    if not k:
        return to_num(I, a) if isinstance(a, Num) else to_num(I, np_squeeze(I, a) if a.ndim else a)
    if len(k) == 1 and isinstance(k[0], Num) and a.ndim > 1:
        return arr_get(I, np_ravel(I, a), k[0])
    return arr_get(I, a, k if len(k) > 1 else k[0])


def m_copy(I, a, *r, **kw):
    return dup(a) if isinstance(a, Arr) else a


def m_astype(I, a, dt, *r, **kw):
    if isinstance(a, Num):
        k = dkind(I, dt)
        return Num(cast(a.p, k, a.k), k)
    k = dkind(I, dt)
    if k == a.kind and no_copy(I, kw.get('copy')):
        return a
    return astype(I, a, k)


def m_round(I, a, n=None, **kw):
    a = arr0(a)
    if kind(a) in 'ib':
        return a
    d = P(0) if n is None else n.p
    return ew(lambda p: p if p.is_const() and p.const().denominator == 1 else fn('round', p, d), kind(a), a)


def m_sort(I, a, axis=-1, **kw):
    arr_set(I, a, ELL, np_sort(I, a, axis))


METHODS = {
    'dot': np_dot, 'sum': np_sum, 'prod': np_prod, 'mean': np_mean, 'max': np_max, 'min': np_min,
    'any': np_any, 'all': np_all, 'reshape': m_reshape, 'ravel': np_ravel, 'flatten': np_flatten,
    'transpose': m_transpose, 'copy': m_copy, 'astype': m_astype, 'fill': m_fill, 'tolist': m_tolist,
    'item': m_item, 'nonzero': np_nonzero, 'squeeze': np_squeeze, 'cumsum': np_cumsum, 'trace': np_trace,
    'diagonal': np_diagonal, 'swapaxes': np_swapaxes, 'repeat': np_repeat, 'take': np_take,
    'argmax': np_arg(True), 'argmin': np_arg(False), 'round': m_round, 'sort': m_sort, 'argsort': np_argsort,
    'conj': lambda I, a: ew(conj, kind(arr0(a)), arr0(a)), 'conjugate': lambda I, a: ew(conj, kind(arr0(a)), arr0(a)),
    '__len__': b_len, '__getitem__': lambda I, a, k: getitem(I, a, k),
}


# ------------------------------------------------------------------ sparse
def sp_make(fmt):
    def f(I, arg, shape=None, dtype=None, copy=None):
        if isinstance(arg, Choice):
            return I.split(arg, lambda x: f(I, x, shape, dtype))
        if isinstance(arg, Sparse):
            return Sparse(arg.arr, fmt)
        if isinstance(arg, Arr) or isinstance(arg, PyList):
            a = atleast(2)(I, dup(toarr(arg)))
            if dtype is not None:
                a = astype(I, a, dkind(I, dtype))
            return Sparse(a, fmt)
        if isinstance(arg, tuple):
            if len(arg) == 2 and isinstance(arg[1], (tuple, PyList)) or (
                    len(arg) == 2 and isinstance(arg[1], Arr) and arg[1].ndim == 2):
                ij = unpack(I, arg[1], 2)
                return sp_coo(I, arg[0], ij[0], ij[1], shape, fmt, dtype)
            if len(arg) == 2 and all(isinstance(x, Num) for x in arg):
                s = shape_arg(I, arg)
                return Sparse(full(s, ZERO, dkind(I, dtype, 'f')), fmt)
            if len(arg) == 3:
                raise Undecided('compressed sparse construction')
        raise Undecided('sparse matrix construction')
    return f


def sp_coo(I, data, rows, cols, shape, fmt, dtype=None):
    d, r, c = toarr(data), toarr(rows), toarr(cols)
    for x in (r, c):
        if x.kind in 'fc' and x.shape[0] != ZERO:
            raise PyRaise('ValueError', 'row and column indices must be integers')
    n0 = r.shape[0]
    for x, y in ((r, c), (r, d)):
        df = x.shape[0] - y.shape[0]
        if df.is_const() and df != ZERO:
            raise PyRaise('ValueError', 'row, column, and data array must all be the same length')
    segs = align_seqs([d, r, c])
    if shape is not None:
        shp = shape_arg(I, shape)
    else:
        shp = (np_max(I, r).p + 1, np_max(I, c).p + 1)

    def f(idx):
        out = ZERO
        for b, g, (x, i, j) in segs:
            cond = g * eq(i, idx[0])
            if not cond.t:
                continue
            cond = cond * eq(j, idx[1])
            if not cond.t:
                continue
            out = out + (mk_sum(list(b), cond * x) if b else cond * x)
        return out
    a = from_fn(shp, f, dkind(I, dtype, d.kind))
    return Sparse(a, fmt)


def align_seqs(arrs):
    """Segments of several one-dimensional arrays of equal length."""
    if any(a.seq is not None for a in arrs):
        acc = None
        for a in arrs:
            s = a.seq
            if s is None:
                s = bag_segs_ordered(a)
            acc = align(acc, s)
        return acc
    n = arrs[0].shape[0]
    for a in arrs[1:]:
        if a.shape[0].is_const():
            n = a.shape[0]
    fz = [a.frozen() for a in arrs]
    k = n.as_int()
    if k is not None and k <= 1024:
        return [((), ONE, [a.get((P(i),)) for a in fz]) for i in range(k)]
    j = fresh('k', hi=n)
    return [((j,), ONE, [a.get((P(j),)) for a in fz])]


def sparse_attr(I, s, name):
    a = s.arr
    if name == 'shape':
        return tuple(Num(d, 'i') for d in a.shape)
    if name == 'T':
        return Sparse(np_transpose(I, a), s.fmt)
    if name == 'dtype':
        return Opq('dtype', a.kind)
    if name == 'ndim':
        return num(2)
    if name == 'format':
        return s.fmt
    cls = '@' + (s.fmt if s.fmt.endswith('matrix') else s.fmt + '_matrix')
    if cls in EXT and name not in EXT[cls]:
        raise PyRaise('AttributeError', "'%s' object has no attribute '%s'" % (cls[1:], name))

    def conv(fmt):
        return lambda I, copy=None: Sparse(a, fmt)
    m = {'tocsr': conv('csr'), 'tocoo': conv('coo'), 'tocsc': conv('csc'), 'tolil': conv('lil'),
         'todense': lambda I, **k: dup(a), 'toarray': lambda I, **k: dup(a),
         'dot': lambda I, b: PO.sparse_op(I, 'MatMult', s, b),
         'transpose': lambda I, **k: Sparse(np_transpose(I, a), s.fmt),
         'copy': lambda I: Sparse(dup(a), s.fmt),
         'conj': lambda I: Sparse(ew(conj, a.kind, a), s.fmt),
         'conjugate': lambda I: Sparse(ew(conj, a.kind, a), s.fmt),
         'getH': lambda I: Sparse(np_transpose(I, ew(conj, a.kind, a)), s.fmt),
         'sum_duplicates': lambda I: None, 'eliminate_zeros': lambda I: None,
         'astype': lambda I, dt, **k: Sparse(astype(I, a, dkind(I, dt)), s.fmt),
         'sum': lambda I, axis=None, **k: np_sum(I, a, axis),
         'diagonal': lambda I, **k: np_diagonal(I, a),
         'trace': lambda I, **k: np_sum(I, np_diagonal(I, a)),
         'mean': lambda I, axis=None, **k: np_mean(I, a, axis),
         'max': lambda I, axis=None, **k: np_max(I, a, axis),
         'min': lambda I, axis=None, **k: np_min(I, a, axis),
         'multiply': lambda I, b: Sparse(I.binop('Mult', a, b.arr if isinstance(b, Sparse) else b), s.fmt),
         }
    if name == 'H':
        return m['getH'](I)
    if name in m:
        return Builtin('sparse.' + name, m[name])
    return Opq('attr', Opq('sparse'), name)


def sp_eye(I, n, m=None, k=None, dtype=None, format=None):
    return Sparse(np_eye(I, n, m, k), 'csr')


def spsolve(I, a, b, **kw):
    aa = a.arr if isinstance(a, Sparse) else toarr(a)
    r = solve_atom(I, aa, b)
    if r.ndim == 2 and r.shape[1] == ONE:
        r = reshape_to(I, r, (r.shape[0],))
    return r


# --------------------------------------------------------------- itertools
def product(I, *args, repeat=None):
    n = 1 if repeat is None else geti(I, repeat).as_int()
    if n is None:
        raise Undecided('product with symbolic repeat')
    seqs = [seq_of(I, a) for a in args] * n
    if all(t == 'c' for t, _ in seqs):
        import itertools
        return PyList([tuple(x) for x in itertools.product(*[s for _, s in seqs])])
    shp = tuple(P(len(s)) if t == 'c' else s.n for t, s in seqs)
    ats = [(lambda p, s=s: pick(I, s, p)) if t == 'c' else s.at for t, s in seqs]
    return grid(shp, lambda ix: tuple(a(i) for a, i in zip(ats, ix)))


def chain(I, *args):
    out = ()
    for a in args:
        out += tuple(to_items(I, a))
    return PyList(out)


def combos(name):
    def f(I, x, r=None):
        import itertools
        s = unpack_any(I, x)
        k = None if r is None else r.p.as_int()
        g = getattr(itertools, name)
        return PyList([tuple(t) for t in (g(s, k) if k is not None else g(s))])
    return f


def it_repeat(I, x, n=None, times=None):
    n = n if n is not None else times
    if n is None:
        return Endless(lambda p: x)
    return binop(I, 'Mult', PyList([x]), n)


def it_count(I, start=None, step=None):
    a = start if start is not None else num(0)
    b = step if step is not None else num(1)
    return Endless(lambda p: binop(I, 'Add', a, binop(I, 'Mult', Num(p, 'i'), b)))


def it_cycle(I, x):
    s = unpack_any(I, x)
    if not s:
        return PyList([])
    n = P(len(s))
    return Endless(lambda p: pick(I, s, mod(p, n)))


def it_pairwise(I, x):
    t, s = seq_of(I, x)
    if t == 'c':
        return PyList(list(zip(s, s[1:])))
    return Seq(pmax(s.n - 1, ZERO), lambda p: (s.at(p), s.at(p + 1)))


def it_zip_longest(I, *seqs, fillvalue=None):
    vs = [unpack_any(I, x) for x in seqs]
    n = max([len(s) for s in vs] or [0])
    return PyList([tuple(s[i] if i < len(s) else fillvalue for s in vs) for i in range(n)])


def it_compress(I, x, sel):
    s, c = unpack_any(I, x), unpack_any(I, sel)
    out = []
    for v, g in zip(s, c):
        g = I.truth(g)
        out += [v] if g == ONE else [] if g == ZERO else [Guarded(g, (v,))]
    return PyList(out)


def it_accumulate(I, x, *a, **k):
    if a or k:
        raise Undecided('accumulate')
    return np_cumsum(I, toarr(x))


def it_islice(I, x, *a):
    b = [None if y is None else y.p.as_int() for y in a]
    if any(y is not None and k is None for y, k in zip(a, b)):
        if len(a) == 1 and not isinstance(x, IterV):
            return getitem(I, x if isinstance(x, (PyList, tuple)) else PyList(to_items(I, x)), SliceV(None, a[0], None))
        raise Undecided('islice with symbolic bounds')
    sl = slice(*b)
    if isinstance(x, IterV):
        k = where_at(I, x)
        if sl.stop is not None and (k.is_const() and k != P(-1)):
            top = sl.stop
            if isinstance(x.v, Endless):
                at, n = x.v.at, None
            else:
                t, s = seq_of(I, x.v)
                n = len(s) if t == 'c' else None
                at = (lambda p: s[p.as_int()]) if t == 'c' else None
                if at is None:
                    raise Undecided('islice of a symbolic iterator')
            k0 = k.as_int()
            hi = k0 + top if n is None else min(n, k0 + top)
            I.setitem(x.cell, 'at', num(hi))
            return PyList([at(P(i)) for i in range(k0, hi)][sl.start or 0::sl.step or 1])
        x = consume(I, x)
    if isinstance(x, Endless):
        raise Undecided('endless iterator')
    return PyList(unpack_any(I, x)[sl])


def starmap(I, f, x):
    return PyList([I.call(f, list(unpack_any(I, t)), {}) for t in unpack_any(I, x)])


# --------------------------------------------------------------- functools
def prelude(name):
    """Function of prelude.py, which is interpreted like the code analysed."""
    def call(I, *a, **k):
        m = I.load('sa.prelude')
        m.globals.setdefault('_undecided', Builtin('undecided', give_up))
        m.globals.setdefault('_searched', Builtin('searched', searched))
        m.globals.setdefault('_increasing', Builtin('increasing', lambda I, a: TRUE if getattr(a, 'uniq', False) else FALSE))
        return I.call(m.globals[name], list(a), k)
    call.own = ('dtype',)
    return call


def halving(vals, keys, right, states=None, carry=False):
    """Positions found by repeated halving among few values, in any order."""
    if len(vals) > 7 or len(vals) * len(keys) > 24:
        raise Undecided('search among values not known to be sorted')
    n = len(vals)
    below = lambda a, b: (ONE - T.lt(b, a)) if right else T.lt(a, b)
    states = states or {(0, n): ONE}
    out, last = [], keys[0]
    for key in keys:
        if carry:
            # numpy.searchsorted narrows the range by the result for the key before
            c = below(last, key)
            new = {}
            for (lo, hi), g in states.items():
                for st, h in (((lo, n), g * c), ((0, min(hi + 1, n)), g * (ONE - c))):
                    new[st] = new.get(st, ZERO) + h
            states = new
        done = {}
        work = dict(states)
        while work:
            (lo, hi), g = work.popitem()
            if not g.t:
                continue
            if lo >= hi:
                done[lo, hi] = done.get((lo, hi), ZERO) + g
                continue
            mid = (lo + hi) // 2
            c = below(vals[mid], key)
            for st, h in (((mid + 1, hi), g * c), ((lo, mid), g * (ONE - c))):
                work[st] = work.get(st, ZERO) + h
        out.append(sum((g * lo for (lo, _), g in done.items()), ZERO))
        if carry:
            states = done
        last = key
    return out


def searched(I, a, v, right):
    a, v = toarr(a), toarr(v)
    n, shp = a.shape[0].as_int(), [d.as_int() for d in v.shape]
    if n is None or None in shp or len(shp) > 1 or 'c' in a.kind + v.kind:
        raise Undecided('searchsorted in an array not known to be sorted')
    if shp == [0]:
        return v
    keys = [v.get((P(i),)) for i in range(shp[0])] if shp else [v.get(())]
    r = halving([a.get((P(i),)) for i in range(n)], keys, I.truth(right) == ONE, carry=True)
    if not shp:
        return Num(r[0], 'i')
    return toarr(PyList([Num(x, 'i') for x in r]))


def bisect(right):
    def f(I, a, x, lo=num(0), hi=None):
        if not isinstance(x, Num) or not isinstance(lo, Num) or x.k == 'c':
            raise Undecided('bisect')
        t, s = seq_of(I, a)
        n = len(s) if t == 'c' else s.n.as_int()
        if n is None:
            raise Undecided('bisect in a list of unknown length')
        s = [(s[i] if t == 'c' else s.at(P(i))) for i in range(n)]
        l = lo.p.as_int()
        h = n if hi is None else hi.p.as_int() if isinstance(hi, Num) else None
        if l is None or h is None or not 0 <= l <= n or not 0 <= h <= n or not all(isinstance(y, Num) and y.k != 'c' for y in s):
            raise Undecided('bisect')
        return Num(halving([y.p for y in s], [x.p], right, {(l, h): ONE})[0], 'i')
    return f


def give_up(I, what):
    raise Undecided(what)


def ft_reduce(I, f, seq, *init):
    try:
        s = unpack_any(I, seq)
    except Undecided:
        return prelude('reduce')(I, f, seq, *init)
    acc = init[0] if init else s[0]
    for x in (s if init else s[1:]):
        acc = I.call(f, [acc, x], {})
    return acc


def ft_partial(I, f, *a, **k):
    return Builtin('partial', lambda I, *b, **kw: I.call(f, list(a) + list(b), {**k, **kw}))


def itemgetter(I, *ks):
    def g(I, o):
        if len(ks) == 1:
            return I.getitem(o, ks[0])
        return tuple(I.getitem(o, k) for k in ks)
    return Builtin('itemgetter', g)


def math_fn(f, kf=None):
    def g(I, *a):
        xs = [to_num(I, x) for x in a]
        return Num(f(*[x.p for x in xs]), kf or 'f')
    return g


def floor_(p):
    if p.is_const():
        import math
        return P(math.floor(p.const()))
    return p if is_int(p) else fn('floor', p, integer=True)


def ceil_(p):
    if p.is_const():
        import math
        return P(math.ceil(p.const()))
    return p if is_int(p) else -fn('floor', -p, integer=True)


def np_apply_along_axis(I, f, axis, a, *r, **kw):
    a = toarr(a)
    if a.ndim != 2:
        raise Undecided('apply_along_axis')
    ax = axis_arg(I, axis, 2)[0]
    if ax == 0:
        a = np_transpose(I, a)
    t, s = seq_of(I, a)
    if t == 'c':
        res = toarr(PyList([I.call(f, [x] + list(r), kw) for x in s]))
    else:
        j = fresh('p', hi=s.n)
        res = toarr(PyList([Gen(j, ONE, (I.call(f, [s.at(P(j))] + list(r), kw),))]))
    return np_transpose(I, res) if ax == 0 and res.ndim == 2 else res


def np_vectorize(I, f, **kw):
    def g(I, *a):
        xs = [arr0(x) for x in a]
        if all(isinstance(x, Num) for x in xs):
            return I.call(f, xs, {})
        shp = bshape([x.shape for x in xs if isinstance(x, Arr)])
        ish = tuple(d.as_int() for d in shp)
        if any(d is None for d in ish):
            raise Undecided('vectorize over a symbolic array')
        cells = {}
        k = 'f'
        for i in all_idx(ish):
            idx = tuple(P(q) for q in i)
            v = I.call(f, [x if isinstance(x, Num) else Num(x.get(bidx(x.shape, idx)), x.kind) for x in xs], {})
            cells[i] = v.p
            k = v.k
        return from_fn(shp, lambda idx: cells[tuple(q.as_int() for q in idx)], k)
    return Builtin('vectorized', g)


def np_ndenumerate(I, a):
    a = toarr(a)
    t = total(a.shape)
    fz = a.frozen()
    return grid(a.shape, lambda ix: (tuple(Num(i, 'i') for i in ix), Num(fz.get(ix), a.kind)))


def np_ndindex(I, *s):
    shp = shape_arg(I, s[0] if len(s) == 1 and not isinstance(s[0], Num) else tuple(s))
    return grid(shp, lambda ix: tuple(Num(i, 'i') for i in ix))


def np_shape(I, a):
    return tuple(Num(d, 'i') for d in (a.arr if isinstance(a, Sparse) else toarr(a)).shape)


def np_size(I, a, axis=None):
    x = toarr(a)
    if axis is None:
        return Num(total(x.shape), 'i')
    return Num(x.shape[axis_arg(I, axis, x.ndim)[0]], 'i')


def np_triidx(lower):
    def f(I, n, k=None, m=None):
        nn = geti(I, n).as_int()
        if nn is None:
            raise Undecided('triangular indices')
        kk = 0 if k is None else geti(I, k).as_int()
        prs = [(i, j) for i in range(nn) for j in range(nn) if (j <= i + kk if lower else j >= i + kk)]
        return tuple(from_fn((len(prs),), lambda idx, d=d: P(prs[idx[0].as_int()][d]), 'i') for d in (0, 1))
    return f


def np_diff(I, a, n=None, axis=None):
    a = toarr(a)
    if n is not None and n.p != ONE:
        k = n.p.as_int()
        if k is None or not 0 <= k < 6:
            raise Undecided('diff')
        for _ in range(k):
            a = np_diff(I, a, None, axis)
        return a
    ax = a.ndim - 1 if axis is None else axis_arg(I, axis, a.ndim)[0]
    fz = a.frozen()
    shp = list(a.shape)
    shp[ax] = shp[ax] - 1

    def f(idx):
        t = list(idx)
        t[ax] = idx[ax] + 1
        return fz.get(tuple(t)) - fz.get(tuple(idx))
    return from_fn(shp, f, a.kind)


def np_block(I, rows):
    rs = unpack_any(I, rows)
    if rs and isinstance(rs[0], PyList):
        return concat([concat([atleast(2)(I, x) for x in unpack_any(I, r)], 1) for r in rs], 0)
    return np_hstack(I, rows)


def np_clip(I, a, a_min=None, a_max=None, min=None, max=None):
    lo, hi = a_min if min is None else min, a_max if max is None else max
    a = arr0(a)
    if lo is not None:
        a = ew(pmax, jk(kind(a), kind(lo)), a, arr0(lo))
    if hi is not None:
        a = ew(pmin, jk(kind(a), kind(hi)), a, arr0(hi))
    return a


np_clip.arity = 3


def m_clip(I, a, min=None, max=None):
    return np_clip(I, a, min, max)


m_clip.arity = 3
METHODS['clip'] = m_clip


def u_arctan2(p, q):
    if not p.t and q.is_const() and q.const() > 0:
        return ZERO
    return fn('arctan2', p, q)


def no_op(I, *a, **k):
    return None


def np_isnan(p):
    if has_unknown(p):
        return unknown('isnan')
    if any(a.head == 'f:nan' for a in T.pdeps(p)):
        return ONE if p == fn('nan') else unknown('isnan')
    return ZERO


CONST = {
    'numpy.pi': fn('pi'), 'math.pi': fn('pi'), 'numpy.e': fn('e'), 'math.e': fn('e'),
    'numpy.nan': fn('nan'), 'math.nan': fn('nan'), 'numpy.inf': fn('inf'), 'math.inf': fn('inf'),
}
T.POSITIVE.add(fn('pi').as_atom())
T.POSITIVE.add(fn('e').as_atom())

REDUCE = {'numpy.add': np_sum, 'numpy.multiply': np_prod, 'numpy.maximum': np_max, 'numpy.minimum': np_min,
          'numpy.logical_and': np_all, 'numpy.logical_or': np_any}

FUNCS = {
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'ascontiguousarray': np_asarray,
    'asfarray': np_asarray, 'copy': lambda I, a, **k: dup(toarr(a)),
    'zeros': filled(ZERO), 'ones': filled(ONE), 'empty': np_empty, 'full': np_full,
    'zeros_like': zeros_like, 'ones_like': ones_like, 'empty_like': empty_like, 'full_like': full_like,
    'eye': np_eye, 'identity': lambda I, n, dtype=None: np_eye(I, n, None, None, dtype), 'arange': np_arange, 'linspace': np_linspace, 'diag': np_diag,
    'diagonal': np_diagonal, 'trace': np_trace, 'dot': np_dot, 'matmul': np_matmul, 'outer': np_outer,
    'inner': np_inner, 'vdot': np_vdot, 'kron': np_kron, 'cross': np_cross, 'tensordot': np_tensordot,
    'einsum': np_einsum, 'transpose': np_transpose, 'swapaxes': np_swapaxes, 'moveaxis': np_moveaxis,
    'reshape': np_reshape, 'ravel': np_ravel, 'squeeze': np_squeeze, 'expand_dims': np_expand_dims,
    'atleast_1d': atleast(1), 'atleast_2d': atleast(2), 'atleast_3d': atleast(3), 'concatenate': np_concatenate,
    'hstack': np_hstack, 'vstack': np_vstack, 'row_stack': np_vstack, 'column_stack': np_column_stack,
    'stack': np_stack, 'append': np_append, 'tile': np_tile, 'repeat': np_repeat, 'flip': np_flip,
    'fliplr': lambda I, a: np_flip(I, a, num(1)), 'flipud': lambda I, a: np_flip(I, a, num(0)),
    'roll': np_roll, 'broadcast_to': np_broadcast_to, 'tril': np_tri(True), 'triu': np_tri(False),
    'split': np_split, 'hsplit': lambda I, a, n: np_split(I, a, n, num(1)), 'vsplit': np_split,
    'block': np_block, 'clip': np_clip, 'diff': np_diff,
    'sum': np_sum, 'prod': np_prod, 'mean': np_mean, 'average': np_average, 'max': np_max, 'min': np_min,
    'amax': np_max, 'amin': np_min, 'any': np_any, 'all': np_all, 'count_nonzero': np_count_nonzero,
    'cumsum': np_cumsum, 'argmax': np_arg(True), 'argmin': np_arg(False),
    'nansum': np_sum, 'nanmax': np_max, 'nanmin': np_min,
    'abs': u_abs, 'absolute': u_abs, 'fabs': u_abs, 'sqrt': ufunc(sqrt), 'square': ufunc(lambda p: p * p, same_kind),
    'sin': ufunc(u_fn('sin')), 'cos': ufunc(u_fn('cos')), 'tan': ufunc(u_fn('tan')), 'exp': ufunc(u_fn('exp')),
    'log': ufunc(u_fn('log')), 'log10': ufunc(u_fn('log10')), 'arctan': ufunc(u_fn('arctan')),
    'arcsin': ufunc(u_fn('arcsin')), 'arccos': ufunc(u_fn('arccos')), 'arctan2': ufunc(u_arctan2),
    'atan2': ufunc(u_arctan2),
    'sinh': ufunc(u_fn('sinh')), 'cosh': ufunc(u_fn('cosh')), 'tanh': ufunc(u_fn('tanh')),
    'hypot': ufunc(hypot), 'sign': ufunc(u_sign, same_kind), 'negative': ufunc(lambda p: -p, same_kind),
    'reciprocal': ufunc(lambda p: inverse(p)), 'floor': ufunc(floor_), 'ceil': ufunc(ceil_),
    'trunc': ufunc(trunc), 'fix': ufunc(trunc), 'rint': ufunc(lambda p: fn('round', p)),
    'round': m_round, 'around': m_round,
    'degrees': ufunc(lambda p: p * 180 * inverse(fn('pi'))), 'rad2deg': ufunc(lambda p: p * 180 * inverse(fn('pi'))),
    'radians': ufunc(lambda p: p * fn('pi') * P(Fraction(1, 180))),
    'deg2rad': ufunc(lambda p: p * fn('pi') * P(Fraction(1, 180))),
    'add': fop('Add'), 'subtract': fop('Sub'), 'multiply': fop('Mult'), 'divide': fop('Div'),
    'true_divide': fop('Div'), 'floor_divide': fop('FloorDiv'), 'mod': fop('Mod'), 'remainder': fop('Mod'),
    'power': fop('Pow'), 'maximum': ufunc(pmax, same_kind), 'minimum': ufunc(pmin, same_kind),
    'fmax': ufunc(pmax, same_kind), 'fmin': ufunc(pmin, same_kind),
    'equal': ufunc(eq, lambda *k: 'b'), 'not_equal': ufunc(lambda a, b: ONE - eq(a, b), lambda *k: 'b'),
    'less': ufunc(lt, lambda *k: 'b'), 'less_equal': ufunc(le, lambda *k: 'b'),
    'greater': ufunc(lambda a, b: lt(b, a), lambda *k: 'b'),
    'greater_equal': ufunc(lambda a, b: le(b, a), lambda *k: 'b'),
    'logical_and': ufunc(b_logic('and'), lambda *k: 'b'), 'logical_or': ufunc(b_logic('or'), lambda *k: 'b'),
    'logical_xor': ufunc(b_logic('xor'), lambda *k: 'b'),
    'logical_not': ufunc(lambda p: ONE - truth(p), lambda *k: 'b'),
    'invert': lambda I, a: I.unop('Invert', arr0(a)), 'bitwise_and': fop('BitAnd'), 'bitwise_or': fop('BitOr'),
    'real': u_real, 'imag': u_imag, 'conj': ufunc(conj, same_kind), 'conjugate': ufunc(conj, same_kind),
    'isclose': np_isclose, 'allclose': np_allclose, 'array_equal': np_array_equal,
    'isnan': ufunc(np_isnan, lambda *k: 'b'), 'isfinite': ufunc(lambda p: ONE - np_isnan(p), lambda *k: 'b'),
    'where': np_where, 'nonzero': np_nonzero, 'flatnonzero': np_flatnonzero, 'argwhere': np_argwhere,
    'unique': np_unique, 'bincount': np_bincount, 'sort': np_sort, 'argsort': np_argsort, 'ptp': np_ptp, 'isin': np_isin, 'in1d': np_isin,
    'ix_': np_ix_, 'take': np_take, 'delete': np_delete, 'setdiff1d': np_setdiff1d, 'copyto': np_copyto,
    'fill_diagonal': np_fill_diagonal, 'meshgrid': np_meshgrid, 'loadtxt': np_loadtxt, 'genfromtxt': np_loadtxt,
    'savetxt': np_savetxt, 'apply_along_axis': np_apply_along_axis, 'vectorize': np_vectorize,
    'ndenumerate': np_ndenumerate, 'ndindex': np_ndindex, 'shape': np_shape, 'size': np_size,
    'ndim': lambda I, a: num(toarr(a).ndim), 'tril_indices': np_triidx(True), 'triu_indices': np_triidx(False),
    'isscalar': lambda I, x: TRUE if isinstance(x, (Num, str)) else FALSE,
    'finfo': lambda I, *a: Opq('finfo', *a), 'set_printoptions': no_op, 'seterr': no_op,
    'errstate': lambda I, **k: None, 'iscomplexobj': lambda I, a: TRUE if kind(arr0(a)) == 'c' else FALSE,
    'isrealobj': lambda I, a: FALSE if kind(arr0(a)) == 'c' else TRUE,
    'cbrt': ufunc(u_fn('cbrt')), 'float_power': fop('Pow'), 'positive': ufunc(lambda p: p, same_kind),
    'may_share_memory': lambda I, *a: FALSE, 'nan_to_num': lambda I, a, **k: (_ for _ in ()).throw(Undecided('nan_to_num')),
    'require': np_asarray, 'dtype': lambda I, t, **k: Opq('dtype', dkind(I, t)),
    'result_type': lambda I, *a: Opq('dtype', jk(*[kind(arr0(x)) if isinstance(x, (Num, Arr, PyList)) else dkind(I, x) for x in a])),
}

TABLE = {'numpy.' + k: Builtin('numpy.' + k, v) for k, v in FUNCS.items()}
for k, v in {'det': np_det, 'inv': np_inv, 'lstsq': np_lstsq, 'pinv': np_pinv, 'solve': np_solve, 'norm': np_norm, 'eigh': np_eig('eigh'),
             'eig': np_eig('eig'), 'eigvals': np_eig('eigvals'), 'eigvalsh': np_eig('eigvalsh'),
             'multi_dot': lambda I, l: ft_reduce(I, Builtin('dot', np_dot), l)}.items():
    TABLE['numpy.linalg.' + k] = Builtin('numpy.linalg.' + k, v)
    TABLE['scipy.linalg.' + k] = Builtin('scipy.linalg.' + k, v)
TABLE['numpy.linalg.LinAlgError'] = TypeV('numpy.linalg.LinAlgError')
for k, v in CONST.items():
    TABLE[k] = Num(v, 'f')
TABLE['numpy.newaxis'] = None
TABLE['numpy.True_'] = TRUE
TABLE['numpy.False_'] = FALSE
for k in ('float64', 'float32', 'float16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'intp', 'bool_',
          'bool', 'complex128', 'complex64', 'double', 'single', 'ndarray', 'int_', 'float_', 'integer',
          'floating', 'number', 'longdouble', 'longlong'):
    if k in EXT['numpy']:
        TABLE['numpy.' + k] = TypeV('numpy.' + k)
for k in ('mgrid', 'ogrid', 'r_', 'c_', 's_'):
    TABLE['numpy.' + k] = Builtin('numpy.' + k, no_op)
for k in ('select choose union1d intersect1d setxor1d ravel_multi_index unravel_index indices fromfunction fromiter dstack polyval ediff1d '
          'diag_indices diagflat extract compress take_along_axis putmask place rollaxis rot90 pad var std divmod tri heaviside '
          'searchsorted digitize insert broadcast_shapes broadcast_arrays vander').split():
    TABLE.setdefault('numpy.' + k, Builtin('numpy.' + k, prelude(k)))
TABLE.setdefault('numpy.linalg.matrix_power', Builtin('matrix_power', prelude('matrix_power')))
TABLE['numpy.polynomial.legendre.leggauss'] = Builtin('leggauss', leggauss)
for f in ('coo', 'csr', 'csc', 'lil', 'bsr', 'dok'):
    TABLE['scipy.sparse.%s_matrix' % f] = Builtin('scipy.sparse.%s_matrix' % f, sp_make(f))
    TABLE['scipy.sparse.%s_array' % f] = Builtin('scipy.sparse.%s_array' % f, sp_make(f + '_array'))
TABLE['scipy.sparse.eye'] = Builtin('scipy.sparse.eye', sp_eye)
TABLE['scipy.sparse.identity'] = Builtin('scipy.sparse.identity', lambda I, n, dtype=None, format=None: sp_eye(
    I, n, None, None, dtype, format))
for f in ('coo', 'csr', 'csc', 'lil'):
    TABLE['scipy.sparse.isspmatrix_' + f] = Builtin('isspmatrix', lambda I, x, f=f: TRUE if isinstance(x, Sparse) and x.fmt == f else FALSE)
TABLE['scipy.sparse.isspmatrix'] = Builtin('isspmatrix', lambda I, x: TRUE if isinstance(x, Sparse) and '_' not in x.fmt else FALSE)
TABLE['scipy.sparse.issparse'] = Builtin('issparse', lambda I, x: TRUE if isinstance(x, Sparse) else FALSE)
TABLE['scipy.linalg.solve'] = Builtin('scipy.linalg.solve', sp_solve)
TABLE['scipy.linalg.lu_factor'] = Builtin('lu_factor', lu_factor)
TABLE['scipy.linalg.lu_solve'] = Builtin('lu_solve', lu_solve)
TABLE['scipy.sparse.linalg.splu'] = Builtin('splu', splu)
TABLE['scipy.sparse.linalg.factorized'] = Builtin('factorized', factorized)
for f in ('cg', 'bicg', 'bicgstab', 'cgs', 'gmres', 'lgmres', 'minres', 'qmr'):
    TABLE['scipy.sparse.linalg.' + f] = Builtin(f, approximate(f))
TABLE['scipy.sparse.linalg.spsolve'] = Builtin('spsolve', spsolve)
TABLE['itertools.product'] = Builtin('itertools.product', iterator(product))
TABLE['itertools.chain'] = Builtin('itertools.chain', iterator(chain))
TABLE['itertools.combinations'] = Builtin('combinations', iterator(combos('combinations')))
TABLE['itertools.permutations'] = Builtin('permutations', iterator(combos('permutations')))
TABLE['itertools.combinations_with_replacement'] = Builtin('cwr', iterator(combos('combinations_with_replacement')))
TABLE['itertools.repeat'] = Builtin('repeat', iterator(it_repeat))
TABLE['itertools.accumulate'] = Builtin('accumulate', iterator(it_accumulate))
for _n, _f in (('count', it_count), ('cycle', it_cycle), ('pairwise', it_pairwise), ('zip_longest', it_zip_longest),
               ('compress', it_compress)):
    TABLE['itertools.' + _n] = Builtin(_n, iterator(_f))
for _n in ('bisect', 'bisect_left', 'bisect_right'):
    TABLE['bisect.' + _n] = Builtin(_n, bisect(_n != 'bisect_left'))
TABLE['itertools.islice'] = Builtin('islice', iterator(it_islice))
TABLE['itertools.starmap'] = Builtin('starmap', iterator(starmap))
TABLE['functools.reduce'] = Builtin('functools.reduce', ft_reduce)
TABLE['functools.partial'] = Builtin('functools.partial', ft_partial)


def memo(I, f):
    """The function remembers the results of its calls."""
    if isinstance(f, FuncV):
        f.cached = True
    return f


TABLE['functools.lru_cache'] = Builtin('functools.lru_cache', lambda I, *a, **k: (
    memo(I, a[0]) if a and isinstance(a[0], FuncV) else Builtin('functools.lru_cache', memo)))
TABLE['functools.cache'] = Builtin('functools.cache', memo)
TABLE['functools.wraps'] = Builtin('functools.wraps', lambda I, *a: Builtin('functools.wraps', lambda I, f: f))
for k, o in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'),
             ('mod', 'Mod'), ('pow', 'Pow'), ('matmul', 'MatMult')):
    TABLE['operator.' + k] = Builtin('operator.' + k, lambda I, a, b, o=o: I.binop(o, a, b))
TABLE['operator.itemgetter'] = Builtin('operator.itemgetter', itemgetter)
for k, f in (('sqrt', sqrt), ('sin', u_fn('sin')), ('cos', u_fn('cos')), ('tan', u_fn('tan')), ('exp', u_fn('exp')),
             ('log', u_fn('log')), ('atan', u_fn('arctan')), ('atan2', u_arctan2), ('hypot', hypot), ('fabs', absv),
             ('acos', u_fn('arccos')), ('asin', u_fn('arcsin')), ('pow', power),
             ('radians', lambda p: p * fn('pi') * P(Fraction(1, 180))),
             ('degrees', lambda p: p * 180 * inverse(fn('pi')))):
    TABLE['math.' + k] = Builtin('math.' + k, math_fn(f))
for k, f in (('floor', floor_), ('ceil', ceil_), ('trunc', trunc)):
    TABLE['math.' + k] = Builtin('math.' + k, math_fn(f, 'i'))
TABLE['math.prod'] = Builtin('math.prod', lambda I, x: np_prod(I, x))
TABLE['math.isclose'] = Builtin('math.isclose', lambda I, a, b, rel_tol=None, abs_tol=None: (
    _ for _ in ()).throw(Undecided('math.isclose')))
TABLE['math.isnan'] = Builtin('math.isnan', math_fn(np_isnan, 'b'))
TABLE['os.path.join'] = Builtin('os.path.join', path_join)
TABLE['sys.version_info'] = Opq('version_info')
TABLE['datetime.datetime'] = TypeV('datetime.datetime')
TABLE['collections.OrderedDict'] = TypeV('OrderedDict')
TABLE['collections.defaultdict'] = TypeV('defaultdict')
TABLE['collections.Counter'] = TypeV('Counter')
TABLE['pathlib.Path'] = TypeV('pathlib.Path')
TABLE['copy.deepcopy'] = TABLE['copy.copy'] = Builtin('copy.copy', lambda I, x: (
    dup(x) if isinstance(x, Arr) else PyList(x.items) if isinstance(x, PyList) else
    PyDict(x.items) if isinstance(x, PyDict) else x))
TABLE['warnings.warn'] = Builtin('warnings.warn', lambda I, *a, **k: None)
TABLE['warnings.simplefilter'] = Builtin('warnings.simplefilter', no_op)
TABLE['warnings.filterwarnings'] = Builtin('warnings.filterwarnings', no_op)

EFFECT_MODULES = ('matplotlib', 'easygui', 'logging', 'shutil', 'tempfile', 'os', 'sys', 'time', 'meshio', 'warnings', 'subprocess')


np_matmul.arity = 2
for _f in (no_op, np_loadtxt, np_savetxt):
    _f.lenient = True
strict.harden(TABLE, ('numpy.finfo', 'numpy.set_printoptions', 'numpy.seterr', 'numpy.errstate', 'numpy.may_share_memory',
                      'numpy.dtype', 'numpy.result_type', 'numpy.nan_to_num'))
METHODS = {k: strict.strict('ndarray.' + k, f) for k, f in METHODS.items()}


def check_module(I, name):
    pass


def mod_attr(I, mod, name):
    full_ = mod + '.' + name
    if full_ in TABLE and (mod not in EXT or name in EXT[mod] or full_ in EXT['%submodules']):
        return TABLE[full_]
    if full_ in EXT['%alias']:
        return ModV(EXT['%alias'][full_])
    if mod == 'matplotlib.pyplot' or mod.split('.')[0] in ('matplotlib',):
        if mod in EXT and name not in EXT[mod]:
            if full_ in EXT['%submodules'] or full_ in EXT:
                return ModV(full_)
            raise PyRaise('AttributeError', "module '%s' has no attribute '%s'" % (mod, name))
        if full_ in EXT['%submodules'] or full_ in EXT:
            return ModV(full_)
        return Opq('ext', full_)
    if full_ in EXT or full_ in EXT['%submodules']:
        return ModV(full_)
    if mod in EXT:
        if name not in EXT[mod]:
            raise PyRaise('AttributeError', "module '%s' has no attribute '%s'" % (mod, name))
        if mod.split('.')[0] in EFFECT_MODULES:
            return Opq('ext', full_)
    elif mod.split('.')[0] not in EXT:
        raise Undecided('module %s' % mod)

    def f(I, *a, **k):
        raise Undecided('call of %s' % full_)
    return Builtin(full_, f)
