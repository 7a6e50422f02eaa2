"""Models of the Python data model and of array indexing."""
from .values import *
from . import terms as T
from . import values as V

UNROLL = 64


class SymObj:
    """Input object known only through what is asked of it."""

    def __init__(self, name, getitem=None, call=None, attr=None, contains=None, iter_=None):
        self.name = name
        self.getitem_ = getitem
        self.call_ = call
        self.attr_ = attr
        self.contains_ = contains
        self.iter_ = iter_

    def __repr__(self):
        return '<input %s>' % self.name


class Seq:
    """Lazy sequence (zip, enumerate, ...)."""
    grid = None

    def __init__(self, n, at):
        self.n = n
        self.at = at


def grid(shape, at):
    """Sequence over the positions of a grid, the last index running fastest."""
    n = ONE
    for d in shape:
        n = n * d
    s = Seq(n, lambda p: at(unflatten(p, shape)))
    s.grid = (tuple(shape), at)
    return s


def grid_segs(s):
    shape, at = s.grid

    def segs(idx):
        if len(idx) == len(shape):
            return [('v', at(idx))]
        n = shape[len(idx)]
        k = n.as_int()
        if k is not None and k <= UNROLL:
            return [x for i in range(k) for x in segs(idx + (P(i),))]
        if len(idx) == len(shape) - 1:
            return [('loop', n, lambda p: at(idx + (p,)), None)]
        return [('nest', n, lambda p: segs(idx + (p,)), None if idx else ('loop', s.n, s.at, None))]
    return segs(())


def kind(v):
    if isinstance(v, Num):
        return v.k
    if isinstance(v, Arr):
        return v.store.kind
    if isinstance(v, Sparse):
        return v.arr.kind
    return 'f'


# ------------------------------------------------------------- to array
def toarr(v, k=None):
    if isinstance(v, Arr):
        return v
    if isinstance(v, Num):
        return from_fn((), lambda i: v.p, v.k)
    if isinstance(v, Rng):
        n = v.length()
        return from_fn((n,), lambda i: v.at(i[0]), 'i')
    if isinstance(v, Sparse):
        return v.arr
    if isinstance(v, Seq):
        probe = None
        n = v.n.as_int()
        if n is not None:
            return toarr(PyList([v.at(P(i)) for i in range(n)]))
        j = fresh('z', hi=v.n)
        return toarr(PyList([Gen(j, ONE, (v.at(P(j)),))]))
    if isinstance(v, (tuple, PyList)):
        items = v if isinstance(v, tuple) else v.items
        if any(isinstance(x, (Gen, Guarded, PreSeg, UnkSeg)) for x in items):
            return gen_array(items)
        if not items:
            return Arr(Store('f', Dense({}, (0,))), (ZERO,))
        if all(isinstance(x, Num) for x in items):
            vals = [x.p for x in items]
            return from_fn((len(vals),), lambda i: vals[i[0].as_int()], jk(*[x.k for x in items]))
        return stack([toarr(x) for x in items])
    if isinstance(v, PySet):
        raise Undecided('array of a set')
    if isinstance(v, Opq):
        raise Undecided('array of <%s>' % v.tag)
    if isinstance(v, Choice):
        return M.I.split(v, toarr)
    if isinstance(v, SymObj) and v.iter_ is not None:
        return toarr(v.iter_())
    raise Undecided('array of %s' % type(v).__name__)


def stack(arrs):
    shp = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(shp) or any((x - y).is_const() and x != y for x, y in zip(a.shape, shp)):
            raise PyRaise('ValueError', 'setting an array element with a sequence (inhomogeneous shape)')
    fz = [a.frozen() for a in arrs]
    kd = jk(*[a.kind for a in arrs])
    n = len(arrs)

    def g(idx):
        k = idx[0].as_int()
        if k is not None:
            return fz[k].get(idx[1:])
        return sel(tuple(a.get(idx[1:]) for a in fz), idx[0])
    return from_fn((P(n),) + shp, g, kd)


def gen_array(items):
    segs = flat_segs(items)
    if not segs:
        return Arr(Store('f', Dense({}, (0,))), (ZERO,))
    vals = [v for _, _, v in segs]
    if all(isinstance(v, Num) for v in vals):
        return seq_array([(b, g, v.p) for b, g, v in segs], jk(*[v.k for v in vals]))
    arrs = [toarr(v).frozen() for v in vals]
    inner = arrs[0].shape
    kd = jk(*[a.kind for a in arrs])
    n = seq_len(items)
    if len(segs) == 1 and len(segs[0][0]) == 1:
        (bv,), g, _ = segs[0]
        a = arrs[0]

        def f(idx):
            k = nth(bv, g, idx[0])
            return subst_get(a, idx[1:], {bv: k})
        r = from_fn((n,) + inner, f, kd)
        if g != ONE:
            r.seq = [((bv,), g, a)]
        return r
    if all(not b and g == ONE for b, g, _ in segs):
        return stack(arrs)
    # one loop producing a fixed number of rows per iteration
    if len({b for b, _, _ in segs}) == 1 and all(g == ONE for _, g, _ in segs) and len(segs[0][0]) == 1:
        bv = segs[0][0][0]
        m = len(arrs)
        r = from_fn((n,) + inner, lambda idx: subst_get(
            _rows(arrs, mod(idx[0], P(m))), idx[1:], {bv: fdiv(idx[0], P(m))}), kd)
        r.seq = [(b, g, a) for (b, g, _), a in zip(segs, arrs)]
        return r
    c = UnkC('row of an irregular sequence')
    if in_turn(segs):
        sa = [(b, g, a) for (b, g, _), a in zip(segs, arrs)]
        c = Lazy(lambda idx: turn(sa, idx[0], lambda a, mp: subst_get(a, idx[1:], mp or {})))
    r = Arr(Store(kd, c), (n,) + inner)
    r.seq = [(b, g, a) for (b, g, _), a in zip(segs, arrs)]
    return r


def _rows(arrs, k):
    class R:
        def get(self, idx):
            return sel(tuple(a.get(idx) for a in arrs), k)
    return R()


def subst_get(a, idx, mp):
    clash = any(k in x.fv for x in idx for k in mp)
    if not clash:
        return subst(a.get(idx), mp)
    tmp, bk = [], {}
    for x in idx:
        if any(k in x.fv for k in mp):
            t = fresh('t', hi=V.BIG)
            bk[t] = x
            tmp.append(P(t))
        else:
            tmp.append(x)
    return subst(subst(a.get(tuple(tmp)), mp), bk)


# ------------------------------------------------------------- indexing
def here():
    """Condition under which the current statement is executed."""
    I = getattr(M, 'I', None)
    return I.pc * I.base if I is not None else ONE


def pos(p, n, given=None):
    """Normalise a possibly negative index."""
    if p.is_const():
        k = p.as_int()
        if k is None:
            raise PyRaise('IndexError', 'only integers are valid indices')
        if n.is_const():
            m = n.as_int()
            if not -m <= k < m:
                raise PyRaise('IndexError', 'index %d is out of bounds for axis with size %d' % (k, m))
        elif k < 0 and False:
            pass
        return p if k >= 0 else p + n
    if prove_nonneg(p):
        if prove_nonneg(p - n):
            raise PyRaise('IndexError', 'index %s is out of bounds for axis with size %s' % (p, n))
        return p
    if prove_nonneg(-p - 1):
        return p + n
    g = neg(p)
    if given is not None and given != ONE:
        if not (given * g).t:
            return p
        if not (given * (ONE - g)).t:
            return p + n
    return p + n * g


def slice_range(s, n):
    """(start, step, length) of a slice on an axis of size n."""
    def iv(x):
        if x is None:
            return None
        if isinstance(x, Arr):
            x = Num(x.get((ZERO,) * x.ndim), x.kind)
        if not isinstance(x, Num):
            raise Undecided('slice bound')
        if x.k == 'f' or x.k == 'c':
            raise PyRaise('TypeError', 'slice indices must be integers')
        return x.p
    a, b, c = iv(s.a), iv(s.b), iv(s.c)
    st = 1 if c is None else c.as_int()
    if st is None:
        raise Undecided('slice step')
    if n.is_const() and (a is None or a.is_const()) and (b is None or b.is_const()):
        r = range(n.as_int())[slice(None if a is None else a.as_int(), None if b is None else b.as_int(), st)]
        return P(r.start), P(st), P(len(r))

    def bound(x):
        if x.is_const():
            return x if x.const() >= 0 else x + n
        if prove_nonneg(x):
            return x
        if prove_nonneg(-x - 1):
            return x + n
        return x + n * neg(x)
    if st > 0:
        lo = ZERO if a is None else bound(a)
        hi = n if b is None else bound(b)
        if b is not None and prove_nonneg(hi - n):
            hi = n
        d = hi - lo
        if d.is_const() and d.const() < 0:
            d = ZERO
        ln = d if st == 1 else fdiv(d + (st - 1), P(st))
        return lo, P(st), ln
    lo = n - 1 if a is None else bound(a)
    if b is None:
        d = lo + 1
    else:
        d = lo - bound(b)
    ln = d if st == -1 else fdiv(d + (-st - 1), P(-st))
    return lo, P(st), ln


class Selection:
    """Result of an index expression: out shape and index map."""
    __slots__ = ('shape', 'fmap', 'fancy', 'segs', 'fpos', 'fdims', 'mask', 'vectors')

    def __init__(self, shape, fmap, fancy=False):
        self.shape = tuple(shape)
        self.fmap = fmap
        self.fancy = fancy
        self.segs = None
        self.mask = None
        self.vectors = None


def parse_index(I, a, k):
    items = list(k) if isinstance(k, tuple) else [k]
    conv = []
    for x in items:
        if isinstance(x, (PyList, tuple, Rng, Seq)):
            x = toarr(x)
            if x.shape[0] == ZERO and x.ndim == 1 and x.kind == 'f':
                x = full((0,), ZERO, 'i')
        if isinstance(x, Num):
            if x.k in 'fc':
                raise PyRaise('IndexError', 'only integers, slices, ellipsis, newaxis and integer or '
                              'boolean arrays are valid indices')
            if x.k == 'b':
                raise Undecided('boolean scalar index')
        if isinstance(x, Choice):
            raise Undecided('index is a choice')
        if isinstance(x, Arr):
            if x.kind not in 'ib':
                if x.shape and x.shape[0] == ZERO:
                    pass
                else:
                    raise PyRaise('IndexError', 'arrays used as indices must be of integer (or boolean) type')
            if x.ndim == 0 and x.kind == 'i':
                x = Num(x.get(()), 'i')
        elif isinstance(x, str):
            raise PyRaise('IndexError', 'string index into an array')
        elif isinstance(x, (Opq, SymObj)):
            raise Undecided('opaque index')
        conv.append(x)
    nd = sum(x.ndim if isinstance(x, Arr) and x.kind == 'b' else 1
             for x in conv if x is not None and x is not ELL)
    if nd > a.ndim:
        raise PyRaise('IndexError', 'too many indices for array')
    if ELL in conv:
        p = conv.index(ELL)
        conv[p:p + 1] = [SliceV(None, None, None)] * (a.ndim - nd)
    else:
        conv += [SliceV(None, None, None)] * (a.ndim - nd)
    return conv


def select(I, a, k):
    conv = parse_index(I, a, k)
    if len([x for x in conv if isinstance(x, Arr)]) == 1 and \
            any(isinstance(x, Arr) and x.kind == 'b' and x.ndim > 1 for x in conv):
        return select_mask(I, a, conv)
    plan = []
    d = 0
    fancy = []
    cur = here()
    for x in conv:
        if x is None:
            plan.append(('new',))
            continue
        n = a.shape[d]
        if isinstance(x, Num):
            plan.append(('int', pos(x.p, n, cur)))
        elif isinstance(x, SliceV):
            plan.append(('sl',) + slice_range(x, n))
        elif isinstance(x, Arr):
            if x.kind == 'b':
                if x.ndim != 1:
                    raise Undecided('boolean index arrays')
                if (x.shape[0] - n).is_const() and x.shape[0] != n:
                    raise PyRaise('IndexError', 'boolean index did not match indexed array')
                x = mask_to_idx(x)
            fz = x.frozen()
            plan.append(('arr', fz, n))
            fancy.append(len(plan) - 1)
        else:
            raise Undecided('index %s' % type(x).__name__)
        d += 1
    if not fancy:
        shape = []
        for p in plan:
            if p[0] == 'sl':
                shape.append(p[3])
            elif p[0] == 'new':
                shape.append(ONE)

        def fmap(idx, plan=plan):
            out = []
            j = 0
            for p in plan:
                if p[0] == 'int':
                    out.append(p[1])
                elif p[0] == 'sl':
                    out.append(p[1] + idx[j] if p[2] == ONE else p[1] + p[2] * idx[j])
                    j += 1
                else:
                    j += 1
            return tuple(out)
        return Selection(shape, fmap)
    fidx = [i for i, p in enumerate(plan) if p[0] in ('arr', 'int')]
    contiguous = fidx == list(range(fidx[0], fidx[-1] + 1))
    fshape = bshape([plan[i][1].shape for i in fancy])
    shape = []
    before = [i for i, p in enumerate(plan) if p[0] in ('sl', 'new') and (contiguous and i < fidx[0])]
    after = [i for i, p in enumerate(plan) if p[0] in ('sl', 'new') and i not in before]
    nb = len(before)
    nf = len(fshape)
    shape = [plan[i][3] if plan[i][0] == 'sl' else ONE for i in before] + list(fshape) + \
        [plan[i][3] if plan[i][0] == 'sl' else ONE for i in after]
    slot = {}
    for j, i in enumerate(before):
        slot[i] = j
    for j, i in enumerate(after):
        slot[i] = nb + nf + j

    def fmap(idx):
        f = idx[nb:nb + nf]
        out = []
        for i, p in enumerate(plan):
            if p[0] == 'int':
                out.append(p[1])
            elif p[0] == 'arr':
                out.append(pos(p[1].get(bidx(p[1].shape, f)), p[2]))
            elif p[0] == 'sl':
                out.append(p[1] + p[2] * idx[slot[i]])
        return tuple(out)
    s = Selection(shape, fmap, True)
    s.fpos, s.fdims = nb, nf
    s.vectors = [plan[i][1] for i in fancy]
    # sequence structure of a one-dimensional fancy index
    sq = [plan[i][1] for i in fancy if plan[i][1].seq is not None]
    if sq and nf == 1:
        try:
            segs = None
            for x in sq:
                segs = align(segs, x.seq)
        except Undecided:
            segs = None
        if segs is not None and all(plan[i][1].seq is not None or plan[i][1].shape == (ONE,) for i in fancy):
            res = []
            for bvs, g, vals in segs:
                it = iter(vals)
                mp = {}
                for i in fancy:
                    mp[i] = next(it) if plan[i][1].seq is not None else plan[i][1].get((ZERO,))

                def f2(idx, mp=mp, g=g):
                    """idx: indices of the slice axes only (before + after)."""
                    out = []
                    for i, p in enumerate(plan):
                        if p[0] == 'int':
                            out.append(p[1])
                        elif p[0] == 'arr':
                            out.append(pos(mp[i], p[2], g * cur))
                        elif p[0] == 'sl':
                            j = slot[i]
                            out.append(p[1] + p[2] * idx[j if j < nb else j - nf])
                    return tuple(out)
                res.append((bvs, g, f2))
            s.segs = res
    return s


def mask_to_idx(m):
    """Positions where a one-dimensional boolean array holds."""
    n = m.shape[0]
    fz = m.frozen()
    c = n.as_int()
    if c is not None and c <= UNROLL:
        vals = [fz.get((P(i),)) for i in range(c)]
        if all(v.is_const() for v in vals):
            hits = [i for i, v in enumerate(vals) if v.const()]
            return from_fn((len(hits),), lambda i: P(hits[i[0].as_int()]), 'i')
    bv = fresh('m', hi=n)
    return seq_array([((bv,), fz.get((P(bv),)), P(bv))], 'i')


def select_mask(I, a, conv):
    """A[mask] with a mask of several dimensions (leading axes)."""
    if not (isinstance(conv[0], Arr) and conv[0].kind == 'b'):
        raise Undecided('boolean index')
    m = conv[0].frozen()
    rest = conv[1:]
    if any(not (isinstance(x, SliceV) and x.a is None and x.b is None and x.c is None) for x in rest):
        raise Undecided('boolean index')
    md = m.ndim
    bvs = tuple(fresh('m', hi=m.shape[i]) for i in range(md))
    g = m.get(tuple(P(b) for b in bvs))
    s = Selection((mk_sum(list(bvs), g),) + a.shape[md:], None, True)
    s.mask = (bvs, g, md)

    def f2(idx):
        return tuple(P(b) for b in bvs) + tuple(idx)
    s.segs = [(bvs, g, f2)]
    s.fpos, s.fdims = 0, 1
    tot = ONE
    for d in m.shape:
        tot = tot * d

    def fmap(idx):
        x = fresh('m', hi=tot)
        ii = unflatten(P(x), m.shape)
        k = nth(x, m.get(ii), idx[0])
        return unflatten(k, m.shape) + tuple(idx[1:])
    s.fmap = fmap
    return s


def unflatten(k, shape):
    out = []
    for d in reversed(shape[1:]):
        add_radix(d)
        out.append(mod(k, d))
        k = fdiv(k, d)
    out.append(k)
    return tuple(reversed(out))


def add_radix(d):
    if not d.is_const() or d.const() > 1:
        if d not in T.RADIX:
            T.RADIX.append(d)


def flatidx(idx, shape):
    k = ZERO
    for i, d in zip(idx, shape):
        add_radix(d)
        k = k * d + i
    return k


def arr_get(I, a, k):
    if isinstance(k, (PyList,)) and not k.items:
        return Arr(Store(a.kind, Dense({}, (0,))), (ZERO,) + a.shape[1:])
    s = select(I, a, k)
    if not s.fancy:
        if not s.shape and not any(x is ELL for x in (k if isinstance(k, tuple) else (k,))):
            return Num(a.get(s.fmap(())), a.kind)
        inner = a.imap
        fm = s.fmap
        r = Arr(a.store, s.shape, (lambda idx: inner(fm(idx))) if inner else fm)
        return r
    fz = a.frozen()
    r = from_fn(s.shape, lambda idx: fz.get(s.fmap(idx)), a.kind)
    if s.segs is not None and len(s.shape) == 1:
        r.seq = [(b, g, fz.get(f(()))) for b, g, f in s.segs]
    elif s.segs is not None:
        try:
            r.seq = [(b, g, from_fn(s.shape[1:], lambda idx, f=f: fz.get(f(idx)), a.kind, lazy=True))
                     for b, g, f in s.segs] if s.fpos == 0 else None
        except Undecided:
            r.seq = None
    return r


# ------------------------------------------------------------- writing
def put(store, bvs, guard, idx, val, mode):
    c = M.heap[store]
    store.wnode = M.I.node
    if isinstance(c, Dense):
        if not bvs and guard == ONE and all(x.is_const() for x in idx):
            k = tuple(x.as_int() for x in idx)
            if k not in c.cells:
                raise PyRaise('IndexError', 'index %s is out of bounds' % (k,))
            cells = dict(c.cells)
            cells[k] = val if mode == 'set' else cells[k] + val
            M.heap[store] = Dense(cells, c.shape)
            return
        w = WChain(c, bvs, guard, idx, val, mode)
        M.heap[store] = Dense({k: read(w, tuple(P(i) for i in k)) for k in c.cells}, c.shape)
        return
    M.heap[store] = WChain(c, bvs, guard, idx, val, mode)


def put_many(a, pairs, mode):
    """Direct writes of a dense store: pairs of (index ints, value)."""
    st = a.store
    c = M.heap[st]
    st.wnode = M.I.node
    cells = dict(c.cells)
    for k, v in pairs:
        if k not in cells:
            raise PyRaise('IndexError', 'index %s is out of bounds' % (k,))
        cells[k] = v if mode == 'set' else cells[k] + v
    M.heap[st] = Dense(cells, c.shape)


def arr_set(I, a, k, v, mode='set'):
    if isinstance(v, Choice):
        if all(isinstance(x, (Num, Arr)) for _, x in v.alts):
            pass
        I.split(v, lambda x: arr_set(I, a, k, x, mode))
        return
    if isinstance(k, (PyList,)) and not k.items:
        return
    s = select(I, a, k)
    if v is None:
        v = Num(fn('nan'), 'f')
    if isinstance(v, (Opq, SymObj, str)):
        raise Undecided('store of an opaque value')
    if isinstance(v, PySet):
        raise PyRaise('TypeError', 'float() argument must be a real number')
    va = v if isinstance(v, Num) else toarr(v)
    kd = a.kind
    if kd in 'if' and kind(va) == 'c':
        raise PyRaise('TypeError', 'complex cannot be stored in a real array')

    def val_at(idx):
        if isinstance(va, Num):
            return cast(va.p, kd, va.k)
        return cast(fz.get(bidx(va.shape, idx)), kd, va.kind)
    if isinstance(va, Arr):
        fz = va.frozen()
        vs = va.shape
        while len(vs) > len(s.shape):
            if vs[0] != ONE:
                raise PyRaise('ValueError', 'could not broadcast input array')
            vs = vs[1:]
        if len(vs) < len(va.shape):
            w = va
            fz = from_fn(vs, lambda idx, q=fz, nn=len(va.shape) - len(vs): q.get((ZERO,) * nn + tuple(idx)), va.kind)
            va = fz
        for x, y in zip(reversed(va.shape), reversed(s.shape)):
            if x != ONE and x != y and (x - y).is_const():
                if s.fancy and not s.shape[0].is_const() and False:
                    continue
                raise PyRaise('ValueError', 'could not broadcast input array from shape %s into shape %s' % (
                    tuple(va.shape), tuple(s.shape)))
    c = M.heap[a.store]
    if small(s.shape) is not None and isinstance(c, Dense) and not (s.segs and s.mask):
        ish = tuple(d.as_int() for d in s.shape)
        pairs = []
        ok = True
        todo = []
        for i in all_idx(ish):
            idx = tuple(P(x) for x in i)
            t = s.fmap(idx)
            if a.imap is not None:
                t = a.imap(t)
            val = val_at(idx)
            todo.append((t, val))
            if not all(x.is_const() for x in t):
                ok = False
        if ok:
            put_many(a, [(tuple(x.as_int() for x in t), val) for t, val in todo], mode)
        else:
            for t, val in todo:
                put(a.store, (), ONE, t, val, mode)
        return
    if s.segs is not None:
        # enumerated fancy index
        fdim = s.fpos
        nseg = len(s.segs)
        vfd = None
        if isinstance(va, Arr):
            off = len(s.shape) - len(va.shape)
            kf = fdim - off
            vfd = kf if kf >= 0 and va.shape[kf] != ONE else None
        aligned = None
        if vfd is not None and isinstance(va, Arr) and va.seq is not None and vfd == 0:
            try:
                al = align([(b, g, [j]) for j, (b, g, f) in enumerate([(b, g, f) for b, g, f in s.segs])] and
                           None, va.seq)
                aligned = []
                if len(va.seq) == nseg:
                    for (b, g, f), (b2, g2, v2) in zip(s.segs, va.seq):
                        mp = {y: P(x) for x, y in zip(b, b2) if x is not y}
                        if len(b) != len(b2) or not same(subst(g2, mp) if mp else g2, g):
                            aligned = None
                            break
                        aligned.append((v2, mp))
                else:
                    aligned = None
            except Undecided:
                aligned = None
        for si, (bvs, g, f) in enumerate(s.segs):
            other = [d for j, d in enumerate(s.shape) if j != fdim]
            obv = [fresh('o', hi=d) if d != ONE else None for d in other]
            oidx = tuple(P(b) if b is not None else ZERO for b in obv)
            t = f(oidx)
            if a.imap is not None:
                t = a.imap(t)
            if vfd is None:
                full_idx = list(oidx)
                full_idx.insert(fdim, ZERO)
                val = val_at(tuple(full_idx))
            elif aligned is not None:
                v2, mp = aligned[si]
                val = v2 if isinstance(v2, Poly) else v2.get(bidx(v2.shape, oidx[fdim:]))
                val = cast(subst(val, mp) if mp else val, kd, va.kind)
            elif nseg == 1 and len(bvs) == 1:
                full_idx = list(oidx)
                full_idx.insert(fdim, V.rank(bvs[0], g, P(bvs[0])))
                val = val_at(tuple(full_idx))
            elif nseg == 1 and s.mask is not None:
                full_idx = list(oidx)
                full_idx.insert(fdim, mask_rank(bvs, g))
                val = val_at(tuple(full_idx))
            else:
                raise Undecided('write through an irregular index sequence')
            put(a.store, tuple(bvs) + tuple(b for b in obv if b is not None), g, t, val, mode)
        return
    bvs = []
    idx = []
    for d in s.shape:
        if d == ONE:
            idx.append(ZERO)
        else:
            b = fresh('w', hi=d)
            bvs.append(b)
            idx.append(P(b))
    idx = tuple(idx)
    t = s.fmap(idx)
    if a.imap is not None:
        t = a.imap(t)
    put(a.store, tuple(bvs), ONE, t, val_at(idx), mode)


def mask_rank(bvs, g):
    """C-order rank of the selected position bvs."""
    out = ZERO
    for d in range(len(bvs)):
        xs = []
        mp = {}
        for j, b in enumerate(bvs):
            if j < d:
                continue
            x = fresh('x', hi=P(b) if j == d else b.hi)
            xs.append(x)
            mp[b] = P(x)
        out = out + mk_sum(xs, subst(g, mp))
    return out


def never(e, v):
    """[e is never v], e an entry of a row picked by a condition."""
    if T.same(eq(e, v), ZERO):
        return True
    at = e.as_atom()
    if at is None or at.head != 'in' or v != P(-1) or at.lo is None:
        return at is not None and at.lo is not None and T.same(le(at.lo, v), ZERO)
    if T.same(le(at.lo, v), ZERO):
        return True
    k = at.args[1][-1].as_atom()
    if k is None or k.head != 'nth':
        return False
    base, hi, body, _ = k.args
    cols = [P(j) for j in range(hi.as_int())] if hi.is_const() and hi.const() <= 64 else [P(fresh('x', hi=hi))]
    return all(T.same(T.subst(body, {T.bvatom(base): x}) * eq(T.subst(e, {k: x}), v), ZERO) for x in cols)


def distinct_vector(x):
    """The index array x varies along one axis and its entries are distinct."""
    ax = [d for d in range(x.ndim) if x.shape[d] != ONE]
    if len(ax) != 1:
        return None
    d = ax[0]
    n = x.shape[d]
    at = lambda k: x.get(tuple(k if j == d else ZERO for j in range(x.ndim)))
    if n.is_const() and n.const() <= 24:
        es = [at(P(j)) for j in range(n.as_int())]
        if all((p - q).is_const() and p != q or T.same(eq(p, q), ZERO) or unlike(p, q)
               for j, p in enumerate(es) for q in es[:j]):
            return x.ndim - d
        return None
    b = fresh('b', hi=n)
    e = at(P(b))
    if not injective_in(e, b):
        return None
    a = e.as_atom()
    if a is not None and a.head == 'in' and a.args[0] in ROWINJ and not never(e, P(-1)):
        return None
    return x.ndim - d


def unlike(p, q):
    """Entries of different columns of one row of distinct numbers."""
    a, b = p.as_atom(), q.as_atom()
    if a is None or b is None or a.head != 'in' or b.head != 'in' or a.args[0] != b.args[0] or a.args[0] not in ROWINJ:
        return False
    i, j = a.args[1], b.args[1]
    return i[:-1] == j[:-1] and T.same(eq(i[-1], j[-1]), ZERO) and never(p, P(-1))


def without_repeats(s):
    """No entry is selected twice."""
    if s.vectors is None or s.mask:
        return False
    nf = max(x.ndim for x in s.vectors)
    done = {distinct_vector(x) for x in s.vectors}
    need = {nf - d for d in range(nf) if s.shape[s.fpos + d] != ONE}
    return need <= done


def arr_setop(I, a, k, op, b):
    """a[k] op= b"""
    if isinstance(b, Choice):
        I.split(b, lambda x: arr_setop(I, a, k, op, x))
        return
    if isinstance(b, Sparse):
        b = b.arr
    bv = b if isinstance(b, Num) else toarr(b)
    scalar_sel = not (k is ELL) and not isinstance(k, (SliceV, Arr, PyList)) and \
        not (isinstance(k, tuple) and any(not isinstance(x, Num) for x in k)) and \
        (len(k) if isinstance(k, tuple) else 1) == a.ndim
    if not scalar_sel:
        if a.kind == 'i' and (kind(bv) in 'fc' or op in ('Div',)):
            raise PyRaise('UFuncTypeError', 'cannot cast ufunc output from float to int')
        if a.kind == 'f' and kind(bv) == 'c':
            raise PyRaise('UFuncTypeError', 'cannot cast ufunc output from complex to float')
    s = select(I, a, k) if k is not ELL else None
    if op in ('Add', 'Sub') and a.kind != 'b' and (s is None or not s.fancy or without_repeats(s)):
        if a.kind == 'i' and kind(bv) in 'fc':
            cur = arr_get(I, a, k)
            arr_set(I, a, k, I.binop(op, cur, b))
            return
        if op == 'Sub':
            bv = ew(lambda x: -x, kind(bv), bv)
        arr_set(I, a, k, bv, 'add')
        return
    cur = arr_get(I, a, k if k is not ELL else ELL)
    if isinstance(cur, Arr):
        cur = cur.frozen()
    arr_set(I, a, k, I.binop(op, cur, bv))
