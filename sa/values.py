"""Abstract values: numbers, arrays, lists, dicts and the abstract heap."""
from .terms import *
from . import terms as T

DENSE_LIMIT = 6000


class PyRaise(Exception):
    """The analysed program raises on the path being analysed."""

    def __init__(self, etype, msg='', node=None):
        Exception.__init__(self, '%s: %s' % (etype, msg))
        self.etype = etype
        self.msg = msg
        self.node = node


class Machine:
    def __init__(self):
        self.heap = {}
        self.reset()

    def reset(self):
        self.heap = {}
        self.writes = []        # (store, where, guard)
        self.effects = []
        self.tick = 0
        self.depth_token = 0
        self.where = None
        self.recording = True


M = Machine()
_ids = [0]


class Num:
    __slots__ = ('p', 'k')

    def __init__(self, p, k='f'):
        self.p = p
        self.k = k

    def __repr__(self):
        return '%s:%s' % (self.k, self.p)


def num(x, k=None):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(ONE if x else ZERO, 'b')
    if isinstance(x, int):
        return Num(P(x), k or 'i')
    return Num(P(x), k or 'f')


TRUE = Num(ONE, 'b')
FALSE = Num(ZERO, 'b')
KORD = 'bifc'


def jk(*ks):
    """Kind of a combination."""
    r = -1
    for k in ks:
        if k not in KORD:
            return 'f'
        r = max(r, KORD.index(k))
    return KORD[r] if r >= 0 else 'f'


class Narrow(str):
    """Kind of a narrow type: 'i' of few bits or 'f' of short significand."""
    def __new__(cls, k, bits, signed=True):
        s = str.__new__(cls, k)
        s.bits, s.signed = bits, signed
        return s


def narrow(p, k):
    """Value after storing p with the few bits of k."""
    if k == 'i':
        lo = -(1 << (k.bits - 1)) if k.signed else 0
        hi = (1 << (k.bits - k.signed)) - 1
        if p.is_const():
            return P((int(p.const()) - lo) % (hi - lo + 1) + lo)
        if T.prove_nonneg(p - lo) and T.prove_nonneg(P(hi) - p):
            return p
        return Poly.of(atom('wrap', k.bits, int(k.signed), p, integer=True))
    if p.is_const():
        import struct
        c = p.const()
        try:
            f = struct.unpack('f' if k.bits == 32 else 'e', struct.pack('f' if k.bits == 32 else 'e', float(c)))[0]
        except OverflowError:
            return p
        return P(T.Fraction(f))
    if T.is_int(p) and T.bool_atoms(p) is not None:
        return p
    a = p.as_atom()
    if a is not None and a.head == 'short' and a.args[0] <= k.bits:
        return p
    return Poly.of(atom('short', k.bits, p))


def cast(p, k, src=None):
    """Value stored in an array of kind k."""
    if isinstance(k, Narrow) and not T.has_unknown(p):
        if isinstance(src, Narrow) and src == k and src.bits <= k.bits and src.signed == k.signed:
            return p
        return narrow(cast(p, str(k), src), k)
    if k == 'i':
        if src in ('i', 'b'):
            return p
        if p.is_const():
            return trunc(p)
        if is_bool01(p):
            bs = bool_atoms(p)
            if len(bs) <= 5 and all(c.denominator == 1 for c in p.t.values()):
                return p
        # distribute over Iverson guards so that guarded pieces truncate alone
        return trunc_dist(p)
    if k == 'b':
        return truth(p)
    return p


def trunc_dist(p):
    if is_int(p):
        return p
    at = p.as_atom()
    if at is not None and at.head == 'unk':
        return p
    return trunc(p)


# ------------------------------------------------------------------ contents
class Dense:
    __slots__ = ('cells', 'shape')

    def __init__(self, cells, shape):
        self.cells = cells
        self.shape = shape


class Lazy:
    __slots__ = ('fn', 'memo', 'zero')

    def __init__(self, fn, zero=False):
        self.fn = fn
        self.memo = {}
        self.zero = zero


class WChain:
    __slots__ = ('parent', 'bvs', 'guard', 'idx', 'val', 'mode', 'memo')

    def __init__(self, parent, bvs, guard, idx, val, mode):
        self.parent = parent
        self.bvs = tuple(bvs)
        self.guard = guard
        self.idx = tuple(idx)
        self.val = val
        self.mode = mode
        self.memo = {}


class PreC:
    """Content of an object at the start of a generic loop iteration."""
    __slots__ = ('token', 'kind', 'lo')

    def __init__(self, token, kind):
        self.token = token
        self.kind = kind


class Mix:
    """Gate between two contents."""
    __slots__ = ('g', 'a', 'b', 'memo')

    def __init__(self, g, a, b):
        self.g = g
        self.a = a
        self.b = b
        self.memo = {}


class UnkC:
    __slots__ = ('why', 'memo')

    def __init__(self, why):
        self.why = why
        self.memo = {}


def kidx(idx):
    return tuple(i.key for i in idx)


def read(c, idx):
    if type(c) is Dense:
        return read_dense(c, idx)
    if type(c) is Lazy:
        k = kidx(idx)
        r = c.memo.get(k)
        if r is None:
            r = c.fn(idx)
            c.memo[k] = r
        return r
    if type(c) is WChain:
        k = kidx(idx)
        r = c.memo.get(k)
        if r is None:
            r = read_w(c, idx)
            c.memo[k] = r
        return r
    if type(c) is Mix:
        k = kidx(idx)
        r = c.memo.get(k)
        if r is None:
            r = ite(c.g, read(c.a, idx), read(c.b, idx))
            c.memo[k] = r
        return r
    if type(c) is PreC:
        return Poly.of(atom('pre', c.token, tuple(idx), integer=c.kind in 'ib',
                            boolean=False))
    if type(c) is UnkC:
        k = kidx(idx)
        r = c.memo.get(k)
        if r is None:
            r = unknown(c.why)
            c.memo[k] = r
        return r
    raise Undecided('content %r' % (c,))


def read_dense(c, idx):
    ii = []
    for x in idx:
        k = x.as_int()
        if k is None:
            break
        ii.append(k)
    else:
        r = c.cells.get(tuple(ii))
        if r is None:
            raise PyRaise('IndexError', 'index %s is out of bounds for shape %s' % (tuple(ii), c.shape))
        return r

    def rec(d, pre):
        if d == len(idx):
            return c.cells[tuple(pre)]
        k = idx[d].as_int()
        if k is not None:
            if not 0 <= k < c.shape[d]:
                raise PyRaise('IndexError', 'index %d is out of bounds for axis of size %d' % (k, c.shape[d]))
            return rec(d + 1, pre + [k])
        if c.shape[d] == 0:
            raise Undecided('symbolic index into an empty axis')
        return sel(tuple(rec(d + 1, pre + [k]) for k in range(c.shape[d])), idx[d])
    return rec(0, [])


def pinned(bvs, idx):
    """Are the values of all bvs determined by the index tuple?"""
    left = set(bvs)
    work = list(idx)
    changed = True
    while left and changed:
        changed = False
        for e in work:
            vs = [v for v in left if v in e.fv]
            if len(vs) == 1:
                v = vs[0]
                if injective_in(e, v):
                    left.discard(v)
                    changed = True
            elif len(vs) > 1:
                # mixed radix: e = c*u + w with 0 <= w < c
                for v in vs:
                    lin = linear_sym(e, v)
                    if lin is None:
                        continue
                    c, rest = lin
                    if any(w in c.fv for w in vs):
                        continue
                    lowpart = rest
                    others = [w for w in vs if w is not v]
                    base = subst(rest, {w: ZERO for w in others})
                    d = lowpart - base
                    if prove_nonneg(d) and prove_nonneg(c - 1 - d):
                        left.discard(v)
                        work.append(rest)
                        changed = True
                        break
    return not left


def linear_sym(p, v):
    """p = c*v + rest with v not in c, rest."""
    c = {}
    rest = {}
    for m, k in p.t.items():
        hit = [i for i, (a, e) in enumerate(m) if v in a.fv]
        if not hit:
            rest[m] = k
        elif len(hit) == 1 and m[hit[0]][0] is v and m[hit[0]][1] == 1:
            i = hit[0]
            c[m[:i] + m[i + 1:]] = k
        else:
            return None
    return Poly(c), Poly(rest)


def injective_in(e, v):
    lin = linear_sym(e, v)
    if lin is not None and lin[0].t:
        c = lin[0]
        if c.is_const() or prove_pos(c) or prove_pos(-c):
            return True
        return False
    # strictly monotone enumerations and rows of distinct entries
    at = None
    n = 0
    for m in e.t:
        for a, ex in m:
            if v in a.fv:
                n += 1
                if len(m) == 1 and ex == 1:
                    at = a
    if n == 1 and at is not None:
        if at.head in ('nth', 'uelem') and at.args[-1] == Poly.of(v):
            return True
        if at.head == 'in' and at.args[0] in ROWINJ:
            ii = at.args[1]
            if not any(v in x.fv for x in ii[:-1]):
                return injective_in(ii[-1], v)
    return False


ROWINJ = set()


def read_w(w, idx):
    cond = w.guard
    for a, b in zip(w.idx, idx):
        if a == b:
            continue
        cond = cond * eq(a, b)
        if not cond.t:
            return read(w.parent, idx)
    val = w.val
    if not w.bvs:
        if w.mode == 'add':
            return read(w.parent, idx) + cond * val
        if cond == ONE:
            return val
        return ite(cond, val, read(w.parent, idx))
    if w.mode == 'add':
        return read(w.parent, idx) + mk_sum(list(w.bvs), cond * val)
    if pinned(w.bvs, w.idx):
        one = mk_sum(list(w.bvs), cond)
        if not one.t:
            return read(w.parent, idx)
        v = mk_sum(list(w.bvs), cond * val)
        if one == ONE:
            return v
        return v + (ONE - one) * read(w.parent, idx)
    if all(v.hi.as_int() is not None for v in w.bvs):
        n = 1
        for v in w.bvs:
            n *= max(0, v.hi.as_int())
        if n <= 64:
            r = read(w.parent, idx)
            for mp in enum_concrete(w.bvs):
                c = subst(cond, mp)
                if c.t:
                    r = ite(c, subst(val, mp), r)
            return r
    val = given(val, cond, w.bvs)
    if not any(v in val.fv for v in w.bvs):
        e = exists(list(w.bvs), cond)
        return ite(e, val, read(w.parent, idx))
    e = exists(list(w.bvs), cond)
    if not e.t:
        return read(w.parent, idx)
    last = binder('last', list(w.bvs), cond, val)
    return e * last + (ONE - e) * read(w.parent, idx)


def given(val, cond, bvs):
    """val where cond holds: what the equations of cond determine does not depend on the bound variables."""
    sure = None
    for m in cond.t:
        s = {a for a, _ in m if a.head == 'eq'}
        sure = s if sure is None else sure & s
    for q in sorted(sure or (), key=lambda a: str(a.key)):
        p = q.args[0]
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0].head not in ('bv', 'sym'):
                a = m[0][0]
                rest = Poly.of(a) - p * (1 / c)
                if any(v in a.fv for v in bvs) and not any(v in rest.fv for v in bvs):
                    val = subst(val, {a: rest})
                    break
    return val


def enum_concrete(bvs):
    import itertools
    for t in itertools.product(*[range(max(0, v.hi.as_int())) for v in bvs]):
        yield {v: P(k) for v, k in zip(bvs, t)}


def binder(head, bvs, *bodies, extra=()):
    """Opaque binder with canonical bound variables."""
    from .terms import bvlevel, bvatom, raw_subst
    base = max([0] + [bvlevel(b) for b in bodies] + [bvlevel(v.hi) for v in bvs])
    mp = {}
    his = []
    for i, v in enumerate(bvs):
        his.append(raw_subst(v.hi, mp) if mp else v.hi)
        mp[v] = Poly.of(bvatom(base + i))
    bb = tuple(raw_subst(b, mp) for b in bodies)
    return Poly.of(atom(head, base, tuple(his), bb, *extra))


# -------------------------------------------------------------- heap objects
class Ref:
    def __init__(self, origin=None):
        _ids[0] += 1
        self.id = _ids[0]
        self.origin = origin
        self.birth = M.depth_token


class Store(Ref):
    def __init__(self, kind, content, origin=None):
        Ref.__init__(self, origin)
        self.kind = kind
        M.heap[self] = content

    def __repr__(self):
        return '<store %d %s>' % (self.id, self.kind)


class Arr:
    """A view of a store."""
    __slots__ = ('store', 'shape', 'imap', 'seq', 'tag', 'uniq', 'vshape')

    def __init__(self, store, shape, imap=None, seq=None, tag=None):
        self.store = store
        self.shape = tuple(shape)
        self.imap = imap
        self.seq = seq
        self.tag = tag
        self.uniq = False

    @property
    def kind(self):
        return self.store.kind

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        if self.imap is not None:
            idx = self.imap(idx)
        return read(M.heap[self.store], idx)

    def at(self, *ii):
        return self.get(tuple(P(i) for i in ii))

    def frozen(self):
        st = Store(self.store.kind, M.heap[self.store])
        a = Arr(st, self.shape, self.imap, self.seq, self.tag)
        a.uniq = self.uniq
        return a

    def ishape(self):
        out = []
        for d in self.shape:
            k = d.as_int()
            if k is None:
                return None
            out.append(k)
        return tuple(out)

    def __repr__(self):
        return '<arr %s %s>' % (self.kind, self.shape)


def small(shape):
    n = 1
    for d in shape:
        k = d.as_int() if isinstance(d, Poly) else d
        if k is None:
            return None
        n *= max(k, 0)
    return n if n <= DENSE_LIMIT else None


def all_idx(ishape):
    import itertools
    return itertools.product(*[range(n) for n in ishape])


def from_fn(shape, fn, kind='f', lazy=False):
    shape = tuple(P(d) for d in shape)
    if not lazy and small(shape) is not None:
        ish = tuple(d.as_int() for d in shape)
        cells = {i: fn(tuple(P(k) for k in i)) for i in all_idx(ish)}
        return Arr(Store(kind, Dense(cells, ish)), shape)
    return Arr(Store(kind, Lazy(fn)), shape)


def full(shape, p, kind):
    shape = tuple(P(d) for d in shape)
    if small(shape) is not None:
        ish = tuple(d.as_int() for d in shape)
        return Arr(Store(kind, Dense({i: p for i in all_idx(ish)}, ish)), shape)
    return Arr(Store(kind, Lazy(lambda idx: p, zero=not p.t)), shape)


def unknown_arr(why, shape, kind='f'):
    return Arr(Store(kind, UnkC(why)), tuple(P(d) for d in shape))


INTS = set()


def as_ints(name):
    """Is the input analysed as data of integers?"""
    return name.split('~')[0] in INTS or '*' in INTS


def input_arr(name, shape, kind='f', lo=None, hi=None, integer=None, getter=None):
    if INTS and as_ints(name) and kind == 'f':
        name, kind = name + '~i', 'i'
    integer = (kind in 'ib') if integer is None else integer

    def g(idx):
        return Poly.of(atom('in', name, tuple(idx), integer=integer, lo=lo, hi=hi))
    fn = getter or g
    shape = tuple(P(d) for d in shape)
    n = small(shape)
    if n is not None:
        ish = tuple(d.as_int() for d in shape)
        c = Dense({i: fn(tuple(P(k) for k in i)) for i in all_idx(ish)}, ish)
    else:
        c = Lazy(fn)
    return Arr(Store(kind, c, origin=('in', name)), shape)


# --------------------------------------------------------------- broadcasting
def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        dim = None
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            x = s[k]
            if x == ONE:
                if dim is None:
                    dim = x
                continue
            if dim is None or dim == ONE:
                dim = x
            elif dim == x:
                pass
            else:
                df = dim - x
                if df.is_const() or (dim.is_const() and x.is_const()):
                    raise PyRaise('ValueError', 'operands could not be broadcast together: %s' %
                                  (' '.join(str(s) for s in shapes)))
                if x.is_const():
                    dim = x
        out.append(ONE if dim is None else dim)
    return tuple(out)


def bidx(shape, idx):
    k = len(idx) - len(shape)
    return tuple(ZERO if shape[d] == ONE else idx[k + d] for d in range(len(shape)))


def ew(f, kind, *args):
    """Elementwise operation with broadcasting over Num and Arr."""
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return Num(f(*[a.p for a in args]), kind)
    shp = bshape([a.shape for a in arrs])
    fz = [a.frozen() if isinstance(a, Arr) else a for a in args]

    def g(idx):
        return f(*[a.get(bidx(a.shape, idx)) if isinstance(a, Arr) else a.p for a in fz])
    r = from_fn(shp, g, kind)
    seqs = [a.seq for a in arrs if a.seq is not None]
    if seqs and len(shp) == 1:
        r.seq = seq_map(lambda *v: f(*v), fz) if all(
            not isinstance(a, Arr) or a.seq is not None or a.shape[0] == ONE for a in fz) else None
    return r


# --------------------------------------------------------------------- lists
class Gen:
    """Elements produced by a summarised loop: for bv < bv.hi, if guard,
    the children in order."""
    __slots__ = ('bv', 'guard', 'kids')

    def __init__(self, bv, guard, kids):
        self.bv = bv
        self.guard = guard
        self.kids = tuple(kids)


class Guarded:
    """A value that is present only under a guard."""
    __slots__ = ('guard', 'kids')

    def __init__(self, guard, kids):
        self.guard = guard
        self.kids = tuple(kids)


class PreSeg:
    __slots__ = ('token',)

    def __init__(self, token):
        self.token = token


class UnkSeg:
    def __init__(self, why):
        self.why = why


class PyList(Ref):
    def __init__(self, items=(), origin=None):
        Ref.__init__(self, origin)
        M.heap[self] = tuple(items)

    @property
    def items(self):
        return M.heap[self]

    def concrete(self):
        return not any(isinstance(x, (Gen, Guarded, PreSeg, UnkSeg)) for x in self.items)

    def __repr__(self):
        return '<list %s>' % (self.items,)


class PySet(Ref):
    num = None
    used = False

    def __init__(self, items=(), origin=None):
        Ref.__init__(self, origin)
        M.heap[self] = tuple(items)

    @property
    def items(self):
        if self.used:
            raise Undecided('content of a set with symbolic elements')
        return M.heap[self]


class SymSet:
    """Set of the values of a symbolic bag."""
    def __init__(self, segs, kind='i'):
        self.segs = segs       # list of (bvs, guard, Poly)
        self.kind = kind


class PyDict(Ref):
    num = None

    def __init__(self, items=None, origin=None, default=None):
        Ref.__init__(self, origin)
        M.heap[self] = dict(items or {})
        self.default = default

    @property
    def items(self):
        if self.num is not None and self.nums:
            raise Undecided('content of a dictionary with symbolic keys')
        return M.heap[self]


class Sparse:
    def __init__(self, arr, fmt):
        self.arr = arr
        self.fmt = fmt

    @property
    def shape(self):
        return self.arr.shape


class Rng:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        d = self.stop - self.start
        s = self.step.as_int()
        if s is None or s == 0:
            raise Undecided('range step')
        if s == 1:
            n = d
        elif s == -1:
            n = -d
        elif s > 0:
            n = fdiv(d + (s - 1), P(s))
        else:
            n = fdiv(-d + (-s - 1), P(-s))
        k = n.as_int()
        if k is not None:
            return P(max(0, k))
        return n

    def at(self, i):
        return self.start + self.step * i


class FuncV:
    cached = False

    def __init__(self, node, module, env, name, defaults=(), kwdefaults=None, qual=None):
        self.node = node
        self.module = module
        self.env = env
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.qual = qual or name

    def __repr__(self):
        return '<function %s>' % self.qual


class Builtin:
    def __init__(self, name, fn, self_=None):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ModV:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<module %s>' % self.name


class TypeV:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<type %s>' % self.name


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class EllipsisV:
    pass


ELL = EllipsisV()


class Opq:
    """Opaque object; ``parts`` records what it was made from."""
    def __init__(self, tag, *parts):
        self.tag = tag
        self.parts = parts

    def __repr__(self):
        return '<%s>' % self.tag


class Choice:
    """One of several values; guards are exclusive and exhaustive."""
    def __init__(self, alts):
        self.alts = alts        # list of (guard, value)

    def __repr__(self):
        return '<choice %s>' % (self.alts,)


class ExcV:
    def __init__(self, etype, msg=''):
        self.etype = etype
        self.msg = msg


class Cell(Ref):
    """Variable shared with a closure that rebinds it."""


# ------------------------------------------------------------- sequence trees
def flat_segs(items, outer=(), guard=ONE):
    """List items -> list of (bvs, guard, value)."""
    out = []
    for x in items:
        if isinstance(x, Gen):
            out += flat_segs(x.kids, outer + (x.bv,), guard * x.guard)
        elif isinstance(x, Guarded):
            out += flat_segs(x.kids, outer, guard * x.guard)
        elif isinstance(x, (PreSeg, UnkSeg)):
            raise Undecided('list of unknown content' + (
                ': ' + x.why if isinstance(x, UnkSeg) else ''))
        else:
            out.append((outer, guard, x))
    return out


def seq_len(items):
    n = ZERO
    for bvs, g, _ in flat_segs(items):
        n = n + (mk_sum(list(bvs), g) if bvs else g)
    return n


def seq_map(f, args):
    """Map f over aligned sequence trees (each Arr with .seq or scalar)."""
    segs = None
    for a in args:
        if isinstance(a, Arr) and a.seq is not None:
            segs = align(segs, a.seq)
    if segs is None:
        return None
    out = []
    k = 0
    for bvs, g, vals in segs:
        vv = []
        j = 0
        for a in args:
            if isinstance(a, Arr) and a.seq is not None:
                vv.append(vals[j])
                j += 1
            elif isinstance(a, Arr):
                vv.append(a.get((ZERO,)))
            else:
                vv.append(a.p)
        out.append((bvs, g, f(*vv)))
    return out


def align(acc, seq):
    """Join sequence trees produced side by side: [(bvs, guard, [values])]."""
    if acc is None:
        return [(b, g, [v]) for b, g, v in seq]
    try:
        return align_same(acc, seq)
    except Undecided:
        r = align_runs(acc, [(b, g, [v]) for b, g, v in seq])
        if r is None:
            raise
        return r


def interleaved(segs):
    """Which segments are parts of one turn of the same loops."""
    out = []
    for (b, _, _), (c, _, _) in zip(segs, segs[1:]):
        k = 0
        while k < len(b) and k < len(c) and b[k] is c[k]:
            k += 1
        out.append(k)
    return out


def run_of(seg):
    """Repetitions of one element: (leading variables, length)."""
    b, g, vs = seg
    if not b or b[-1] in g.fv or any(b[-1] in P(v).fv for v in vs):
        return None
    return b[:-1], b[-1].hi


def rename_to(lead, seg):
    """The segment with the given leading variables."""
    b, g, vs = seg
    if len(b) < len(lead):
        return None
    mp = {}
    for x, y in zip(lead, b):
        if x is not y:
            if not same(subst(y.hi, mp) if mp else y.hi, x.hi):
                return None
            mp[y] = Poly.of(x)
    rest = []
    for y in b[len(lead):]:
        h = subst(y.hi, mp) if mp else y.hi
        if h != y.hi:
            z = fresh('g', hi=h)
            mp[y] = Poly.of(z)
            y = z
        rest.append(y)
    return tuple(rest), subst(g, mp), [subst(v, mp) for v in vs]


def take_run(seg, other):
    """Number of segments of the other sequence next to the repeated element."""
    r = run_of(seg)
    if r is None:
        return None
    lead, n = r
    want = seg[1] * n
    out, got = [], ZERO
    for k, o in enumerate(other):
        q = rename_to(lead, o)
        if q is None:
            return None
        rest, g, vs = q
        got = got + (mk_sum(list(rest), g) if rest else g)
        out.append((lead + rest, g, vs))
        if same(got, want):
            if any(x < len(lead) for x in interleaved(other[:k + 1])):
                return None
            return k + 1, out
    return None


def align_runs(a, b):
    """Join sequences of which some parts repeat one element."""
    if any(not isinstance(v, Poly) for q in (a, b) for _, _, vs in q for v in vs):
        return None
    a, b, out = list(a), list(b), []
    lead = {min(interleaved(q)) for q in (a, b) if len(q) > 1}
    if len(lead) > 1:
        return None
    while a and b:
        try:
            p = align_same([a[0]], [(b[0][0], b[0][1], b[0][2][0])])
            out += p
            a, b = a[1:], b[1:]
            continue
        except Undecided:
            pass
        t = take_run(a[0], b)
        if t is not None:
            out += [(bv, g, list(a[0][2]) + vs) for bv, g, vs in t[1]]
            a, b = a[1:], b[t[0]:]
            continue
        t = take_run(b[0], a)
        if t is None:
            return None
        q = rename_to((), b[0])
        out += [(bv, g, vs + list(q[2])) for bv, g, vs in t[1]]
        a, b = a[t[0]:], b[1:]
    return None if a or b else out


def align_same(acc, seq):
    if len(acc) != len(seq):
        raise Undecided('sequences of different structure')
    if interleaved(acc) != interleaved(seq):
        raise Undecided('sequences of different structure')
    out = []
    for (b1, g1, vs), (b2, g2, v) in zip(acc, seq):
        if len(b1) != len(b2):
            raise Undecided('sequences of different structure')
        if b1 != b2:
            mp = {}
            for x, y in zip(b1, b2):
                if x is not y:
                    h = subst(y.hi, mp) if mp else y.hi
                    if not same(h, x.hi):
                        raise Undecided('sequences of different length')
                    mp[y] = Poly.of(x)
            v = subst(v, mp)
            g2 = subst(g2, mp)
        if not same(g1, g2):
            raise Undecided('sequences of different guards')
        out.append((b1, g1, vs + [v]))
    return out


def seq_array(segs, kind):
    """1-D array of the elements of a sequence tree."""
    n = ZERO
    for bvs, g, _ in segs:
        n = n + (mk_sum(list(bvs), g) if bvs else g)
    if len(segs) == 1 and len(segs[0][0]) == 1:
        (bv,), g, v = segs[0]
        if g == ONE:
            return from_fn((bv.hi,), lambda idx: subst(v, {bv: idx[0]}), kind)
        r = Arr(Store(kind, Lazy(lambda idx: subst(v, {bv: nth(bv, g, idx[0])}))), (n,))
        r.seq = segs
        return r
    if all(not b and g == ONE for b, g, _ in segs):
        vals = [v for _, _, v in segs]
        return from_fn((len(vals),), lambda idx: vals[idx[0].as_int()], kind)
    if len(segs) == 1 and segs[0][1] == ONE and len(segs[0][0]) == 2:
        (b1, b2), _, v = segs[0]
        if b1 not in b2.hi.fv:
            return from_fn((n,), lambda idx: subst(v, {b1: fdiv(idx[0], b2.hi),
                                                      b2: mod(idx[0], b2.hi)}), kind)
    c = UnkC('element of an irregular sequence')
    if in_turn(segs):
        c = Lazy(lambda idx: turn(segs, idx[0], lambda v, mp: subst(v, mp) if mp else v))
    r = Arr(Store(kind, c), (n,))
    r.seq = segs
    return r


def in_turn(segs):
    """Are the segments simple ones that follow each other?"""
    bvs = [b for b, _, _ in segs]
    return len(segs) <= 9 and all(len(b) <= 1 for b in bvs) and \
        len({b for b in bvs if b}) == len([b for b in bvs if b])


def turn(segs, i, val):
    """Element i of segments that follow each other."""
    off, tot = ZERO, ZERO
    for b, g, v in segs:
        if not b:
            tot = tot + g * eq(i, off) * val(v, None)
            off = off + g
        else:
            cnt = mk_sum(list(b), g)
            gate = T.le(off, i) * T.lt(i, off + cnt)
            tot = tot + gate * val(v, {b[0]: nth(b[0], g, i - off)})
            off = off + cnt
    return tot


def nth(bv, cond, k):
    """Index of the k-th position where cond holds."""
    if cond == ONE:
        return k
    base = max(T.bvlevel(cond), T.bvlevel(bv.hi))
    b = T.raw_subst(cond, {bv: Poly.of(T.bvatom(base))})
    return Poly.of(atom('nth', base, bv.hi, b, k, integer=True, lo=ZERO, hi=bv.hi))


def nth_build(base, hi, body, k):
    v = T.fresh('n', hi=hi)
    return nth(v, subst(body, {T.bvatom(base): Poly.of(v)}), k)


T.FN_BUILD['nth'] = nth_build


BIG = sym('INFTY', integer=True, lo=ONE)


def uniq_bag(segs, kind):
    """The set of distinct elements, a predicate over the integers from zero, after adding ``low``."""
    if kind not in 'ib':
        raise Undecided('distinct elements of real numbers')
    low = 0
    while not all(T.prove_nonneg(v + low) or g != ONE and T.prove_nonneg(g * (v + low)) for _, g, v in segs):
        low = (low + 1) * 4 - 3 if low else 1
        if low > 20:
            raise Undecided('distinct elements that may be negative')
    x = T.fresh('q', hi=BIG)
    mem = ZERO
    for bvs, g, v in segs:
        c = g * eq(v + low, P(x))
        mem = b_or(mem, exists(list(bvs), c) if bvs else c)
    return binder('bag', [x], mem).as_atom(), low


def ucard(bag):
    return Poly.of(atom('ucard', bag, integer=True, lo=ZERO))


def uelem(bag, i):
    """Element number i of the set, in increasing order."""
    a = i.as_atom() if isinstance(i, Poly) else None
    if a is not None and a.head == 'urank' and a.args[0] is bag:
        return a.args[1]
    return Poly.of(atom('uelem', bag, i, integer=True, lo=ZERO))


def urank(bag, v):
    """Number of an element of the set: of the smaller ones."""
    a = v.as_atom() if isinstance(v, Poly) else None
    if a is not None and a.head == 'uelem' and a.args[0] is bag:
        return a.args[1]
    return Poly.of(atom('urank', bag, v, integer=True, lo=ZERO, hi=ucard(bag)))


T.FN_BUILD['uelem'] = uelem
T.FN_BUILD['urank'] = urank


def uniq_array(segs, kind='i'):
    """Distinct elements of a bag, in some order.  The bag is represented by
    its membership predicate."""
    if len(segs) == 1 and len(segs[0][0]) == 1 and segs[0][2] - Poly.of(segs[0][0][0]) == ZERO and segs[0][0][0].hi != BIG:
        return seq_array(segs, kind)    # increasing as they are
    bag, low = uniq_bag(segs, kind)
    r = Arr(Store(kind, Lazy(lambda idx: uelem(bag, idx[0]) - low)), (ucard(bag),))
    r.uniq = True
    return r


def member(bag, p):
    """[p is in the bag]"""
    base, his, (mem,) = bag.args
    return subst(mem, {T.bvatom(base): P(p)})


T.MEMBER = member


def rank(bv, g, j):
    """Number of selected positions before j."""
    if g == ONE:
        return j
    x = T.fresh('x', hi=j)
    return mk_sum([x], subst(g, {bv: P(x)}))
