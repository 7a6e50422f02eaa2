"""Models of the Python operators, containers and builtins."""
import json
import os
from .npcore import *
from . import terms as T
from . import values as V

UNROLL_IT = 400


# ---------------------------------------------------------------- canonical
def canon(v):
    """Hashable term describing a value (used as atom argument)."""
    if isinstance(v, Num):
        return v.p
    if isinstance(v, Poly):
        return v
    if v is None or isinstance(v, (str, int, float)):
        return repr(v)
    if isinstance(v, Arr):
        if v.ishape() is not None and small(v.shape) is not None:
            ish = v.ishape()
            return ('arr', repr(ish)) + tuple(v.get(tuple(P(k) for k in i)) for i in all_idx(ish))
        if v.seq is not None and v.ndim == 1 and all(isinstance(x, Poly) for _, _, x in v.seq):
            return ('seq',) + tuple((binder('lam', list(b), g, x) if b else (g, x)) for b, g, x in v.seq)
        bvs = [fresh('c', hi=d) for d in v.shape]
        body = v.get(tuple(P(b) for b in bvs))
        return ('arr', v.shape, binder('lam', bvs, body))
    if isinstance(v, tuple):
        return ('t',) + tuple(canon(x) for x in v)
    if isinstance(v, PyList):
        return ('l',) + tuple(canon_item(x) for x in v.items)
    if isinstance(v, PyDict):
        return ('d',) + tuple((repr(k), canon(x)) for k, x in v.items.items())
    if isinstance(v, Opq):
        return ('o', v.tag) + tuple(canon(x) for x in v.parts)
    if isinstance(v, Sparse):
        return ('sp', v.fmt, canon(v.arr))
    if isinstance(v, FuncV):
        return ('f', v.qual)
    if isinstance(v, (Builtin, TypeV, ModV, SymObj)):
        return ('n', v.name)
    if isinstance(v, Choice):
        return ('ch',) + tuple((g, canon(x)) for g, x in v.alts)
    if isinstance(v, SliceV):
        return ('sl', canon(v.a), canon(v.b), canon(v.c))
    if v is ELL:
        return '...'
    if isinstance(v, Rng):
        return ('rng', v.start, v.stop, v.step)
    if isinstance(v, Seq):
        return canon(toarr(v))
    raise Undecided('canonical form of %s' % type(v).__name__)


def canon_item(x):
    if isinstance(x, Gen):
        vals = []
        for k in x.kids:
            c = canon_item(k)
            vals.append(c)
        flat = []

        def fl(c):
            if isinstance(c, Poly):
                flat.append(c)
                return ('%', repr(len(flat)))
            if isinstance(c, tuple):
                return tuple(fl(y) for y in c)
            return c
        shape = tuple(fl(c) for c in vals)
        return ('g', shape, binder('lam', [x.bv], x.guard, *flat))
    if isinstance(x, Guarded):
        return ('if', x.guard) + tuple(canon_item(k) for k in x.kids)
    if isinstance(x, (PreSeg, UnkSeg)):
        return ('u', unknown('list of unknown content'))
    return canon(x)


def freeze(v):
    """Snapshot of a value for the effect record."""
    if isinstance(v, Arr):
        return v.frozen()
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, PyList):
        if v.concrete():
            return PyList([freeze(x) for x in v.items])
        return PyList(v.items)
    if isinstance(v, Sparse):
        return Sparse(v.arr.frozen(), v.fmt)
    return v


# ------------------------------------------------------------ dictionaries
def dkey(k):
    """Concrete dictionary key or None."""
    if isinstance(k, Num):
        return ('n', k.p.const()) if k.p.is_const() else None
    if isinstance(k, str):
        return ('s', k)
    if k is None:
        return ('z',)
    if isinstance(k, tuple):
        ks = tuple(dkey(x) for x in k)
        return None if any(x is None for x in ks) else ('t', ks)
    if isinstance(k, TypeV):
        return ('T', k.name)
    if isinstance(k, (FuncV, Builtin)):
        return ('F', getattr(k, 'qual', k.name))
    if isinstance(k, (PyList, PyDict, Arr)):
        raise PyRaise('TypeError', 'unhashable type')
    return None


def skey(k):
    """Dictionary key, symbolic numbers included."""
    kk = dkey(k)
    if kk is not None:
        return kk
    if isinstance(k, Num):
        return ('p', k.p, k.k)
    if isinstance(k, tuple):
        ks = tuple(skey(x) for x in k)
        return None if any(x is None for x in ks) else ('t', ks)
    return None


def symbolic(k):
    return k[0] == 'p' or k[0] == 't' and any(symbolic(x) for x in k[1])


def key_value(k):
    if k[0] == 'p':
        return Num(k[1], k[2])
    if k[0] == 'n':
        return num(k[1], 'i' if k[1].denominator == 1 else 'f')
    if k[0] == 's':
        return k[1]
    if k[0] == 'z':
        return None
    if k[0] == 't':
        return tuple(key_value(x) for x in k[1])
    if k[0] == 'T':
        return TypeV(k[1])
    raise Undecided('dictionary key')


def key_eq(I, k, v):
    """Condition that the concrete key k equals the abstract key v."""
    if isinstance(v, Num):
        return eq(P(k[1]), v.p) if k[0] in 'np' else ZERO
    if isinstance(v, tuple):
        if k[0] != 't' or len(k[1]) != len(v):
            return ZERO
        c = ONE
        for a, b in zip(k[1], v):
            c = c * key_eq(I, a, b)
        return c
    kk = dkey(v)
    if kk is not None and not symbolic(k):
        return ONE if kk == k else ZERO
    return I.truth(compare(I, 'Eq', key_value(k), v))


# A dictionary filled under symbolic keys is a pair of maps over the keys:
# whether a key is present, and its value.
def ready(d):
    """Prepare an empty dictionary for symbolic keys."""
    d.num = {n: (Store('b', Lazy(lambda idx: ZERO)), Store('f', Lazy(lambda idx: ZERO))) for n in (1, 2)}
    d.nums = {}
    d.guess = set()
    return d


def key_ix(k):
    """Key made of whole numbers, as a tuple of terms."""
    if isinstance(k, Num) and k.k in 'ib':
        return (k.p,)
    if isinstance(k, tuple) and len(k) == 2 and all(isinstance(x, Num) and x.k in 'ib' for x in k):
        return tuple(x.p for x in k)
    return None


def mapped(d):
    return d.num is not None and bool(d.nums)


def by_map(d, k):
    """Is k looked up in the maps of d?"""
    if mapped(d):
        return True
    ix = key_ix(k) if d.num is not None and not M.heap[d] else None
    return ix is not None and any(x.fv for x in ix)


def sym_ready(s):
    """Prepare an empty set for symbolic elements."""
    s.num = Store('b', Lazy(lambda idx: ZERO))
    return s


def set_add(I, s, v, bvs=(), guard=ONE):
    """Add a symbolic whole number."""
    if s.num is None or M.heap[s] or not isinstance(v, Num) or v.k not in 'ib':
        raise Undecided('set with symbolic elements')
    s.used = True
    put(s.num, tuple(bvs), guard, (v.p,), ONE, 'set')
    s.wnode = I.node


def set_mapped(s):
    return isinstance(s, PySet) and s.num is not None and s.used


def as_symset(s):
    if isinstance(s, SymSet):
        return s
    if set_mapped(s):
        c, segs = M.heap[s.num], []
        while type(c) is WChain and c.mode == 'set' and c.val == ONE and len(c.idx) == 1:
            segs.append((tuple(c.bvs), c.guard, c.idx[0]))
            c = c.parent
        if type(c) is Lazy:
            return SymSet(segs[::-1])
        c = M.heap[s.num]
        while type(c) is WChain:
            if not T.prove_nonneg(c.idx[0]):
                raise Undecided('set of numbers that may be negative')
            c = c.parent
        q = fresh('q', hi=V.BIG)
        return SymSet([((q,), there(M.heap[s.num], (P(q),)), P(q))])
    if isinstance(s, PySet):
        if not all(isinstance(x, Num) for x in s.items):
            raise Undecided('set operation')
        return SymSet([((), ONE, x.p) for x in s.items], jk('i', *[x.k for x in s.items]))
    raise PyRaise('TypeError', 'unsupported operand type(s) for a set')


def within(segs, x):
    """Is x among the elements?"""
    out = ZERO
    for bvs, g, v in segs:
        e = g * T.eq(v, x)
        out = V.b_or(out, exists(list(bvs), e) if bvs else e)
    return out


def set_op(a, b, op):
    a, b = as_symset(a), as_symset(b)
    k = jk(a.kind, b.kind)
    less = lambda x, y: [(bv, g * (ONE - within(y.segs, v)), v) for bv, g, v in x.segs]
    if op == 'BitOr':
        return SymSet(list(a.segs) + list(b.segs), k)
    if op == 'BitAnd':
        return SymSet([(bv, g * within(b.segs, v), v) for bv, g, v in a.segs], k)
    if op == 'Sub':
        return SymSet(less(a, b), a.kind)
    if op == 'BitXor':
        return SymSet(less(a, b) + less(b, a), k)
    raise PyRaise('TypeError', 'unsupported operand type(s) for sets')


def map_of(d, k):
    ix = key_ix(k)
    if ix is None:
        raise Undecided('symbolic dictionary with keys of several kinds')
    if M.heap[d]:
        raise Undecided('dictionary with concrete and symbolic keys')
    return ix, d.num[len(ix)]


def map_set(I, d, k, v, bvs=(), guard=ONE, mode='set'):
    """d[k] = v under symbolic keys; False if it does not apply."""
    ix = key_ix(k)
    if isinstance(v, Arr) and v.ndim == 0:
        v = Num(v.get(()), v.kind)
    if d.num is None or M.heap[d] or ix is None or not isinstance(v, Num):
        if mapped(d):
            raise Undecided('dictionary with symbolic keys')
        return False
    n = len(ix)
    if d.nums.get(n, v.k) != v.k:
        if n not in d.guess or jk(d.nums[n], v.k) != v.k:
            raise Undecided('dictionary of values of several kinds')
    d.guess.discard(n)
    d.nums[n] = v.k
    pres, vals = d.num[n]
    vals.kind = v.k
    if mode == 'set' and not bvs and not (here() * guard * there(M.heap[pres], ix)).t:
        mode = 'add'            # absent keys carry 0
    put(pres, tuple(bvs), guard, ix, ONE, 'set')
    put(vals, tuple(bvs), guard, ix, v.p, mode)
    d.wnode = M.I.node
    return True


def map_fill(I, d, items):
    """dict(pairs) for a symbolic sequence of pairs."""
    for bvs, g, kv in flat_segs(items):
        k, v = kv if isinstance(kv, tuple) and len(kv) == 2 else (None, None)
        if k is None or len(bvs) > 1 or not map_set(I, d, k, v, bvs, g):
            raise Undecided('dictionary filled from a sequence')


def there(c, ix):
    """Is a key present?"""
    if type(c) is WChain and c.mode == 'set' and c.val == ONE:
        cond = c.guard
        for a, b in zip(c.idx, ix):
            cond = cond * T.eq(a, b)
        e = exists(list(c.bvs), cond) if c.bvs and cond.t else cond
        return e if e == ONE else e + (ONE - e) * there(c.parent, ix)
    if type(c) is V.Mix:
        return c.g * there(c.a, ix) + (ONE - c.g) * there(c.b, ix)
    return read(c, ix)


def map_keys(d):
    """The keys of a symbolic dictionary, as list items in the order they were inserted."""
    if len(d.nums) != 1:
        raise Undecided('dictionary with keys of several kinds')
    n = next(iter(d.nums))
    c = M.heap[d.num[n][0]]
    chain = []
    while type(c) is WChain:
        if c.mode != 'set' or c.val != ONE:
            raise Undecided('content of a dictionary with symbolic keys')
        chain.append(c)
        c = c.parent
    if type(c) is not Lazy:
        raise Undecided('content of a dictionary with symbolic keys')
    out = []
    for w in reversed(chain):
        new = w.guard * (ONE - there(w.parent, w.idx))
        if len(w.bvs) > 1:
            raise Undecided('dictionary filled in nested loops')
        if w.bvs:
            b = w.bvs[0]
            j = fresh('j', hi=Poly.of(b))
            mp = {b: Poly.of(j)}
            e = subst(w.guard, mp)
            for x in w.idx:
                e = e * T.eq(subst(x, mp), x)
            new = new * (ONE - exists([j], e) if e.t else ONE)
        key = tuple(Num(x, 'i') for x in w.idx)
        key = key[0] if n == 1 else key
        if new.t:
            out.append(Gen(w.bvs[0], new, (key,)) if w.bvs else key if new == ONE else Guarded(new, (key,)))
    return out


def map_items(I, d):
    """Pairs of a symbolic dictionary."""
    out = []
    for x in map_keys(d):
        if isinstance(x, (Gen, Guarded)):
            k = (x.kids[0], map_get(I, d, x.kids[0], num(0), True))
            out.append(Gen(x.bv, x.guard, (k,)) if isinstance(x, Gen) else Guarded(x.guard, (k,)))
        else:
            out.append((x, map_get(I, d, x, num(0), True)))
    return out


def map_get(I, d, k, default, has_default):
    ix, (pres, vals) = map_of(d, k)
    g = there(M.heap[pres], ix)
    if len(ix) not in d.nums:
        x = default if has_default else I.call(d.default, [], {}) if d.default is not None else None
        d.nums[len(ix)] = x.k if isinstance(x, Num) else 'i'
        d.guess.add(len(ix))
    kd = d.nums[len(ix)]
    v = Num(read(M.heap[vals], ix), kd)
    if not has_default and d.default is not None:
        x = I.call(d.default, [], {})
        if not isinstance(x, Num):
            raise Undecided('default of a symbolic dictionary')
        if x.p == ZERO:
            return Num(v.p, jk(kd, x.k))
        return Num(g * v.p + (ONE - g) * x.p, jk(kd, x.k))
    if not has_default:
        I.cond_raise(ONE - g, 'KeyError', 'key not present')
        return v
    if g == ONE:
        return v
    if isinstance(default, Num) and default.p == ZERO:
        return Num(v.p, jk(kd, default.k))      # absent keys carry 0
    return combine(I, [(g, v), (ONE - g, default)])


def dict_lookup(I, d, k, default=None, has_default=False):
    if by_map(d, k):
        return map_get(I, d, k, default, has_default)
    kk = dkey(k)
    if kk is not None and (kk in d.items or not any(symbolic(q) for q in d.items)):
        if kk in d.items:
            g, alts = present(d.items[kk])
            if g == ONE:
                return d.items[kk]
            if has_default:
                return combine(I, alts + [(ONE - g, default)])
            if d.default is None:
                I.cond_raise(ONE - g, 'KeyError', str(k))
                return combine(I, alts)
        elif has_default:
            return default
        elif d.default is None:
            raise PyRaise('KeyError', str(k))
    alts = []
    left = ONE
    for q, v in d.items.items():
        g = key_eq(I, q, k)
        if g.t:
            here_, vs = present(v)
            alts += [(g * c, x) for c, x in vs]
            left = left - g * here_
    if left.t and not (left * I.pc * I.asm * I.base).t:
        left = ZERO
    if has_default:
        if left.t:
            alts.append((left, default))
    elif left.t and d.default is not None:
        v = I.call(d.default, [], {})
        dict_set(I, d, k, v, left)
        alts.append((left, v))
    elif left.t:
        if not alts:
            raise PyRaise('KeyError', str(k))
        I.cond_raise(left, 'KeyError', 'key not present')
    if not alts:
        raise PyRaise('KeyError', str(k))
    return combine(I, alts)


def absent():
    from .interp import Unbound
    return Unbound()


def present(v):
    """Condition that an entry of a dictionary exists, and its values."""
    if not isinstance(v, Choice):
        return ONE, [(ONE, v)]
    g, alts = ONE, []
    for c, x in v.alts:
        if type(x).__name__ == 'Unbound':
            g = g - c
        else:
            alts.append((c, x))
    return g, alts


def entry(alts):
    """Value of an entry: exclusive guarded values; it does not exist elsewhere."""
    out, g = [], ZERO
    for c, v in alts:
        for b, x in (v.alts if isinstance(v, Choice) else [(ONE, v)]):
            if (c * b).t:
                out.append((c * b, x))
                g = g + c * b
    if (ONE - g).t:
        return Choice([(ONE - g, absent())] + out) if out else None
    if len(out) == 1:
        return out[0][1]
    if all(isinstance(x, Num) for _, x in out):
        return Num(sum((c * x.p for c, x in out), ZERO), jk(*[x.k for _, x in out]))
    return Choice(out)


def combine(I, alts):
    """Join of guarded values (guards exclusive, exhaustive under the pc)."""
    alts = [(g, v) for g, v in alts if g.t]
    if len(alts) == 1:
        return alts[0][1]
    if all(isinstance(v, Num) for _, v in alts):
        out = ZERO
        for g, v in alts:
            out = out + g * v.p
        return Num(out, jk(*[v.k for _, v in alts]))
    merged = []
    for g, v in alts:
        for i, (g2, v2) in enumerate(merged):
            if v2 is v or (isinstance(v, str) and v == v2) or \
                    (isinstance(v, FuncV) and isinstance(v2, FuncV) and v.node is v2.node and v.env is v2.env) or \
                    (isinstance(v, TypeV) and v == v2):
                merged[i] = (g2 + g, v2)
                break
        else:
            merged.append((g, v))
    if len(merged) == 1:
        return merged[0][1]
    if all(isinstance(v, tuple) for _, v in merged) and len({len(v) for _, v in merged}) == 1:
        return tuple(combine(I, [(g, v[i]) for g, v in merged]) for i in range(len(merged[0][1])))
    return Choice(merged)


def put_dict(d, kk, v):
    M.heap[d] = {**M.heap[d], kk: v}
    d.wnode = M.I.node


def dict_set(I, d, k, v, guard=ONE):
    """d[k] = v (where guard)"""
    kk = skey(k)
    if kk is None:
        raise Undecided('dictionary filled under a symbolic key')
    if by_map(d, k):
        if guard != ONE:
            raise Undecided('dictionary with symbolic keys')
        if map_set(I, d, k, v):
            return
    if guard == ONE and not (symbolic(kk) or any(symbolic(q) for q in d.items)):
        return put_dict(d, kk, v)
    own = [q for q in d.items if key_eq(I, q, k) == ONE]
    if own:
        kk = own[0]
    new = dict(M.heap[d])
    left = guard
    for q, old in d.items.items():
        here_, vs = present(old)
        g = key_eq(I, q, k) * here_ * guard
        if g.t:
            left = left - g
            new[q] = entry([(g, v)] + [((ONE - g) * c, x) for c, x in vs])
    if left.t and not (left * I.pc * I.asm * I.base).t:
        left = ZERO
    if left.t:
        e = entry([(left, v)] + ([((ONE - left) * c, x) for c, x in present(new[kk])[1]] if kk in new else []))
        new[kk] = e
    if len(new) > 20:
        raise Undecided('dictionary of many symbolic keys')
    M.heap[d] = new
    d.wnode = M.I.node


def dict_items(I, d):
    """Pairs of a dictionary, those that may be missing as guarded items."""
    if mapped(d):
        return map_items(I, d)
    out = []
    for k, v in d.items.items():
        g, alts = present(v)
        kv = (key_value(k), combine(I, alts))
        out.append(kv if g == ONE else Guarded(g, (kv,)))
    return out


def part_of(items, n):
    """Keys (0) or values (1) of pairs."""
    out = []
    for x in items:
        if isinstance(x, Gen):
            out.append(Gen(x.bv, x.guard, (x.kids[0][n],)))
        elif isinstance(x, Guarded):
            out.append(Guarded(x.guard, (x.kids[0][n],)))
        else:
            out.append(x[n])
    return out


def uncertain(d):
    return mapped(d) or any(isinstance(v, Choice) and present(v)[0] != ONE for v in d.items.values())


def concrete_dict(d):
    if mapped(d):
        raise Undecided('content of a dictionary with symbolic keys')
    for v in d.items.values():
        if isinstance(v, Choice) and any(type(x).__name__ == 'Unbound' for _, x in v.alts):
            raise Undecided('dictionary with uncertain keys')
    return d.items


# ------------------------------------------------------------------- lists
def list_set(I, l, k, v):
    if isinstance(k, SliceV):
        if l.concrete():
            s = py_slice(k)
            x = list(l.items)
            x[s] = to_items(I, v)
            M.heap[l] = tuple(x)
            l.wnode = I.node
            return
        raise Undecided('slice assignment on a list')
    if not isinstance(k, Num):
        raise PyRaise('TypeError', 'list indices must be integers')
    if k.k in 'fc':
        raise PyRaise('TypeError', 'list indices must be integers or slices, not float')
    l.wnode = I.node
    i = k.p.as_int()
    if not l.concrete():
        raise Undecided('assignment into a list of symbolic length')
    x = list(l.items)
    if i is not None:
        try:
            x[i] = v
        except IndexError:
            raise PyRaise('IndexError', 'list assignment index out of range')
    else:
        for j in range(len(x)):
            x[j] = I.mix(eq(k.p, P(j)), v, x[j])
    M.heap[l] = tuple(x)


def py_slice(s):
    def iv(x):
        if x is None:
            return None
        if isinstance(x, Num):
            if x.k in 'fc':
                raise PyRaise('TypeError', 'slice indices must be integers')
            i = x.p.as_int()
            if i is not None:
                return i
        raise Undecided('symbolic slice')
    return slice(iv(s.a), iv(s.b), iv(s.c))


class IterV:
    """Iterator: a sequence that is read once."""
    __slots__ = ('v', 'cell')

    def __init__(self, v):
        self.v = v
        self.cell = PyDict()
        M.heap[self.cell] = {skey('at'): Num(ZERO, 'i')}


class Endless:
    """Unbounded sequence."""
    __slots__ = ('at',)

    def __init__(self, at):
        self.at = at


def where_at(I, it):
    v = I.getitem(it.cell, 'at')
    if not isinstance(v, Num) or has_unknown(v.p):
        raise Undecided('position of an iterator')
    return v.p


def consume(I, it, part=False):
    """What is left of the iterator; nothing is left afterwards (an unknown
    number of elements when only a part is read)."""
    k = where_at(I, it)
    if isinstance(it.v, Endless):
        if not part:
            raise Undecided('endless iterator')
        I.setitem(it.cell, 'at', Num(T.unknown('position of an iterator'), 'i'))
        return Endless(lambda p: it.v.at(k + p))
    v = it.v
    if k == ZERO:
        if part:
            I.setitem(it.cell, 'at', Num(T.unknown('position of an iterator'), 'i'))
        else:
            I.setitem(it.cell, 'at', num(-1))
        return v
    if k == P(-1):
        return PyList([])
    t, s = seq_of(I, v)
    n = P(len(s)) if t == 'c' else s.n
    I.setitem(it.cell, 'at', num(-1) if not part else Num(T.unknown('position of an iterator'), 'i'))
    i = k.as_int()
    if i is not None and i >= 0:
        if t == 'c':
            return PyList(s[i:])
    if prove_nonneg(k):
        at = (lambda p: pick(I, s, p)) if t == 'c' else s.at
        left = n - k if prove_nonneg(n - k) else (n - k) * lt(k, n)
        return Seq(left, lambda p: at(k + p))
    raise Undecided('remainder of an iterator')


def to_items(I, v):
    """Segments of an iterable, as list items."""
    if isinstance(v, PyDict) and uncertain(v):
        v = PyList(part_of(dict_items(M.I, v), 0))
    if isinstance(v, IterV):
        v = consume(I, v)
    if isinstance(v, PyList):
        return v.items
    if isinstance(v, tuple):
        return v
    if isinstance(v, PySet) and not v.used:
        return v.items
    if isinstance(v, PyDict):
        return tuple(key_value(k) for k in concrete_dict(v))
    if isinstance(v, str):
        return tuple(v)
    if isinstance(v, Choice):
        return tuple(Guarded(g, to_items(I, x)) for g, x in v.alts)
    segs = iterate(I, v)
    out = []
    for s in segs:
        out += seg_items(s)
    return tuple(out)


def seg_items(s):
    if s[0] == 'v':
        return [s[1]]
    if s[0] == 'if':
        k = []
        for x in s[2]:
            k += seg_items(x)
        return [Guarded(s[1], k)]
    t, n, f, gf = s
    j = fresh('l', hi=n)
    if t == 'nest':
        k = []
        for x in f(P(j)):
            k += seg_items(x)
        return [Gen(j, ONE, tuple(k))]
    return [Gen(j, gf(P(j)) if gf else ONE, (f(P(j)),))]


def subst_any(v, mp):
    """Substitute in a value."""
    if isinstance(v, Num):
        return Num(subst(v.p, mp), v.k)
    if isinstance(v, Poly):
        return subst(v, mp)
    if isinstance(v, tuple):
        return tuple(subst_any(x, mp) for x in v)
    if isinstance(v, Arr):
        fz = v.frozen()
        return from_fn(tuple(subst(d, mp) for d in v.shape), lambda idx: subst_get(fz, idx, mp), v.kind)
    if isinstance(v, PyList):
        return PyList([subst_item(x, mp) for x in v.items])
    if isinstance(v, Choice):
        return Choice([(subst(g, mp), subst_any(x, mp)) for g, x in v.alts])
    if isinstance(v, Opq):
        return Opq(v.tag, *[subst_any(x, mp) for x in v.parts])
    if isinstance(v, Sparse):
        return Sparse(subst_any(v.arr, mp), v.fmt)
    if isinstance(v, SliceV):
        return SliceV(*[subst_any(x, mp) for x in (v.a, v.b, v.c)])
    if isinstance(v, Rng):
        return Rng(subst(v.start, mp), subst(v.stop, mp), subst(v.step, mp))
    return v


def subst_item(x, mp):
    if isinstance(x, Gen):
        h = subst(x.bv.hi, mp)
        m2 = dict(mp)
        nb = x.bv
        if h != x.bv.hi:
            nb = fresh('g', hi=h)
            m2[x.bv] = P(nb)
        return Gen(nb, subst(x.guard, m2), tuple(subst_item(k, m2) for k in x.kids))
    if isinstance(x, Guarded):
        return Guarded(subst(x.guard, mp), tuple(subst_item(k, mp) for k in x.kids))
    return subst_any(x, mp)


def joined(a, b):
    """Items of two lists one after the other; a loop repeated is a loop of its own."""
    have = set()

    def collect(items):
        for x in items:
            if isinstance(x, Gen):
                have.add(x.bv)
            if isinstance(x, (Gen, Guarded)):
                collect(x.kids)

    def own(x):
        if isinstance(x, Guarded):
            return Guarded(x.guard, tuple(own(k) for k in x.kids))
        if isinstance(x, Gen) and x.bv in have:
            nb = fresh('g', hi=x.bv.hi)
            mp = {x.bv: P(nb)}
            return Gen(nb, subst(x.guard, mp), tuple(subst_item(k, mp) for k in x.kids))
        return x
    collect(a)
    return tuple(a) + tuple(own(x) for x in b)


def pick(I, vals, idx):
    """vals[idx] for a concrete list of values and a symbolic index."""
    k = idx.as_int()
    if k is not None:
        return vals[k]
    if len(vals) == 1:
        return vals[0]
    if all(isinstance(v, Num) for v in vals):
        return Num(sel(tuple(v.p for v in vals), idx), jk(*[v.k for v in vals]))
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(pick(I, [v[i] for v in vals], idx) for i in range(len(vals[0])))
    if all(isinstance(v, PyList) for v in vals) and all(v.concrete() for v in vals) and \
            len({len(v.items) for v in vals}) == 1:
        return PyList([pick(I, [v.items[i] for v in vals], idx) for i in range(len(vals[0].items))])
    if all(isinstance(v, Arr) for v in vals) and len({v.shape for v in vals}) == 1:
        return arr_get(I, stack(vals), Num(idx, 'i'))
    alts = []
    left = ONE
    for j, v in enumerate(vals[:-1]):
        g = eq(idx, P(j))
        alts.append((g, v))
        left = left - g
    alts.append((left, vals[-1]))
    return combine(I, alts)


def list_at(I, items, p):
    """Element at position p (already non-negative) of a list."""
    if not any(isinstance(x, (Gen, Guarded, PreSeg, UnkSeg)) for x in items):
        return pick(I, list(items), p)
    segs = flat_segs(items)
    # leading concrete items
    n0 = 0
    while n0 < len(segs) and not segs[n0][0] and segs[n0][1] == ONE:
        n0 += 1
    k = p.as_int()
    if k is not None and k < n0:
        return segs[k][2]
    if len(segs) == n0 + 1 and len(segs[n0][0]) == 1:
        (bv,), g, v = segs[n0]
        if k is not None or n0 == 0:
            return subst_any(v, {bv: nth(bv, g, p - n0)})
    rest = segs[n0:]
    if n0 == 0 and rest and all(len(b) == 1 and g == ONE for b, g, _ in rest) and \
            len({b[0] for b, _, _ in rest}) == 1:
        bv = rest[0][0][0]
        m = len(rest)
        v = pick(I, [v for _, _, v in rest], mod(p, P(m)))
        return subst_any(v, {bv: fdiv(p, P(m))})
    if n0 == 0 and len(rest) == 1 and len(rest[0][0]) == 2 and rest[0][1] == ONE:
        (b1, b2), _, v = rest[0]
        if b1 not in b2.hi.fv:
            add_radix(b2.hi)
            return subst_any(v, {b1: fdiv(p, b2.hi), b2: mod(p, b2.hi)})
    raise Undecided('element of an irregular list')


# --------------------------------------------------------------- iteration
def seq_of(I, v):
    """('c', [values]) or ('s', Seq) view of an iterable."""
    if isinstance(v, PyDict) and uncertain(v):
        v = PyList(part_of(dict_items(M.I, v), 0))
    if isinstance(v, IterV):
        v = consume(I, v)
    if isinstance(v, (tuple,)):
        return 'c', list(v)
    if isinstance(v, PyList):
        if v.concrete():
            return 'c', list(v.items)
        items = v.items
        n = seq_len(items)
        return 's', Seq(n, lambda p: list_at(I, items, p))
    if set_mapped(v):
        v = as_symset(v)
    if isinstance(v, PySet):
        return 'c', list(v.items)
    if isinstance(v, PyDict):
        return 'c', [key_value(k) for k in concrete_dict(v)]
    if isinstance(v, str):
        return 'c', list(v)
    if isinstance(v, Rng):
        n = v.length()
        k = n.as_int()
        if k is not None and k <= UNROLL_IT:
            return 'c', [Num(v.at(P(i)), 'i') for i in range(k)]
        return 's', Seq(n, lambda p: Num(v.at(p), 'i'))
    if isinstance(v, Seq):
        k = v.n.as_int()
        if k is not None and k <= UNROLL_IT:
            return 'c', [v.at(P(i)) for i in range(k)]
        return 's', v
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise('TypeError', 'iteration over a 0-d array')
        k = v.shape[0].as_int()
        if k is not None and k <= UNROLL_IT:
            return 'c', [arr_get(I, v, Num(P(i), 'i')) for i in range(k)]
        return 's', Seq(v.shape[0], lambda p: arr_get(I, v, Num(p, 'i')))
    if isinstance(v, SymObj) and v.iter_ is not None:
        return seq_of(I, v.iter_())
    if isinstance(v, SymSet):
        return seq_of(I, symset_arr(v))
    if isinstance(v, Choice):
        return seq_of(I, PyList(to_items(I, v)))
    if isinstance(v, (Num,)) or v is None or isinstance(v, (FuncV, Builtin, ModV)):
        raise PyRaise('TypeError', 'object is not iterable')
    raise Undecided('iteration over %s' % (v.tag if isinstance(v, Opq) else type(v).__name__))


def iterate(I, v):
    if isinstance(v, IterV):
        v = consume(I, v)
    if isinstance(v, Choice) and all(isinstance(x, (PyList, tuple, Arr, Rng)) for _, x in v.alts):
        v = PyList(to_items(I, v))
    if isinstance(v, PyList) and not v.concrete():
        return iter_items(I, v.items)
    if isinstance(v, Arr) and v.seq is not None and v.shape[0].as_int() is None:
        out = []
        for bvs, g, x in v.seq:
            out.append(seg_loop(I, bvs, g, Num(x, v.kind) if isinstance(x, Poly) else x))
        return out
    if isinstance(v, SymObj) and v.iter_ is not None:
        return iterate(I, v.iter_())
    t, s = seq_of(I, v)
    if t == 'c':
        return [('v', x) for x in s]
    if s.grid is not None and len(s.grid[0]) > 1:
        return grid_segs(s)
    return [('loop', s.n, s.at, None)]


def seg_loop(I, bvs, g, x):
    if not bvs:
        return ('v', x) if g == ONE else ('if', g, [('v', x)])
    if len(bvs) == 1:
        bv = bvs[0]
        return ('loop', bv.hi, lambda p: subst_any(x, {bv: p}),
                None if g == ONE else (lambda p: subst(g, {bv: p})))
    for i, b in enumerate(bvs):
        if any(a in b.hi.fv for a in bvs[:i]):
            raise Undecided('nested sequence with dependent bounds')
    tot = ONE
    for b in bvs:
        tot = tot * b.hi
    shape = tuple(b.hi for b in bvs)

    def mp(p):
        return dict(zip(bvs, unflatten(p, shape)))
    return ('loop', tot, lambda p: subst_any(x, mp(p)), None if g == ONE else (lambda p: subst(g, mp(p))))


def iter_items(I, items):
    out = []
    for x in items:
        if isinstance(x, Gen):
            fl = flat_segs([x])
            if len(fl) == 1:
                out.append(seg_loop(I, *fl[0]))
            else:
                bv = x.bv
                if all(b == (bv,) and g == ONE for b, g, _ in fl):
                    m = len(fl)
                    vals = [v for _, _, v in fl]
                    add_radix(P(m))
                    out.append(('loop', bv.hi * m, lambda p, bv=bv, m=m, vals=vals: subst_any(
                        pick(I, vals, mod(p, P(m))), {bv: fdiv(p, P(m))}), None))
                else:
                    out.append(('nest', bv.hi, lambda p, x=x: one_turn(I, x, p), None))
        elif isinstance(x, Guarded):
            out.append(('if', x.guard, iter_items(I, x.kids)))
        elif isinstance(x, (PreSeg, UnkSeg)):
            raise Undecided('list of unknown content')
        else:
            out.append(('v', x))
    return out


def one_turn(I, x, p):
    """Segments of one element of a generated part of a list."""
    mp = {x.bv: p}
    segs = iter_items(I, [subst_item(k, mp) for k in x.kids])
    g = subst(x.guard, mp)
    return segs if g == ONE else [('if', g, segs)]


def unpack_any(I, v):
    t, s = seq_of(I, v)
    if t != 'c':
        raise Undecided('unpacking a sequence of symbolic length')
    return s


def unpack(I, v, n):
    if isinstance(v, Choice):
        r = I.split(v, lambda x: tuple(unpack(I, x, n)))
        if isinstance(r, tuple):
            return list(r)
        raise Undecided('unpacking a choice')
    if isinstance(v, Arr) and v.ndim and v.shape[0].as_int() is None:
        return [arr_get(I, v, Num(P(i), 'i')) for i in range(n)]
    if isinstance(v, Opq):
        return [Opq('item', v, num(i)) for i in range(n)]
    t, s = seq_of(I, v)
    if t == 'c':
        if len(s) != n:
            raise PyRaise('ValueError', 'not enough values to unpack (expected %d, got %d)' % (n, len(s))
                          if len(s) < n else 'too many values to unpack (expected %d)' % n)
        return s
    return [s.at(P(i)) for i in range(n)]


def length(I, v):
    if isinstance(v, IterV):
        raise PyRaise('TypeError', 'object of type iterator has no len()')
    if isinstance(v, PyDict) and uncertain(v):
        v = PyList(part_of(dict_items(M.I, v), 0))
    if isinstance(v, str):
        return P(len(v))
    if isinstance(v, tuple):
        return P(len(v))
    if isinstance(v, PyList):
        return seq_len(v.items)
    if isinstance(v, PyDict):
        return P(len(concrete_dict(v)))
    if set_mapped(v):
        v = as_symset(v)
    if isinstance(v, PySet):
        return P(len(v.items))
    if isinstance(v, Arr):
        if not v.shape:
            raise PyRaise('TypeError', 'len() of unsized object')
        return v.shape[0]
    if isinstance(v, Rng):
        return v.length()
    if isinstance(v, Seq):
        return v.n
    if isinstance(v, SymSet):
        return symset_arr(v).shape[0]
    if isinstance(v, (Num,)) or v is None:
        raise PyRaise('TypeError', 'object has no len()')
    if isinstance(v, Opq):
        return Poly.of(atom('len', canon(v), integer=True, lo=ZERO))
    if isinstance(v, SymObj) and v.iter_ is not None:
        return length(I, v.iter_())
    if isinstance(v, Sparse):
        raise PyRaise('TypeError', 'sparse array length is ambiguous')
    raise Undecided('len of %s' % type(v).__name__)


def symset_arr(s):
    return uniq_array(s.segs, s.kind)


def to_set(I, v):
    if isinstance(v, PyList) and v.concrete() or isinstance(v, (tuple, PyDict, PySet, str)):
        out = []
        seen = set()
        for x in unpack_any(I, v):
            k = dkey(x)
            if k is None:
                out = None
                break
            if k not in seen:
                seen.add(k)
                out.append(x)
        if out is not None:
            return PySet(out)
    a = toarr(v)
    return SymSet(bag_segs(a), a.kind)


def bag_segs(a):
    """Elements of an array as segments (bvs, guard, value)."""
    if a.seq is not None and a.ndim == 1:
        return list(a.seq)
    ish = a.ishape()
    if ish is not None and small(a.shape) is not None and small(a.shape) <= UNROLL:
        return [((), ONE, a.get(tuple(P(k) for k in i))) for i in all_idx(ish)]
    bvs = tuple(fresh('u', hi=d) for d in a.shape)
    return [(bvs, ONE, a.get(tuple(P(b) for b in bvs)))]
