"""Term domain of the abstract interpreter.

Every numeric abstract value is a Laurent polynomial with rational
coefficients over hash-consed *atoms* (symbols, reads of input arrays,
Iverson brackets, bounded sums, opaque functions...).  Canonical forms make
equality of two values a comparison of normal forms; nothing is executed and
no solver is involved.  Arithmetic is exact (reals), decimal literals are the
rationals they spell.
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import permutations

F0 = Fraction(0)
F1 = Fraction(1)


class Undecided(Exception):
    """The analysis met something it does not model."""


def _h(s):
    return blake2b(s.encode(), digest_size=12).hexdigest()


class Atom:
    __slots__ = ('head', 'args', 'key', 'akey', 'fv', 'integer', 'lo', 'hi',
                 'boolean', 'deps', 'rank', '_lvl', '__weakref__')

    def __repr__(self):
        return pretty_atom(self)

    def __lt__(self, other):
        return self.key < other.key


ATOMS = {}
_fresh = [0]
NOFV = frozenset()


def _argkey(a):
    if isinstance(a, Poly):
        return a.key
    if isinstance(a, Atom):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_argkey(x) for x in a) + ')'
    return repr(a)


def _argakey(a):
    if isinstance(a, Poly):
        return a.akey
    if isinstance(a, Atom):
        return a.akey
    if isinstance(a, tuple):
        return '(' + ','.join(_argakey(x) for x in a) + ')'
    return repr(a)


def _walk(args):
    for a in args:
        if isinstance(a, Poly):
            for m in a.t:
                for at, _ in m:
                    yield at
        elif isinstance(a, Atom):
            yield a
        elif isinstance(a, tuple):
            yield from _walk(a)


def atom(head, *args, integer=False, lo=None, hi=None, boolean=False, bound=False):
    key = _h(head + '|' + ','.join(_argkey(a) for a in args))
    at = ATOMS.get(key)
    if at is not None:
        return at
    at = Atom()
    at.head = head
    at.args = args
    at.key = key
    at.integer = integer or boolean
    at.lo = lo
    at.hi = hi
    at.boolean = boolean
    at.deps = None
    at._lvl = None
    sub = list(_walk(args))
    fv = NOFV
    for s in sub:
        if s.fv:
            fv = fv | s.fv
    at.rank = 1 + max((s.rank for s in sub), default=0)
    if head == 'sym':
        fv = frozenset((at,))
        at.rank = 0
    if head == 'bv':
        at.rank = 0
    if head == 'sym' and bound:
        at.akey = '_'
    elif head == 'bv':
        at.akey = '_'
    else:
        at.akey = _h('a' + head + '|' + ','.join(_argakey(a) for a in args))
    at.fv = fv
    ATOMS[key] = at
    return at


def deps(at):
    """All atoms occurring in ``at`` (itself included)."""
    if at.deps is None:
        s = {at}
        for x in _walk(at.args):
            s |= deps(x)
        at.deps = frozenset(s)
    return at.deps


def pdeps(p):
    s = set()
    for m in p.t:
        for a, _ in m:
            s |= deps(a)
    return s


def sym(name, integer=False, lo=None, hi=None, boolean=False):
    return Poly.of(atom('sym', name, integer=integer, lo=lo, hi=hi, boolean=boolean))


def fresh(prefix='i', lo=None, hi=None, integer=True):
    _fresh[0] += 1
    return atom('sym', '%s#%d' % (prefix, _fresh[0]), integer=integer,
                lo=ZERO if lo is None and integer else lo, hi=hi, bound=True)


class Poly:
    __slots__ = ('t', '_key', '_akey', '_fv')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._akey = None
        self._fv = None

    # -- construction
    @staticmethod
    def of(a, e=1):
        return Poly({((a, e),): F1})

    @property
    def key(self):
        if self._key is None:
            parts = []
            for m, c in self.t.items():
                parts.append('*'.join(sorted('%s^%d' % (a.key, e) for a, e in m))
                             + ':' + str(c))
            parts.sort()
            self._key = _h('+'.join(parts))
        return self._key

    @property
    def akey(self):
        if self._akey is None:
            parts = []
            for m, c in self.t.items():
                parts.append('*'.join(sorted('%s^%d' % (a.akey, e) for a, e in m))
                             + ':' + str(c))
            parts.sort()
            self._akey = _h('+'.join(parts))
        return self._akey

    @property
    def fv(self):
        if self._fv is None:
            s = NOFV
            for m in self.t:
                for a, _ in m:
                    if a.fv and not a.fv <= s:
                        s = s | a.fv
            self._fv = s
        return self._fv

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), F0)

    def as_int(self):
        """Concrete integer value or None."""
        if self.is_const():
            c = self.const()
            if c.denominator == 1:
                return int(c)
        return None

    def single(self):
        """(coefficient, monomial) if there is exactly one term."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None

    def as_atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return s[1][0][0]
        return None

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, F0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if self.is_const():
            c = self.const()
            if c == 1:
                return o
            return Poly({m: c * v for m, v in o.t.items()})
        if o.is_const():
            c = o.const()
            if c == 1:
                return self
            return Poly({m: c * v for m, v in self.t.items()})
        acc = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                r = mono_mul(m1, m2)
                cc = c1 * c2
                if type(r) is tuple:
                    v = acc.get(r)
                    if v is None:
                        acc[r] = cc
                    else:
                        v += cc
                        if v:
                            acc[r] = v
                        else:
                            del acc[r]
                else:
                    for m, c in r.t.items():
                        v = acc.get(m, F0) + c * cc
                        if v:
                            acc[m] = v
                        else:
                            acc.pop(m, None)
        return Poly(acc)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inverse(P(o))

    def __rtruediv__(self, o):
        return P(o) * inverse(self)

    def __pow__(self, n):
        if isinstance(n, Poly):
            n = n.const() if n.is_const() else n
        if isinstance(n, (int, Fraction)) and n == int(n):
            n = int(n)
            if n < 0:
                return inverse(self) ** (-n)
            r = ONE
            b = self
            while n:
                if n & 1:
                    r = r * b
                n >>= 1
                if n:
                    b = b * b
            return r
        if isinstance(n, Fraction) and n.denominator == 2:
            return sqrt(self) ** n.numerator
        return fn('pow', self, P(n))

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return pretty(self)


ZERO = Poly({})
ONE = Poly({(): F1})


def P(x):
    if type(x) is Poly:
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Atom):
        return Poly.of(x)
    raise Undecided('not a number: %r' % (type(x).__name__,))


NORM_CACHE = {}
EXPANDED = {'sqrt', 'V', 'I'}


def mono_mul(m1, m2):
    """Product of two monomials: a monomial, or a Poly when it reduces."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    special = False
    for a, e in m2:
        n = d.get(a)
        if n is None:
            d[a] = e
        else:
            n += e
            if n == 0:
                del d[a]
            else:
                d[a] = n
    for a, e in d.items():
        h = a.head
        if a.boolean:
            if e != 1:
                special = True
            if h == 'eq' or h == 'neg':
                if len(d) > 1:
                    special = True
        elif h == 'sqrt' or h == 'I' or (h == 'V' and e > 0):
            if not (h == 'sqrt' and e == 1) and not (h == 'I' and e == 1):
                special = True
    m = tuple(sorted(d.items(), key=_mk))
    if special:
        r = NORM_CACHE.get(m)
        if r is None:
            r = norm_mono(m)
            NORM_CACHE[m] = r
        if len(r.t) == 1:
            (mm, c), = r.t.items()
            if c == 1:
                return mm
        return r
    return m


def _mk(x):
    return x[0].key


def norm_mono(m):
    """Apply the algebraic relations of the atoms of a monomial."""
    out = ONE
    rest = []
    extra = ONE
    for a, e in m:
        h = a.head
        if a.boolean:
            if e < 0:
                rest.append((a, -1))
            else:
                rest.append((a, 1))
        elif h == 'I':
            k = e % 4
            extra = extra * Fraction(-1 if k >= 2 else 1)
            if k % 2:
                rest.append((a, 1))
        elif h == 'sqrt':
            q, k = divmod(e, 2)
            if q:
                extra = extra * (a.args[0] ** q)
            if k:
                rest.append((a, 1))
        elif h == 'V' and e > 0:
            extra = extra * (a.args[0] ** e)
        else:
            rest.append((a, e))
    base = tuple(sorted(rest, key=_mk))
    eqs = [a for a, e in base if a.head == 'eq']
    if eqs or sum(1 for a, _ in base if a.boolean and a.head == 'neg') > 1:
        out = norm_guards(base)
    else:
        out = Poly({base: F1})
    if extra is not ONE:
        out = out * extra
    return out


def norm_guards(base):
    """Use each [p == 0] factor to rewrite the other factors."""
    for i, (a, e) in enumerate(base):
        if a.head != 'eq' or len(base) == 1:
            continue
        if a.args[0] in PINNED:
            continue
        o = orient(a.args[0])
        if o is None:
            continue
        x, expr = o
        rest = base[:i] + base[i + 1:]
        hit = any(x in deps(b) for b, _ in rest)
        if not hit:
            continue
        if any(eb < 0 and x in deps(b) and not subst_atom(b, {x: expr}).t for b, eb in rest):
            # the quotient does not exist under this guard: the value was
            # computed on a path the guard excludes
            return ZERO
        r = ONE
        for b, eb in rest:
            if x in deps(b):
                r = r * (subst_atom(b, {x: expr}) ** eb)
            else:
                r = r * Poly({((b, eb),): F1})
            if not r.t:
                return ZERO
        return r * Poly.of(a)
    # contradictory orderings
    negs = [a for a, _ in base if a.head == 'neg']
    for i, a in enumerate(negs):
        for b in negs[i + 1:]:
            # p<0 and q<0 with p+q >= 0 is impossible
            if prove_nonneg(a.args[0] + b.args[0]):
                return ZERO
            d = a.args[0] - b.args[0]
            if prove_nonneg(d):        # a's p >= b's p: a implies b
                return norm_mono(tuple(x for x in base if x[0] is not b))
            if prove_nonneg(-d):
                return norm_mono(tuple(x for x in base if x[0] is not a))
    eqs = [a for a, _ in base if a.head == 'eq']
    for a in eqs:
        for b in negs:
            d = b.args[0] - a.args[0]
            s = b.args[0] + a.args[0]
            if prove_nonneg(d) or prove_nonneg(s):
                return ZERO
    return Poly({base: F1})


PINNED = set()


def orient(p):
    """Solve p == 0 for one of its atoms: (atom, expression) or None."""
    best = None
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            continue
        x = m[0][0]
        if x.boolean or x.head == 'unk':
            continue
        ok = True
        for m2 in p.t:
            if m2 is m:
                continue
            for a, _ in m2:
                if x in deps(a):
                    ok = False
                    break
            if not ok:
                break
        if not ok:
            continue
        k = (1 if (x.head == 'sym' and x.akey == '_') else 0, x.rank, x.akey, x.key)
        if best is None or k > best[0]:
            best = (k, x, c, m)
    if best is None:
        return None
    _, x, c, m = best
    rest = Poly({k: v for k, v in p.t.items() if k != m})
    return x, (-rest if c == 1 else rest)


# ---------------------------------------------------------------- division
def inverse(p):
    if not p.t:
        raise Undecided('division by zero')
    s = p.single()
    if s:
        c, m = s
        r = Poly({(): 1 / c})
        for a, e in m:
            if a.head == 'sqrt':
                # 1/sqrt(q) = sqrt(q)/q
                r = r * Poly.of(a) ** e * inverse(a.args[0]) ** e
            elif a.head == 'I':
                r = r * (Poly.of(a) * -1) ** e
            elif a.head == 'V' and e < 0:
                r = r * a.args[0] ** (-e)
            else:
                r = r * Poly({((a, -e),): F1})
        return r
    # primitive polynomial part as a value-numbered denominator
    # clear negative exponents first so that equal denominators meet
    return vinv(p)


def content_normal(p):
    """p = c * mono * q with q primitive, monic in its key order, free of
    negative exponents."""
    mins = {}
    allm = list(p.t)
    atoms_ = set()
    for m in allm:
        atoms_ |= {a for a, _ in m}
    for a in atoms_:
        if a.boolean or a.head in ('sqrt', 'I'):
            continue
        lo = None
        for m in allm:
            e = dict(m).get(a, 0)
            lo = e if lo is None else min(lo, e)
        if lo:
            mins[a] = lo
    if mins:
        corr = tuple(sorted(((a, -e) for a, e in mins.items()), key=_mk))
        q = p * Poly({corr: F1})
        mono = Poly({tuple(sorted(mins.items(), key=_mk)): F1})
    else:
        q = p
        mono = ONE
    lead = min(q.t, key=lambda m: tuple((a.key, e) for a, e in m))
    c = q.t[lead]
    if c != 1:
        q = Poly({m: v / c for m, v in q.t.items()})
    return c, mono, q


def vinv(p):
    c, mono, q = content_normal(p)
    if len(q.t) == 1:
        return inverse(mono) * inverse(q) * (1 / c)
    v = atom('V', q)
    return inverse(mono) * Poly({((v, -1),): 1 / c})


def clear(p):
    """Multiply away denominators V(q); returns polynomial without V atoms."""
    for _ in range(20):
        den = {}
        for m in p.t:
            for a, e in m:
                if a.head == 'V' and e < 0:
                    den[a] = min(den.get(a, 0), e)
        if not den:
            return p
        acc = ZERO
        # multiply by q^k: handle each monomial separately
        for m, c in p.t.items():
            d = dict(m)
            f = ONE
            for a, k in den.items():
                e = d.pop(a, 0)
                f = f * (a.args[0] ** (e - k))
            acc = acc + Poly({tuple(sorted(d.items(), key=_mk)): c}) * f
        p = acc
    return p


def same(a, b):
    """Equality of rational expressions (exact)."""
    if a.t == b.t:
        return True
    d = a - b
    if not d.t:
        return True
    if any(x.head == 'V' for m in d.t for x, _ in m):
        d = clear(d)
        if not d.t:
            return True
    return cancels(d)


UNFOLD = {}      # head -> definition of the atom (contracts of the analysed routines)


def unfold(p):
    """Replace the named quantities of the contracts by their definitions."""
    for _ in range(4):
        mp = {}
        for a in pdeps(p):
            f = UNFOLD.get(a.head)
            if f is not None:
                r = f(a)
                if r is not None:
                    mp[a] = r
        if not mp:
            return p
        p = subst(p, mp)
    return p


def unshift(p):
    """Sums over all but the first terms as full sums minus those terms."""
    mp = {}
    for m in p.t:
        for a, _ in m:
            if a.head != 'sum' or len(a.args[1]) != 1:
                continue
            c = -a.args[1][0].t.get((), 0)
            if c <= 0 or c > 8 or c.denominator != 1:
                continue
            (v,), b = open_sum(a)
            w = fresh('s', hi=a.args[1][0] + c)
            r = mk_sum([w], subst(b, {v: Poly.of(w) - c}))
            for k in range(int(c)):
                r = r - subst(b, {v: P(k - c)})
            mp[a] = r
    return subst(p, mp) if mp else p


def cancels(d):
    """Do the sums over equal ranges in d cancel as rational functions?"""
    groups = {}
    for m, c in d.t.items():
        ss = [(a, e) for a, e in m if a.head == 'sum']
        if len(ss) != 1 or ss[0][1] != 1:
            return False
        a = ss[0][0]
        rest = tuple(x for x in m if x[0] is not a)
        groups.setdefault((rest, tuple(h.key for h in a.args[1]) if len(a.args[1]) == 1 else a.args), []).append((a, c))
    for g in groups.values():
        if len(g) < 2:
            return False
        vs, b = open_sum(g[0][0])
        tot = b * g[0][1]
        for a, c in g[1:]:
            base, his, body = a.args
            tot = tot + subst(body, {bvatom(base + i): Poly.of(v) for i, v in enumerate(vs)}) * c
        if clear(tot).t:
            return False
    return True


# ------------------------------------------------------------ substitution
def subst(p, mp):
    if not p.t or not mp:
        return p
    keys = mp.keys()
    if all(k.head == 'sym' for k in keys):
        if p.fv.isdisjoint(keys):
            return p
    acc = {}
    for m, c in p.t.items():
        touched = None
        for a, e in m:
            if hits(a, mp):
                touched = True
                break
        if not touched:
            v = acc.get(m, F0) + c
            if v:
                acc[m] = v
            else:
                acc.pop(m, None)
            continue
        keep = []
        f = ONE
        zero = False
        for a, e in m:
            if hits(a, mp):
                r = subst_atom(a, mp)
                f = f * (r ** e)
                if not f.t:
                    zero = True
                    break
            else:
                keep.append((a, e))
        if zero:
            continue
        if keep:
            f = Poly({tuple(keep): F1}) * f
        for mm, cc in f.t.items():
            v = acc.get(mm, F0) + c * cc
            if v:
                acc[mm] = v
            else:
                acc.pop(mm, None)
    return Poly(acc)


def hits(a, mp):
    for k in mp:
        if k.head == 'sym':
            if k in a.fv:
                return True
        elif k in deps(a):
            return True
    return False


def subst_arg(x, mp):
    if isinstance(x, Poly):
        return subst(x, mp)
    if isinstance(x, tuple):
        return tuple(subst_arg(y, mp) for y in x)
    if isinstance(x, Atom):
        r = subst_atom(x, mp).as_atom()
        if r is None:
            raise Undecided('substitution in binder')
        return r
    return x


SUBST_CACHE = {}


def subst_atom(a, mp):
    if a in mp:
        return mp[a]
    if not hits(a, mp):
        return Poly.of(a)
    ck = (a, tuple(sorted((k.key, v.key) for k, v in mp.items())))
    r = SUBST_CACHE.get(ck)
    if r is None:
        args = tuple(subst_arg(x, mp) for x in a.args)
        r = rebuild(a, args)
        SUBST_CACHE[ck] = r
    return r


def rebuild(a, args):
    h = a.head
    if h == 'eq':
        return eq0(args[0])
    if h == 'neg':
        return neg(args[0])
    if h == 'sqrt':
        return sqrt(args[0])
    if h == 'V':
        return args[0]
    if h == 'sel':
        return sel(args[0], args[1])
    if h == 'fdiv':
        return fdiv(args[0], args[1])
    if h == 'trunc':
        return trunc(args[0])
    if h == 'in':
        return READERS.get(args[0], default_reader)(a, args)
    if h == 'sum':
        return reopen_sum(args)
    if h == 'exists':
        return reopen_exists(args)
    if h == 'abs':
        return absv(args[0])
    if h in FN_BUILD:
        return FN_BUILD[h](*args)
    if h == 'pre':
        return PRE_READ[0](a, args)
    return Poly.of(atom(h, *args, integer=a.integer, lo=a.lo, hi=a.hi, boolean=a.boolean))


READERS = {}
FN_BUILD = {'f:max': lambda *args: fmax(args)}
PRE_READ = [lambda a, args: Poly.of(atom('pre', *args, integer=a.integer, lo=a.lo, hi=a.hi))]


def default_reader(a, args):
    return Poly.of(atom('in', *args, integer=a.integer, lo=a.lo, hi=a.hi, boolean=a.boolean))


# -------------------------------------------------------------- predicates
def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not a.integer or e < 0:
                return False
    return True


def is_bool01(p):
    """Syntactically a 0/1 polynomial over boolean atoms?"""
    for m in p.t:
        for a, e in m:
            if not a.boolean:
                return False
    return True


def bool_atoms(p):
    s = []
    for m in p.t:
        for a, _ in m:
            if not a.boolean:
                return None
            if a not in s:
                s.append(a)
    return s


def nonneg_atom(a):
    if a.boolean or a.head in ('sqrt', 'abs'):
        return True
    return a.lo is not None and prove_nonneg(a.lo)


_pn_depth = [0]
PN_CACHE = {}


def prove_nonneg(p, depth=0):
    """Sound (incomplete) proof that p >= 0 by interval substitution."""
    if p.is_const():
        return p.const() >= 0
    if depth > 8:
        return False
    k = (p.key)
    r = PN_CACHE.get(k)
    if r is not None:
        return r
    if _pn_depth[0]:
        _pn_depth[0] -= 1
        if _pn_depth[0] <= 1:
            _pn_depth[0] = 1
            return False
        r = _prove_nonneg(p, depth)
        if depth == 0 and _pn_depth[0] > 1:
            PN_CACHE[k] = r
        return r
    _pn_depth[0] = PN_WORK
    try:
        r = _prove_nonneg(p, depth)
    finally:
        _pn_depth[0] = 0
    PN_CACHE[k] = r
    return r


PN_WORK = 3000


def _prove_nonneg(p, depth):
    # candidates to eliminate: latest (innermost) first
    cands = []
    for m in p.t:
        for a, e in m:
            if e < 0:
                return False
            if a not in cands:
                cands.append(a)
    cands.sort(key=lambda a: (-(1 if a.akey == '_' else 0), -a.rank, a.key))
    # all coefficients non-negative and all atoms non-negative
    if all(c >= 0 for c in p.t.values()) and all(
            nonneg_atom(a) or e % 2 == 0 for m in p.t for a, e in m):
        return True
    for x in cands:
        # p = x*A + B with A sign-definite
        A = {}
        B = {}
        ok = True
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(x, 0)
            if e == 0:
                if any(x in deps(a) for a in d):
                    ok = False
                    break
                B[m] = c
            elif e == 1:
                A[tuple(sorted(d.items(), key=_mk))] = c
            else:
                ok = False
                break
        if not ok:
            continue
        A = Poly(A)
        B = Poly(B)
        lo = ZERO if x.boolean else x.lo
        hi = P(2) if x.boolean else x.hi
        if lo is None and x.head in ('sqrt', 'abs'):
            lo = ZERO
        if lo is not None and prove_nonneg(A, depth + 1):
            if prove_nonneg(lo * A + B, depth + 1):
                return True
        if hi is not None and (x.integer) and prove_nonneg(-A, depth + 1):
            if prove_nonneg((hi - 1) * A + B, depth + 1):
                return True
    return False


def pos_content(p):
    """Common monomial factor of p over positive atoms: (m, p/m)."""
    if not POSITIVE or len(p.t) == 0:
        return None
    com = None
    for m in p.t:
        d = {a: e for a, e in m if a in POSITIVE}
        if com is None:
            com = d
        else:
            com = {a: min(e, d[a]) if e > 0 else max(e, d[a]) for a, e in com.items()
                   if a in d and d[a] * e > 0}
        if not com:
            return None
    inv = tuple(sorted(((a, -e) for a, e in com.items()), key=_mk))
    return com, p * Poly({inv: F1})


def canon_sign(p):
    """Scale p to a primitive form with canonical leading sign; returns
    (q, sign) with p = positive * sign * q."""
    lead = min(p.t, key=lambda m: (len(m) == 0, sorted((a.akey, e) for a, e in m), sorted(a.key for a, _ in m)))
    c = p.t[lead]
    if is_int(p):
        from math import gcd
        g = 0
        for v in p.t.values():
            g = gcd(g, abs(int(v)))
        s = 1 if c > 0 else -1
        return Poly({m: v / (g * s) for m, v in p.t.items()}), s
    s = 1 if c > 0 else -1
    return Poly({m: v / abs(c) * s for m, v in p.t.items()}), s


def bool_expand(p, test):
    """[test(p)] for p over boolean atoms only, by case split on them."""
    bs = bool_atoms(p)
    if bs is None or len(bs) > 5:
        return None
    out = ZERO
    n = len(bs)
    for k in range(1 << n):
        v = F0
        env = {b: (k >> i) & 1 for i, b in enumerate(bs)}
        for m, c in p.t.items():
            ok = 1
            for a, _ in m:
                ok &= env[a]
            if ok:
                v += c
        if test(v):
            term = ONE
            for b in bs:
                term = term * (Poly.of(b) if env[b] else ONE - Poly.of(b))
            out = out + term
    return out


def gate_split(p, f):
    """f(p) by case split on the boolean atoms of p (few, non-integer p)."""
    bs = []
    other = mixed = False
    for m in p.t:
        k = 0
        for a, _ in m:
            if a.boolean:
                if a not in bs:
                    bs.append(a)
                k |= 1
            else:
                other = True
                k |= 2
        mixed = mixed or k == 3
    if not bs or not other or len(bs) > 4 or not mixed and is_int(p):
        return None
    out = ZERO
    for k in range(1 << len(bs)):
        env = {b: (k >> i) & 1 for i, b in enumerate(bs)}
        t = {}
        for m, c in p.t.items():
            if all(env.get(a, 1) for a, _ in m):
                r = tuple(x for x in m if x[0] not in env)
                t[r] = t.get(r, F0) + c
        lit = ONE
        for b in bs:
            lit = lit * (Poly.of(b) if env[b] else ONE - Poly.of(b))
        out = out + lit * f(Poly({m: c for m, c in t.items() if c}))
    return out


def fmax(args):
    """Largest of some (not all integer) terms."""
    flat = []
    for a in args:
        at = a.as_atom()
        for x in (at.args if at is not None and at.head == 'f:max' else (a,)):
            if x not in flat:
                flat.append(x)
    keep = []
    for i, x in enumerate(flat):
        if not any((prove_nonneg(y - x) and (j < i or not prove_nonneg(x - y))) for j, y in enumerate(flat) if j != i):
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda x: x.key)
    tops = [x.as_atom().args for x in keep if x.as_atom() is not None and x.as_atom().head == 'max']
    span = any((-x).as_atom() is not None and (-x).as_atom().head == 'min' and (-x).as_atom().args in tops for x in keep)
    return Poly.of(atom('f:max', *keep, lo=ZERO if span or any(prove_nonneg(x) for x in keep) else None))


def const_sign(p):
    """Sign of a sum of square roots of numbers, when clearly not zero."""
    v = 0.0
    tot = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            if a.head != 'sqrt' or not a.args[0].is_const():
                return None
            x *= float(a.args[0].const()) ** (e / 2)
        v += x
        tot += abs(x)
    if abs(v) > 1e-11 * tot:
        return 1 if v > 0 else -1
    return None


def eq0(p):
    """[p == 0]"""
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    if const_sign(p) is not None:
        return ZERO
    if has_unknown(p):
        return Poly.of(atom('eq', p, boolean=True))
    if POSITIVE and not is_int(p):
        pc = pos_content(p)
        if pc is not None:
            return eq0(pc[1])
    r = bool_expand(p, lambda v: v == 0)
    if r is not None:
        return r
    r = gate_split(p, eq0)
    if r is not None:
        return r
    s = p.single()
    if s and len(s[1]) == 1 and s[1][0][0].head == 'abs' and s[1][0][1] > 0:
        return eq0(s[1][0][0].args[0])
    if s and len(s[1]) == 1 and s[1][0][0].head == 'f:max' and s[1][0][1] > 0 and \
            all(prove_nonneg(x) for x in s[1][0][0].args):
        r = ONE
        for x in s[1][0][0].args:
            r = r * eq0(x)
        return r
    if s and any(a.head == 'V' or e < 0 for a, e in s[1]):
        # c * m / V == 0  <=>  m == 0
        m = tuple((a, e) for a, e in s[1] if e > 0)
        return eq0(Poly({m: F1}))
    if any(a.head == 'V' for m in p.t for a, _ in m):
        p = clear(p)
        if p.is_const():
            return ONE if p.const() == 0 else ZERO
    if is_int(p) or all(c.denominator == 1 for c in p.t.values()):
        if prove_nonneg(p - 1) or prove_nonneg(-p - 1):
            return ZERO
    elif prove_pos(p) or prove_pos(-p):
        return ZERO
    r = eq0_nonneg(p)
    if r is not None:
        return r
    if is_int(p):
        # parity style impossibility: gcd of coefficients does not divide const
        from math import gcd
        g = 0
        for m, v in p.t.items():
            if m:
                g = gcd(g, abs(int(v)))
        c0 = p.t.get((), F0)
        if g > 1 and int(c0) % g:
            return ZERO
        for q in RADIX:
            a, r = divide(p, q)
            if a.t and (r.t or len(p.t) > 1) and prove_nonneg(q - 1 - r) and prove_nonneg(q - 1 + r):
                if a == p:
                    continue
                return eq0(a) * eq0(r)
    q, _ = canon_sign(p)
    return Poly.of(atom('eq', q, boolean=True))


def eq0_nonneg(p):
    """[p == 0] for sums of terms of one sign: every term vanishes."""
    if not any(a.head == 'sum' for m in p.t for a, _ in m):
        return None
    sg = {c > 0 for c in p.t.values()}
    if len(sg) != 1:
        return None
    ms = [Poly({m: F1}) for m in p.t]
    if not all(prove_nonneg(x) for x in ms):
        return None
    out = ONE
    for x in ms:
        s = x.single()
        if len(s[1]) == 1 and s[1][0][0].head == 'sum':
            vs, b = open_sum(s[1][0][0])
            if not (prove_nonneg(b) or is_bool01(b)):
                return None
            out = out * (ONE - exists(vs, ONE - eq0(b)))
        elif len(ms) == 1 and len(s[1]) == 1:
            return None
        else:
            for a, _ in s[1]:
                if not prove_nonneg(Poly.of(a)):
                    return None
            z = ONE
            for a, _ in s[1]:
                z = z * (ONE - eq0(Poly.of(a)))
            out = out * (ONE - z)
    return out


def prove_pos(p):
    if p.is_const():
        return p.const() > 0
    c = p.t.get((), F0)
    if c > 0:
        return prove_nonneg(p - c)
    s = p.single()
    if s and s[0] > 0:
        return all(positive_atom(a) for a, _ in s[1])
    return False


POSITIVE = set()


def positive_atom(a):
    return a in POSITIVE or (a.lo is not None and prove_nonneg(a.lo - 1))


def neg(p):
    """[p < 0]"""
    if p.is_const():
        return ONE if p.const() < 0 else ZERO
    sg = const_sign(p)
    if sg is not None:
        return ONE if sg < 0 else ZERO
    if POSITIVE and not is_int(p):
        pc = pos_content(p)
        if pc is not None:
            return neg(pc[1])
    r = bool_expand(p, lambda v: v < 0)
    if r is not None:
        return r
    r = gate_split(p, neg)
    if r is not None:
        return r
    den = {}
    for m in p.t:
        for a, e in m:
            if e < 0 and a.head in ('f:max', 'abs', 'sqrt'):
                den[a] = max(den.get(a, 0), -e)
    if den:
        f = ONE
        for a, e in den.items():
            f = f * Poly.of(a) ** e
        return neg(p * f)
    if prove_nonneg(p):
        return ZERO
    if is_int(p):
        if prove_nonneg(-p - 1):
            return ONE
        if prove_nonneg(p + 1):      # p >= -1, so p < 0 iff p == -1
            return eq0(p + 1)
    elif prove_pos(-p):
        return ONE
    if prove_nonneg(-p) and any(a.head == 'sum' for m in p.t for a, _ in m):
        return ONE - eq0(p)
    q, s = canon_sign(p)
    if is_int(p):
        # canonical: use q < 0 ; for s = -1: q > 0 <=> not (q - 1 < 0)
        if s > 0:
            return _neg_atom(q, p, s)
        # p = -g q  < 0  <=>  q > 0 <=> q >= 1 <=> not(q - 1 < 0)
        r = q - 1
        q2, s2 = canon_sign(r)
        if s2 > 0 and q2 == r:
            return ONE - _neg_atom(r, r, 1)
        return Poly.of(atom('neg', -q, boolean=True))
    if s > 0:
        return Poly.of(atom('neg', q, boolean=True))
    if prove_nonneg(q):
        return ONE - eq0(q)
    return ONE - Poly.of(atom('neg', q, boolean=True)) - eq0(q)


def _neg_atom(q, p, s):
    return Poly.of(atom('neg', q, boolean=True))


def lt(a, b):
    return neg(P(a) - P(b))


def le(a, b):
    return ONE - neg(P(b) - P(a))


def eq(a, b):
    return eq0(P(a) - P(b))


def b_not(c):
    return ONE - c


def b_and(a, b):
    return a * b


def b_or(a, b):
    return a + b - a * b


def truth(p):
    """bool(p) of a number"""
    if is_bool01(p) and all(c.denominator == 1 for c in p.t.values()):
        bs = bool_atoms(p)
        if p.is_const():
            return ONE if p.const() != 0 else ZERO
        if len(bs) <= 5:
            return ONE - eq0(p)
        return p
    return ONE - eq0(p)


def ite(c, a, b):
    if c.is_const():
        return a if c.const() != 0 else b
    if a == b:
        return a
    return c * a + (ONE - c) * b


# ---------------------------------------------------------------- functions
def has_unknown(p):
    for m in p.t:
        for a, _ in m:
            if atom_unknown(a):
                return True
    return False


_unk = {}


def atom_unknown(a):
    r = _unk.get(a)
    if r is None:
        r = a.head == 'unk' or any(atom_unknown(x) for x in _walk(a.args))
        _unk[a] = r
    return r


def unknown_reasons(p, out=None):
    out = set() if out is None else out
    for m in p.t:
        for a, _ in m:
            for d in deps(a):
                if d.head == 'unk':
                    out.add(str(d.args[0]))
    return out


def unknown(reason):
    _fresh[0] += 1
    return Poly.of(atom('unk', '%s' % reason, _fresh[0]))


def _sqfree(n):
    s, r = 1, n
    d = 2
    while d * d <= r:
        while r % (d * d) == 0:
            r //= d * d
            s *= d
        d += 1
        if d > 2000:
            break
    return s, r


def sqrt(p):
    if p.is_const():
        c = p.const()
        if c == 0:
            return ZERO
        if c > 0:
            n = c.numerator * c.denominator
            s, r = _sqfree(n)
            k = Fraction(s, c.denominator)
            if r == 1:
                return P(k)
            return Poly({((atom('sqrt', P(r)), 1),): k})
        return fn('sqrtneg', p)
    # common square of constants out
    from math import gcd
    den = 1
    for v in p.t.values():
        den = den * v.denominator // gcd(den, v.denominator)
    num = 0
    for v in p.t.values():
        num = gcd(num, abs(int(v * den)))
    n = num * den
    s, r = _sqfree(n)
    k = Fraction(s, den)           # sqrt(num/den) = s*sqrt(r)/den
    q = p * Fraction(den, num) * r
    if q == ONE:
        return P(k)
    if len(q.t) > 1 and POSITIVE:
        pc = pos_content(q)
        if pc is not None:
            ev = {a: e - e % 2 if e > 0 else e + (-e) % 2 for a, e in pc[0].items()}
            ev = {a: e for a, e in ev.items() if e}
            if ev:
                half = Poly({tuple(sorted(((a, e // 2) for a, e in ev.items()), key=_mk)): F1})
                rest = q * Poly({tuple(sorted(((a, -e) for a, e in ev.items()), key=_mk)): F1})
                return half * sqrt(rest) * k
    sg = q.single()
    if sg and sg[0] > 0 and len(sg[1]) >= 1:
        # sqrt of monomial with even exponents of non-negative atoms
        out = P(1)
        rest = []
        for a, e in sg[1]:
            if e % 2 == 0 and (nonneg_atom(a) or a in POSITIVE):
                out = out * Poly({((a, e // 2),): F1})
            else:
                rest.append((a, e))
        if not rest:
            return out * k * sqrt(P(sg[0]))
        if out != ONE:
            return out * k * sqrt(Poly({tuple(rest): sg[0]}))
        if len(rest) == 1 and rest[0][1] == 2:
            return absv(Poly.of(rest[0][0])) * k * sqrt(P(sg[0]))
    return Poly({((vn_atom('sqrt', q), 1),): k})


VN = {}


def vn_atom(head, *args, **kw):
    """Value numbering: reuse an atom whose arguments are equal as rational
    expressions even when written differently."""
    lst = VN.setdefault((head, len(args)), [])
    if any(isinstance(x, Poly) and any(a.head == 'V' for m in x.t for a, _ in m)
           for x in args) or lst and False:
        for other in lst:
            if all((isinstance(x, Poly) and isinstance(y, Poly) and same(x, y)) or
                   (not isinstance(x, Poly) and x == y)
                   for x, y in zip(args, other.args)):
                return other
    at = atom(head, *args, **kw)
    if at not in lst:
        lst.append(at)
    return at


def absv(p):
    if p.is_const():
        return P(abs(p.const()))
    if prove_nonneg(p):
        return p
    if prove_nonneg(-p):
        return -p
    r = gate_split(p, absv)
    if r is not None:
        return r
    if len(p.t) > 1 and POSITIVE:
        pc = pos_content(p)
        if pc is not None:
            return absv(pc[1]) * Poly({tuple(sorted(pc[0].items(), key=_mk)): F1})
    q, s = canon_sign(p)
    c = p.t[next(iter(p.t))] / q.t[next(iter(q.t))]
    if q.single() and q.as_atom() is None:
        # |a*b| = |a||b|
        out = P(abs(c))
        for a, e in q.single()[1]:
            b = Poly.of(a) if nonneg_atom(a) or a in POSITIVE else Poly.of(atom('abs', Poly.of(a)))
            out = out * b ** e
        return out
    at = q.as_atom()
    if at is not None and at in POSITIVE:
        return q * abs(c)
    return Poly.of(atom('abs', q)) * abs(c)


def trunc(p):
    if p.is_const():
        c = p.const()
        return P(int(c))
    if is_int(p):
        return p
    return Poly.of(atom('trunc', p, integer=True, lo=trunc_lo(p)))


def trunc_lo(p):
    a = p.as_atom()
    if a is not None and a.lo is not None:
        return a.lo
    return None


def fdiv(p, q):
    p, q = P(p), P(q)
    if q == ONE:
        if is_int(p):
            return p
    if p.is_const() and q.is_const():
        return P(p.const() // q.const())
    if not is_int(p) or not is_int(q):
        return Poly.of(atom('fdiv', p, q))
    # p = q*a + r
    a, r = divide(p, q)
    if prove_nonneg(r) and prove_nonneg(q - 1 - r):
        return a
    if r.is_const() and q.is_const():
        return a + P(r.const() // q.const())
    lo = ZERO if prove_nonneg(r) and prove_nonneg(q - 1) else None
    return a + Poly.of(atom('fdiv', r, q, integer=True, lo=lo))


def divide(p, q):
    """p = q*a + r, taking into a the multiples of the leading monomial of q
    (long division, always exact over the integers)."""
    s = q.single()
    if s is None:
        # leading monomial: a unit-coefficient monomial of highest degree
        best = None
        for m, c in q.t.items():
            if not m or abs(c) != 1 or any(e < 0 for _, e in m):
                continue
            k = (sum(e for _, e in m), tuple(a.key for a, _ in m))
            if best is None or k > best[0]:
                best = (k, m, c)
        if best is None:
            return ZERO, p
        _, lm, lc = best
        a = ZERO
        r = p
        for _ in range(20):
            step = {}
            for m, c in r.t.items():
                d = dict(m)
                ok = True
                for at, e in lm:
                    if d.get(at, 0) < e:
                        ok = False
                        break
                    d[at] -= e
                    if d[at] == 0:
                        del d[at]
                if ok:
                    step[tuple(sorted(d.items(), key=_mk))] = c / lc
            if not step:
                break
            st = Poly(step)
            a = a + st
            r = r - st * q
        else:
            return ZERO, p
        return a, r
    qc, qm = s
    a = {}
    r = {}
    for m, c in p.t.items():
        d = dict(m)
        ok = True
        for at, e in qm:
            if d.get(at, 0) < e:
                ok = False
                break
            d[at] -= e
            if d[at] == 0:
                del d[at]
        if ok and (c / qc).denominator == 1:
            a[tuple(sorted(d.items(), key=_mk))] = c / qc
        elif ok and not qm and qc > 0:
            k = c // qc
            if k:
                a[m] = Fraction(k)
            if c - k * qc:
                r[m] = c - k * qc
        else:
            r[m] = c
    return Poly(a), Poly(r)


def mod(p, q):
    p, q = P(p), P(q)
    if p.is_const() and q.is_const():
        return P(p.const() % q.const())
    return p - q * fdiv(p, q)


def fn(name, *args, integer=False, lo=None, boolean=False):
    return Poly.of(vn_atom('f:' + name, *args, integer=integer, lo=lo, boolean=boolean))


def sel(entries, idx):
    """entries[idx] for a concrete tuple of polynomials."""
    k = idx.as_int()
    n = len(entries)
    if k is not None:
        if k < 0:
            k += n
        if not 0 <= k < n:
            raise Undecided('index %d out of range %d' % (k, n))
        return entries[k]
    e0 = entries[0]
    if all(e == e0 for e in entries):
        return e0
    d = entries[1] - e0
    if d.is_const() and all((entries[i] - e0) == d * i for i in range(2, n)):
        return e0 + idx * d
    r = run_of_input(entries, idx)
    if r is not None:
        return r
    integer = all(is_int(e) for e in entries)
    lo = None
    if integer and all(e.is_const() for e in entries):
        lo = P(min(e.const() for e in entries))
        hi = P(max(e.const() for e in entries) + 1)
        return Poly.of(atom('sel', tuple(entries), idx, integer=True, lo=lo, hi=hi))
    return Poly.of(atom('sel', tuple(entries), idx, integer=integer))


def run_of_input(entries, idx):
    """Consecutive entries of one input: the entry at the index itself."""
    atoms = [e.as_atom() for e in entries]
    a = atoms[0]
    if any(x is None or x.head != 'in' or x.args[0] != a.args[0] or len(x.args) != 2 for x in atoms) or a.boolean:
        return None
    n = len(a.args[1])
    if any(len(x.args[1]) != n or not all(isinstance(q, Poly) for q in x.args[1]) for x in atoms):
        return None
    var = [q for q in range(n) if any(x.args[1][q] != a.args[1][q] for x in atoms)]
    if len(var) != 1:
        return None
    v = var[0]
    first = a.args[1][v]
    if first.as_int() is None or any(x.args[1][v] != first + k for k, x in enumerate(atoms)):
        return None
    return rebuild(a, (a.args[0], a.args[1][:v] + (first + idx,) + a.args[1][v + 1:]))


# --------------------------------------------------------------------- sums
def bvlevel(x):
    """1 + max level of the bound variables inside x (0 if none)."""
    if isinstance(x, Poly):
        return max((bvlevel(a) for m in x.t for a, _ in m), default=0)
    if isinstance(x, tuple):
        return max((bvlevel(a) for a in x), default=0)
    if isinstance(x, Atom):
        if x._lvl is None:
            if x.head == 'bv':
                x._lvl = x.args[0] + 1
            else:
                x._lvl = max((bvlevel(y) for y in x.args), default=0)
        return x._lvl
    return 0


def bvatom(level, hi_key=''):
    return atom('bv', level, integer=True, lo=ZERO)


EXPAND_LIMIT = 32


def mk_sum(vs, body):
    """Sum of ``body`` over the bound syms ``vs`` (each 0 <= v < v.hi).

    ``vs`` is ordered outer to inner (an inner bound may depend on an outer
    variable)."""
    if not body.t:
        return ZERO
    vs = [v for v in vs]
    if not vs:
        return body
    out = ZERO
    for m, c in body.t.items():
        out = out + _sum_mono(list(vs), m) * c
    return out


SUM_CACHE = {}


def _sum_mono(vs, m):
    ck = (tuple(v.key for v in vs), m)
    r = SUM_CACHE.get(ck)
    if r is None:
        r = _sum_mono_(vs, m)
        SUM_CACHE[ck] = r
    return r


MEMBER = None
RADIX = []


def change_vars(vs, m):
    """Rewrite enumerations (k-th selected position, flattened index, distinct
    elements of a bag) to the domains they enumerate: (new vs, body) or None."""
    ds = None
    for v in vs:
        if any(v in w.hi.fv for w in vs if w is not v):
            continue
        ds = set()
        for a, _ in m:
            if v in a.fv:
                ds |= deps(a)
        pv = Poly.of(v)
        for a in ds:
            if a.head == 'nth' and a.args[3] == pv:
                base, hi, body, _ = a.args
                x = fresh('x', hi=hi)
                cond = subst(body, {bvatom(base): Poly.of(x)})
                if not same(mk_sum([x], cond), v.hi):
                    continue
                i = fresh('p', hi=hi)
                ci = subst(body, {bvatom(base): Poly.of(i)})
                nb = subst(Poly({m: F1}), {a: Poly.of(i)})
                if v in nb.fv:
                    j = fresh('x', hi=Poly.of(i))
                    nb = subst(nb, {v: mk_sum([j], subst(body, {bvatom(base): Poly.of(j)}))})
                nvs = [i if w is v else w for w in vs]
                return nvs, nb * ci
            if a.head == 'fdiv' and a.args[0] == pv:
                q = a.args[1]
                n, r = divide(v.hi, q)
                if r.t:
                    continue
                u = fresh('u', hi=n)
                w2 = fresh('w', hi=q)
                nb = subst(Poly({m: F1}), {v: q * u + w2})
                nvs = []
                for w in vs:
                    nvs += [u, w2] if w is v else [w]
                return nvs, nb
    for i, (a, e) in enumerate(m):
        if a.head != 'eq':
            continue
        for v in vs:
            if v not in a.fv or any(v in w.hi.fv for w in vs if w is not v):
                continue
            pv = Poly.of(v)
            for mm, c in a.args[0].t.items():
                if len(mm) == 1 and mm[0][1] == 1 and abs(c) == 1 and \
                        mm[0][0].head == 'uelem' and mm[0][0].args[1] == pv:
                    u = mm[0][0]
                    if v.hi != Poly.of(atom('ucard', u.args[0], integer=True, lo=ZERO)):
                        continue
                    rest = Poly({k: x for k, x in a.args[0].t.items() if k != mm})
                    expr = -rest * (1 / c)
                    if v in expr.fv:
                        continue
                    rm = m[:i] + m[i + 1:]
                    nb = subst(Poly({rm: F1}) if rm else ONE, {u: expr})
                    if v in nb.fv:
                        continue
                    return [w for w in vs if w is not v], nb * MEMBER(u.args[0], expr)
    return None


def mixed_radix(vs, m, i, p):
    """[v + w*d == e] with 0 <= v < d determines both v and w."""
    for v in vs:
        if v not in p.fv or any(v in x.hi.fv for x in vs if x is not v):
            continue
        lin = linear_in(p, v)
        if lin is None or abs(lin[0]) != 1:
            continue
        c, rest = lin
        rest = rest * c
        d = v.hi
        if not d.fv.isdisjoint(vs) or not is_int(rest) or not prove_nonneg(d - 1):
            continue
        for w in vs:
            if w is v or w not in rest.fv or any(w in x.hi.fv for x in vs if x is not w):
                continue
            A, B = {}, {}
            ok = True
            for mm, k in rest.t.items():
                q = dict(mm)
                e = q.pop(w, 0)
                if e == 1 and not any(w in deps(x) for x in q):
                    A[tuple(sorted(q.items(), key=_mk))] = k
                elif e or any(w in deps(x) for x in q):
                    ok = False
                    break
                else:
                    B[mm] = k
            if not ok or Poly(A) != d:
                continue
            e = -Poly(B)
            if not e.fv.isdisjoint((v, w)):
                continue
            qw = fdiv(e, d)
            rm = m[:i] + m[i + 1:]
            nb = subst(Poly({rm: F1}) if rm else ONE, {w: qw, v: e - qw * d})
            return [x for x in vs if x is not v and x is not w], nb * le(ZERO, qw) * lt(qw, w.hi)
    return None


def _sum_mono_(vs, m):
    cv = change_vars(vs, m)
    if cv is not None:
        return mk_sum(cv[0], cv[1])
    # 1. Kronecker deltas eliminate variables
    for i, (a, e) in enumerate(m):
        if a.head == 'eq':
            p = a.args[0]
            if len(vs) > 1:
                r = mixed_radix(vs, m, i, p)
                if r is not None:
                    return mk_sum(*r)
            for v in reversed(vs):
                if v not in p.fv:
                    continue
                lin = linear_in(p, v)
                if lin is None:
                    continue
                c, rest = lin
                if abs(c) != 1:
                    if c.denominator == 1 and is_int(rest):
                        q = -rest * (1 / c)
                        if not is_int(q):
                            continue
                    else:
                        continue
                expr = -rest * (1 / c)
                if any(w in expr.fv and v in w.hi.fv for w in vs if w is not v):
                    continue
                # a bound of v may depend on outer variables; inner variables
                # whose bound depends on v get it substituted
                rest_m = m[:i] + m[i + 1:]
                g = ONE
                if not is_int(expr):
                    g = g * eq(expr, trunc(expr))
                g = g * le(ZERO, expr) * lt(expr, v.hi)
                nb = subst(Poly({rest_m: F1}) if rest_m else ONE, {v: expr}) * g
                nvs = []
                ren = {}
                for w in vs:
                    if w is v:
                        continue
                    if v in w.hi.fv:
                        nw = fresh('s', hi=subst(w.hi, {v: expr}))
                        ren[w] = Poly.of(nw)
                        nvs.append(nw)
                    else:
                        nvs.append(w)
                if ren:
                    nb = subst(nb, ren)
                return mk_sum(nvs, nb)
    # 2. flatten nested sums
    for i, (a, e) in enumerate(m):
        if a.head == 'sum' and e == 1 and any(v in a.fv for v in vs):
            nvs, nbody = open_sum(a)
            rest_m = m[:i] + m[i + 1:]
            b = (Poly({rest_m: F1}) if rest_m else ONE) * nbody
            return mk_sum(vs + nvs, b)
    # 3. concrete small domains: expand
    for v in reversed(vs):
        n = v.hi.as_int()
        if n is not None:
            if n <= 0:
                return ZERO
            used = any(v in a.fv for a, _ in m)
            if not used and not any(v in w.hi.fv for w in vs if w is not v):
                r = [w for w in vs if w is not v]
                return mk_sum(r, Poly({m: F1})) * n if r else Poly({m: F1}) * n
            if n <= EXPAND_LIMIT:
                # the variable may bound inner ones
                out = ZERO
                for k in range(n):
                    mp = {v: P(k)}
                    nvs = []
                    ren = {}
                    for w in vs:
                        if w is v:
                            continue
                        if v in w.hi.fv:
                            nw = fresh('s', hi=subst(w.hi, mp))
                            ren[w] = Poly.of(nw)
                            nvs.append(nw)
                        else:
                            nvs.append(w)
                    b = subst(Poly({m: F1}), mp)
                    if ren:
                        b = subst(b, ren)
                    out = out + mk_sum(nvs, b)
                return out
    # 4. split into connected components
    vset = set(vs)
    dep = []
    indep = []
    for a, e in m:
        s = {v for v in vs if v in a.fv}
        if s:
            dep.append((a, e, s))
        else:
            indep.append((a, e))
    parent = {v: v for v in vs}

    def find(x):
        while parent[x] is not x:
            x = parent[x]
        return x
    for a, e, s in dep:
        s = list(s)
        for y in s[1:]:
            parent[find(y)] = find(s[0])
    for w in vs:
        for v in vs:
            if v is not w and v in w.hi.fv:
                parent[find(w)] = find(v)
    groups = {}
    for v in vs:
        groups.setdefault(find(v), []).append(v)
    out = Poly({tuple(indep): F1}) if indep else ONE
    for root, gv in groups.items():
        fac = [(a, e) for a, e, s in dep if find(next(iter(s))) is root]
        out = out * _sum_component(gv, fac)
    return out


def linear_in(p, v):
    """p = c*v + rest with constant c, v not in rest: (c, rest)."""
    c = None
    rest = {}
    for m, k in p.t.items():
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
            c = k
        else:
            for a, _ in m:
                if v in a.fv:
                    return None
            rest[m] = k
    if c is None:
        return None
    return c, Poly(rest)


def _sum_component(gv, fac):
    if not fac:
        if len(gv) == 1:
            v = gv[0]
            if v.hi.as_int() is not None:
                return P(max(0, v.hi.as_int()))
            if prove_nonneg(v.hi):
                return v.hi
    return _finish_sum(gv, fac)


def _finish_sum(gv, fac):
    body = Poly({tuple(sorted(fac, key=_mk)): F1}) if fac else ONE
    best = None
    orders = permutations(gv) if len(gv) <= 4 else [tuple(gv)]
    base = max([bvlevel(body)] + [bvlevel(v.hi) for v in gv])
    for o in orders:
        # bounds may only depend on earlier variables
        ok = True
        for i, v in enumerate(o):
            if any(w in v.hi.fv for w in o[i + 1:]) or v in v.hi.fv:
                ok = False
                break
        if not ok:
            continue
        mp = {v: Poly.of(bvatom(base + i)) for i, v in enumerate(o)}
        his = tuple(raw_subst(v.hi, mp) for v in o)
        b = raw_subst(body, mp)
        k = (tuple(h.key for h in his), b.key)
        if best is None or k < best[0]:
            best = (k, his, b)
    if best is None:
        raise Undecided('dependent sum bounds')
    _, his, b = best
    integer = is_int(body)
    lo = ZERO if integer and all(a.boolean or nonneg_atom(a) for a, _ in fac) else None
    at = atom('sum', base, his, b, integer=integer, lo=lo)
    return Poly.of(at)


def raw_subst(p, mp):
    """Rename symbols to bound-variable atoms without renormalising."""
    if p.fv.isdisjoint(mp.keys()):
        return p
    acc = {}
    for m, c in p.t.items():
        mm = tuple(sorted(((raw_atom(a, mp), e) for a, e in m), key=_mk))
        acc[mm] = acc.get(mm, F0) + c
    return Poly({m: c for m, c in acc.items() if c})


RAW_CACHE = {}


def raw_atom(a, mp):
    if a in mp:
        return mp[a].as_atom()
    if a.fv.isdisjoint(mp.keys()):
        return a
    ck = (a, tuple((k.key, v.key) for k, v in mp.items()))
    r = RAW_CACHE.get(ck)
    if r is None:
        r = atom(a.head, *tuple(raw_arg(x, mp) for x in a.args), integer=a.integer,
                 lo=None if a.lo is None else raw_subst(a.lo, mp),
                 hi=None if a.hi is None else raw_subst(a.hi, mp), boolean=a.boolean)
        if a in POSITIVE:
            POSITIVE.add(r)
        RAW_CACHE[ck] = r
    return r


def raw_arg(x, mp):
    if isinstance(x, Poly):
        return raw_subst(x, mp)
    if isinstance(x, tuple):
        return tuple(raw_arg(y, mp) for y in x)
    return x


def unbind(x, mp):
    """Replace bv atoms by polynomials, renormalising."""
    return subst(x, mp)


def open_sum(a):
    base, his, b = a.args
    mp = {}
    vs = []
    for i, h in enumerate(his):
        v = fresh('s', hi=subst(h, mp) if mp else h)
        vs.append(v)
        mp[bvatom(base + i)] = Poly.of(v)
    return vs, subst(b, mp)


def reopen_sum(args):
    base, his, b = args
    mp = {}
    vs = []
    for i, h in enumerate(his):
        v = fresh('s', hi=subst(h, mp) if mp else h)
        vs.append(v)
        mp[bvatom(base + i)] = Poly.of(v)
    return mk_sum(vs, subst(b, mp))


def exists(vs, cond):
    """[there are vs with cond]"""
    if not cond.t:
        return ZERO
    vs = list(vs)
    vs = [v for v in vs if v in cond.fv or not prove_nonneg(v.hi - 1)
          or any(v in w.hi.fv for w in vs)]
    if not vs:
        return cond
    # eliminate by equalities when the condition is one monomial
    s = cond.single()
    if s and s[0] == 1:
        m = s[1]
        cv = change_vars(vs, m)
        if cv is not None:
            return exists(cv[0], cv[1])
        for i, (a, e) in enumerate(m):
            if a.head != 'eq':
                continue
            for v in reversed(vs):
                if v not in a.args[0].fv:
                    continue
                lin = linear_in(a.args[0], v)
                if lin is None or abs(lin[0]) != 1:
                    continue
                if any(v in w.hi.fv for w in vs):
                    continue
                expr = -lin[1] * (1 / lin[0])
                g = le(ZERO, expr) * lt(expr, v.hi)
                rest = m[:i] + m[i + 1:]
                nb = subst(Poly({rest: F1}) if rest else ONE, {v: expr}) * g
                return exists([w for w in vs if w is not v], nb)
        indep = [(a, e) for a, e in m if not any(v in a.fv for v in vs)]
        if indep:
            dep = [(a, e) for a, e in m if any(v in a.fv for v in vs)]
            return Poly({tuple(indep): F1}) * exists(vs, Poly({tuple(dep): F1}) if dep else ONE)
    for v in vs:
        n = v.hi.as_int()
        if n is not None and n <= 4 and not any(v in w.hi.fv for w in vs if w is not v):
            rest = [w for w in vs if w is not v]
            out = ZERO
            for k in range(n):
                out = b_or(out, exists(rest, subst(cond, {v: P(k)})))
            return out
    if not s and len(cond.t) <= 15:
        low = [m for m, c in cond.t.items() if c == 1 and m and not any(x != m and set(x) < set(m) for x in cond.t)]
        if 2 <= len(low) <= 4:
            d = ZERO
            for m in low:
                d = b_or(d, Poly({m: F1}))
            if d.t == cond.t:
                out = ZERO
                for m in low:
                    out = b_or(out, exists(vs, Poly({m: F1})))
                return out
    best = None
    base = max([bvlevel(cond)] + [bvlevel(v.hi) for v in vs])
    for o in (permutations(vs) if len(vs) <= 4 else [tuple(vs)]):
        if any(any(w in v.hi.fv for w in o[i + 1:]) for i, v in enumerate(o)):
            continue
        mp = {v: Poly.of(bvatom(base + i)) for i, v in enumerate(o)}
        his = tuple(raw_subst(v.hi, mp) for v in o)
        b = raw_subst(cond, mp)
        k = (tuple(h.key for h in his), b.key)
        if best is None or k < best[0]:
            best = (k, his, b)
    return Poly.of(atom('exists', base, best[1], best[2], boolean=True))


def reopen_exists(args):
    base, his, b = args
    mp = {}
    vs = []
    for i, h in enumerate(his):
        v = fresh('s', hi=subst(h, mp) if mp else h)
        vs.append(v)
        mp[bvatom(base + i)] = Poly.of(v)
    return exists(vs, subst(b, mp))


I = Poly.of(atom('I'))


# ------------------------------------------------------------------- pretty
def pretty_atom(a, d=0):
    if d > 5:
        return '..'
    h = a.head
    if h == 'sym':
        return str(a.args[0])
    if h == 'bv':
        return '_%d' % a.args[0]
    if h == 'in':
        return '%s[%s]' % (a.args[0], ', '.join(pretty(x, d + 1) for x in a.args[1]))
    if h == 'eq':
        return '[%s == 0]' % pretty(a.args[0], d + 1)
    if h == 'neg':
        return '[%s < 0]' % pretty(a.args[0], d + 1)
    if h == 'V':
        return '(%s)' % pretty(a.args[0], d + 1)
    if h == 'sum':
        return 'SUM{%s}(%s)' % (','.join('_%d<%s' % (a.args[0] + i, pretty(x, d + 1))
                                         for i, x in enumerate(a.args[1])),
                                pretty(a.args[2], d + 1))
    if h == 'exists':
        return 'EXISTS{%s}(%s)' % (','.join('_%d<%s' % (a.args[0] + i, pretty(x, d + 1))
                                            for i, x in enumerate(a.args[1])),
                                   pretty(a.args[2], d + 1))
    if h == 'sel':
        return 'table(%s)[%s]' % (','.join(pretty(x, d + 2) for x in a.args[0][:4]),
                                  pretty(a.args[1], d + 1))

    def ar(x):
        if isinstance(x, Poly):
            return pretty(x, d + 1)
        if isinstance(x, Atom):
            return pretty_atom(x, d + 1)
        if isinstance(x, tuple):
            return '(' + ','.join(ar(y) for y in x[:6]) + (',..' if len(x) > 6 else '') + ')'
        return str(x)
    return '%s(%s)' % (h[2:] if h.startswith('f:') else h, ', '.join(ar(x) for x in a.args))


def _num(c):
    if c.denominator == 1:
        return str(c.numerator)
    if c.denominator > 10 ** 6 or abs(c.numerator) > 10 ** 9:
        return repr(float(c))
    return '%d/%d' % (c.numerator, c.denominator)


def pretty(p, d=0):
    if not p.t:
        return '0'
    parts = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), tuple(a.key for a, _ in x[0])))[:8]:
        f = '*'.join(pretty_atom(a, d + 1) + ('' if e == 1 else '^%d' % e) for a, e in m)
        if not f:
            parts.append(_num(c))
        elif c == 1:
            parts.append(f)
        elif c == -1:
            parts.append('-' + f)
        else:
            parts.append(_num(c) + '*' + f)
    if len(p.t) > 8:
        parts.append('...(%d terms)' % len(p.t))
    return ' + '.join(parts).replace('+ -', '- ')
