"""Valuations of terms.

Two terms whose normal forms differ are only reported as different when some
valuation of their atoms separates them.  A valuation assigns numbers to the
symbols and inputs and, by congruence, to the applications of uninterpreted
functions; arithmetic, gates, sums and the other binders keep their meaning.
No code of the analysed program takes part in this.
"""
import cmath
import math
import random
from hashlib import blake2b
from .terms import Poly, Atom, Undecided, POSITIVE, atom_unknown
from .values import ROWINJ


INTERP = {}


class Stop(Exception):
    pass


class Valuation:
    def __init__(self, seed=0, small=3, fixed=None, budget=400000):
        self.seed = seed
        self.small = small
        self.cache = {}
        self.fixed = fixed or {}
        self.budget = budget
        self.over = {}          # applications with a directed value
        self.share = 0.5
        self.big = 0.0          # largest number met in a sum
        self.noise = None       # rounding errors exaggerated
        self.flat = False       # some columns of the data constant
        self.special = ()       # values tried for the others
        self.rows = False       # the same special value for all entries of a row, for all strains of an element

    # ------------------------------------------------------------ hashing
    def rnd(self, *key):
        h = blake2b(repr((self.seed,) + key).encode(), digest_size=8).digest()
        return int.from_bytes(h, 'big') / 2.0 ** 64

    def q(self, v):
        if isinstance(v, (int, str)) or v is None:
            return v
        if isinstance(v, complex):
            return ('c', '%.7e' % v.real, '%.7e' % v.imag)
        if isinstance(v, float):
            if v == int(v) if math.isfinite(v) else False:
                return int(v)
            return '%.7e' % v
        if isinstance(v, tuple):
            return tuple(self.q(x) for x in v)
        return repr(v)

    # ----------------------------------------------------------- evaluation
    def ev(self, p, env):
        tot = 0
        for m, c in p.t.items():
            v = c.numerator if c.denominator == 1 else c.numerator / c.denominator
            for a, e in m:
                try:
                    x = self.at(a, env)
                except Stop:
                    # of no account under a guard that does not hold
                    if self.budget >= 0 and any(b.boolean and b is not a and self.vanishes(b, env) for b, _ in m):
                        v = 0
                        break
                    raise
                if e < 0:
                    if x == 0:
                        raise Stop('division by zero')
                    v = v * float(x) ** e if not isinstance(x, complex) else v * x ** e
                elif e == 1:
                    v = v * x
                else:
                    v = v * x ** e
                if not isinstance(v, complex) and v == 0:
                    break
            if not isinstance(v, int):
                if abs(v) > self.big and abs(v) != math.inf:
                    self.big = abs(v)
                if self.noise is not None:
                    v = v * (1 + 1e-15 * (2 * self.noise() - 1))
            tot = tot + v
        return tot

    def vanishes(self, b, env):
        try:
            return self.at(b, env) == 0
        except Stop:
            return False

    def arg(self, x, env):
        if isinstance(x, Poly):
            return self.ev(x, env)
        if isinstance(x, Atom):
            return self.at(x, env)
        if isinstance(x, tuple):
            return tuple(self.arg(y, env) for y in x)
        return x

    def at(self, a, env):
        closed = a._lvl == 0
        if not closed:
            from .terms import bvlevel
            closed = bvlevel(a) == 0
        if closed and a in self.cache:
            return self.cache[a]
        self.budget -= 1
        if self.budget < 0:
            raise Stop('budget')
        v = self._at(a, env)
        if closed:
            self.cache[a] = v
        return v

    def size(self, h, env):
        n = self.ev(h, env)
        if isinstance(n, float):
            n = int(math.ceil(n - 1e-9))
        return n

    def domain(self, base, his, env):
        def rec(i, e):
            if i == len(his):
                yield e
                return
            n = self.size(his[i], e)
            for k in range(n):
                e2 = dict(e)
                e2[base + i] = k
                yield from rec(i + 1, e2)
        return rec(0, env)

    def zero(self, v):
        if isinstance(v, int):
            return v == 0
        return abs(v) < 1e-9

    def _at(self, a, env):
        h = a.head
        if a in self.fixed:
            return self.fixed[a]
        if h in INTERP:
            return INTERP[h](self, a, env)
        if h == 'unk':
            raise Stop('unknown')
        if h == 'bv':
            if a.args[0] not in env:
                raise Stop('free bound variable')
            return env[a.args[0]]
        if h == 'I':
            return 1j
        if h == 'sum':
            base, his, b = a.args
            t = 0
            for e in self.domain(base, his, env):
                t = t + self.ev(b, e)
            return t
        if h == 'exists':
            base, his, b = a.args
            return int(any(not self.zero(self.ev(b, e)) for e in self.domain(base, his, env)))
        if h == 'nth':
            base, hi, b, k = a.args
            k = self.ev(k, env)
            sel = [i for i in range(self.size(hi, env)) if not self.zero(self.ev(b, {**env, base: i}))]
            if isinstance(k, int) and 0 <= k < len(sel):
                return sel[k]
            raise Stop('nth')
        if h in ('max', 'min', 'last', 'prod') and len(a.args) >= 3 and isinstance(a.args[2], tuple):
            base, his, bb = a.args[:3]
            vals = []
            for e in self.domain(base, his, env):
                if h == 'prod':
                    vals.append(self.ev(bb[0], e))
                elif not self.zero(self.ev(bb[0], e)):
                    vals.append(self.ev(bb[1], e))
            if h == 'prod':
                r = 1
                for x in vals:
                    r = r * x
                return r
            if not vals:
                if h == 'last':
                    return 0        # read only where something was written
                raise Stop('empty ' + h)
            return max(vals) if h == 'max' else min(vals) if h == 'min' else vals[-1]
        if h == 'lam':
            base, his, bb = a.args[:3]
            out = []
            for e in self.domain(base, his, env):
                out.append(tuple(self.ev(b, e) for b in bb))
                if len(out) > 4000:
                    raise Stop('large')
            return ('lam',) + tuple(out)
        if h == 'bag':
            base, his, (mem,) = a.args[:3]
            out = tuple(x for x in range(60) if not self.zero(self.ev(mem, {**env, base: x})))
            if out and out[-1] > 50:
                raise Stop('large')
            return out
        if h == 'ucard':
            return len(self.at(a.args[0], env))
        if h == 'uelem':
            s = self.at(a.args[0], env)
            k = self.ev(a.args[1], env)
            if isinstance(k, int) and 0 <= k < len(s):
                return s[k]
            raise Stop('uelem')
        if h == 'urank':
            s = self.at(a.args[0], env)
            k = self.ev(a.args[1], env)
            if k in s:
                return s.index(k)
            raise Stop('urank')
        if h == 'eq':
            return int(self.zero(self.ev(a.args[0], env)))
        if h == 'neg':
            v = self.ev(a.args[0], env)
            if isinstance(v, complex):
                raise Stop('order')
            return int(v < (0 if isinstance(v, int) else -1e-9))
        if h == 'V':
            return self.ev(a.args[0], env)
        if h == 'sqrt':
            v = self.ev(a.args[0], env)
            if isinstance(v, float) and abs(v) < 1e-6 and len(a.args[0].t) > 1 and \
                    abs(v) < 1e-13 * sum(abs(self.ev(Poly({m: c}), env)) for m, c in a.args[0].t.items()):
                return 0.0      # the rounding error of terms that cancel
            if isinstance(v, complex) or v < 0:
                if isinstance(v, float) and v > -1e-9:
                    return 0.0
                return cmath.sqrt(v)
            return math.sqrt(v)
        if h == 'abs':
            return abs(self.ev(a.args[0], env))
        if h == 'trunc':
            v = self.ev(a.args[0], env)
            if isinstance(v, complex):
                raise Stop('order')
            r = round(v)
            return r if abs(v - r) < 1e-9 else int(v)
        if h == 'wrap':
            # overflow of a machine of smaller word: unbounded values exceed any word
            v = self.ev(a.args[2], env)
            if isinstance(v, complex):
                raise Stop('order')
            lo = -3 if a.args[1] else 0
            return (int(v) - lo) % (3 - lo) + lo
        if h == 'short':
            v = self.ev(a.args[1], env)
            if isinstance(v, int) or isinstance(v, complex) or v == 0:
                return v
            return float('%.3g' % v)
        if h == 'fdiv':
            x, y = self.ev(a.args[0], env), self.ev(a.args[1], env)
            if y == 0:
                raise Stop('division by zero')
            return x // y
        if h == 'sel':
            k = self.ev(a.args[1], env)
            if isinstance(k, int) and 0 <= k < len(a.args[0]):
                return self.ev(a.args[0][k], env)
            raise Stop('table')
        if h.startswith('f:'):
            f = h[2:]
            if f in FUN1 and len(a.args) == 1:
                v = self.ev(a.args[0], env)
                try:
                    return FUN1[f](v)
                except (ValueError, OverflowError, TypeError):
                    raise Stop('domain')
            if f == 'max':
                vs = [self.ev(x, env) for x in a.args]
                if any(isinstance(x, complex) for x in vs):
                    raise Stop('order')
                return max(vs)
            if f == 'pi':
                return math.pi
            if f == 'inf' and not a.args:
                return math.inf
            if f == 'e':
                return math.e
            if f == 'conj':
                v = self.ev(a.args[0], env)
                return v.conjugate() if isinstance(v, complex) else v
            if f == 'real':
                v = self.ev(a.args[0], env)
                return v.real
            if f == 'imag':
                v = self.ev(a.args[0], env)
                return v.imag if isinstance(v, complex) else 0
            if f == 'arctan2':
                x, y = self.ev(a.args[0], env), self.ev(a.args[1], env)
                if isinstance(x, complex) or isinstance(y, complex):
                    raise Stop('order')
                return math.atan2(x, y)
            if f == 'round' and len(a.args) == 2:
                x, y = self.ev(a.args[0], env), self.ev(a.args[1], env)
                if isinstance(x, complex) or not isinstance(y, int) or x != x or abs(x) == math.inf:
                    raise Stop('round')
                return round(x, y)
            if f in ('and', 'or', 'xor') and len(a.args) == 2:
                x, y = self.ev(a.args[0], env), self.ev(a.args[1], env)
                if isinstance(x, int) and isinstance(y, int):
                    return x & y if f == 'and' else x | y if f == 'or' else x ^ y
            if f == 'pow':
                x, y = self.ev(a.args[0], env), self.ev(a.args[1], env)
                try:
                    return x ** y
                except (ZeroDivisionError, OverflowError):
                    raise Stop('domain')
        args = tuple(self.q(self.arg(x, env)) for x in a.args)
        return self.pick(a, (h,) + args, env)

    def keyof(self, a, env):
        return (a.head,) + tuple(self.q(self.arg(x, env)) for x in a.args)

    def group(self, key):
        t = key[-1]
        if not isinstance(t, tuple) or len(t) < 2:
            return key
        if key[0] == 'in':
            return key[:-1] + (t[:1],)
        while len(t) > 1 and isinstance(t[-1], int):
            t = t[:-1]
        return key[:-1] + (t,)

    def allowed(self, a, x, env):
        """Is x in the domain of atom a?"""
        if a.integer and not isinstance(x, int):
            if x != int(x):
                return None
            x = int(x)
        if a.lo is not None and x < self.ev(a.lo, env):
            return None
        if a.hi is not None and x >= self.ev(a.hi, env):
            return None
        if a in POSITIVE and x <= 0:
            return None
        return x

    def pick(self, a, key, env):
        if self.over and key in self.over:
            return self.over[key]
        if self.flat and a.head == 'in' and not a.boolean and a.args[0] not in ROWINJ and 'label' not in a.args[0] and \
                self.rnd('flat', key[1], key[2][1:]) < 0.5:
            key = key[:2] + (key[2][1:],)
        r = self.rnd(*key)
        sp = self.group(key) if self.rows else key
        if self.special and not a.boolean and a.head not in ('uelem', 'perm') and self.rnd('sp', *sp) < self.share:
            if not (a.integer and a.head == 'sym') and not (a.head == 'in' and a.args[0] in ROWINJ):
                k = int(self.rnd('which', *sp) * len(self.special))
                x = self.allowed(a, self.special[k], env)
                if x is not None:
                    return x
        if a.boolean:
            return int(r < 0.5)
        if a.head == 'sym' and a.args[0] == 'INFTY':
            return 60
        lo = self.ev(a.lo, env) if a.lo is not None else None
        if a.head == 'in' and a.args[0] in ROWINJ and a.hi is not None and len(key[2]) == 2:
            # the entries of one row are distinct
            row, col = key[2]
            n = self.size(a.hi, env)
            if not isinstance(col, int) or not 0 <= col < 200:
                raise Stop('column')
            if lo == -1 and (self.rnd('free', *key) < 0.3 or col >= n):
                return -1
            if col >= n:
                raise Stop('row of distinct entries')
            ranks = sorted(range(n), key=lambda k: self.rnd('row', a.args[0], row, k))
            for k, x in self.over.items():
                if k[:2] == key[:2] and len(k[2]) == 2 and k[2][0] == row and x == ranks[col]:
                    raise Stop('row of distinct entries')
            return ranks[col]
        if a.integer:
            l = int(math.ceil(lo)) if lo is not None else -2
            if a.hi is not None:
                n = self.size(a.hi, env) - l
                n = min(n, 60)
            else:
                n = self.small if lo is not None else 5
                if lo is not None and l == 0 and a.head == 'sym':
                    # sizes: avoid the degenerate empty case most of the time
                    n = self.small
                    r = 0.25 + 0.75 * r if self.rnd('nz', *key) < 0.8 else r
            if n <= 0:
                raise Stop('empty domain')
            return l + min(int(r * n), n - 1)
        if a in POSITIVE:
            return 0.3 + 1.7 * r
        if lo is not None:
            return lo + 0.1 + 1.7 * r
        v = -2 + 4 * r
        return v if abs(v) > 0.05 else 0.37


def _arc(f):
    def g(v):
        return f(v)
    return g


FUN1 = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log,
        'log10': math.log10, 'arctan': math.atan, 'arcsin': math.asin, 'arccos': math.acos,
        'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'floor': math.floor,
        'cabs': abs, 'round': round, 'cbrt': math.cbrt}


def close(a, b, big=0.0):
    """Equal up to rounding, which grows with the numbers that were added."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    m = max(abs(a), abs(b))
    if m == math.inf:
        return a == b
    return abs(a - b) <= max(1e-7 * m, 1e-9, 1e-12 * big)


def cancelled(v, d, s, x, y):
    """The difference of the two values is of the size of the rounding errors made on the way."""
    if isinstance(x, int) and isinstance(y, int):
        return False
    off = []
    for k in range(5):
        w = Valuation(seed=v.seed, small=v.small, fixed=v.fixed)
        for n in ('over', 'share', 'flat', 'special', 'rows'):
            setattr(w, n, getattr(v, n))
        w.noise = random.Random(k).random
        try:
            off.append(abs(w.ev(d, {}) - w.ev(s, {}) - (x - y)))
        except (Stop, OverflowError, ZeroDivisionError, RecursionError):
            off.append(0)
    return sorted(off)[2] > 0.1 * abs(x - y)


def separates(d, s, tries=24, fixed=None, assume=None, more=0):
    """A valuation under which terms d and s differ (or None)."""
    agreed = 0
    for k in range(tries):
        v = Valuation(seed=k + 1, small=2 + k % 3, fixed=fixed)
        try:
            if assume is not None:
                g = v.ev(assume, {})
                if not v.zero(g - 1):
                    continue
            x = v.ev(d, {})
            y = v.ev(s, {})
        except (Stop, OverflowError, ZeroDivisionError, RecursionError):
            continue
        if x != x or y != y:
            continue
        if not close(x, y, v.big):
            if cancelled(v, d, s, x, y):
                continue
            return v, x, y
        agreed += 1
    if agreed < 2:
        return False
    r = directed(d, s, fixed, assume)
    if r is None and more:
        r = sampled(d, s, fixed, assume, more)
    return r


def sampled(d, s, fixed, assume, seconds):
    """Further random valuations, for terms that differ on a small part of the data."""
    import time
    end = time.time() + seconds
    for k in range(24, 600):
        if time.time() > end:
            return None
        v = Valuation(seed=k + 1, small=2 + k % 3, fixed=fixed)
        v.flat = k % 3 == 1
        try:
            if assume is not None and not v.zero(v.ev(assume, {}) - 1):
                continue
            x, y = v.ev(d, {}), v.ev(s, {})
        except (Stop, OverflowError, ZeroDivisionError, RecursionError):
            continue
        if x == x and y == y and not close(x, y, v.big) and not cancelled(v, d, s, x, y):
            return v, x, y
    return None


def conditions(*ps):
    """Terms whose sign or vanishing decides a branch of the given terms."""
    from .terms import pdeps
    out = {}
    for p in ps:
        for a in pdeps(p):
            if a.head in ('eq', 'neg'):
                out.setdefault(a.args[0].key, a.args[0])
            elif a.head == 'f:max' and len(a.args) <= 4:
                for i in range(len(a.args)):
                    for j in range(i):
                        c = a.args[i] - a.args[j]
                        out.setdefault(c.key, c)
    return list(out.values())


LEAF = ('sym', 'in', 'uel', 'R')


def directed(d, s, fixed=None, assume=None, seconds=6):
    """Valuations that make the conditions of the branches of d and s true and false."""
    import time
    from .terms import pdeps, bvlevel
    end = time.time() + seconds
    cond = conditions(d, s)
    if not cond:
        return None

    def compare(v):
        try:
            if assume is not None and not v.zero(v.ev(assume, {}) - 1):
                return None
            x, y = v.ev(d, {}), v.ev(s, {})
        except (Stop, OverflowError, ZeroDivisionError, RecursionError):
            return None
        if x != x or y != y or close(x, y, v.big) or cancelled(v, d, s, x, y):
            return None
        return v, x, y

    # values at which comparisons with constants change
    spec = [0, 1, -1]
    for c in cond:
        c0 = c.t.get((), 0)
        for m, k in c.t.items():
            if m and c0:
                z = -float(c0) / float(k)
                for w in (z, -z):
                    spec.extend([w, 0.9 * w, 1.1 * w, 2 * w] if w != int(w) or abs(w) > 100 else
                                [int(w), int(w) + 1, int(w) - 1, 0.9 * w, 1.1 * w])
    seen = []
    for x in spec:
        if x not in seen:
            seen.append(x)
    seen = tuple(seen[:24])
    for k in range(30):
        if time.time() > end:
            return None
        v = Valuation(seed=1000 + k, small=2 + k % 3, fixed=fixed)
        v.rows = k >= 24
        v.special = (seen[:3], seen, (0,), (0.5 * (1 + k // 4),))[k % 4]
        v.share = (0.5, 0.5, 0.8 if k % 8 < 4 else 1, 0.8)[k % 4]
        r = compare(v)
        if r:
            return r
    # one leaf at a time moved to where a condition changes
    for c in cond[:24]:
        if any(bvlevel(a) for m in c.t for a, _ in m) and not closed(c, fixed):
            continue
        leaves = [a for a in sorted(pdeps(c), key=lambda a: a.key) if a.head in LEAF and not a.boolean
                  and bvlevel(a) == 0 and not (fixed and a in fixed)][:6]
        for seed in (1, 2):
            for a in leaves:
                if time.time() > end:
                    return None
                for x in crossings(c, a, seed, fixed):
                    v = Valuation(seed=seed, small=3, fixed=fixed)
                    try:
                        v.over[v.keyof(a, {})] = x
                    except (Stop, OverflowError, ZeroDivisionError, RecursionError):
                        continue
                    v.cache.clear()
                    r = compare(v)
                    if r:
                        return r
    return None


def closed(c, fixed):
    """c mentions bound variables only below their binders."""
    try:
        Valuation(seed=1, small=3, fixed=fixed, budget=100000).ev(c, {})
    except (KeyError, Stop, OverflowError, ZeroDivisionError, RecursionError):
        return False
    return True


def crossings(c, a, seed, fixed, depth=0, bare=False):
    """Values of leaf a on both sides of and at the changes of sign of c."""
    def f(x):
        v = Valuation(seed=seed, small=3, fixed=fixed, budget=100000)
        try:
            k = v.keyof(a, {})
            x = v.allowed(a, x, {})
            if x is None:
                return None
            v.cache.clear()
            v.over[k] = x
            y = v.ev(c, {})
        except (Stop, OverflowError, ZeroDivisionError, RecursionError):
            return None
        return None if isinstance(y, complex) or y != y else y

    out = []
    if a.integer:
        for x in range(-2, 9):
            y = f(x)
            if y is not None:
                out.append((y != 0, x))
        return [x for _, x in sorted(out)][:6]
    grid = [-3 + 0.37 * k for k in range(18)]
    inner = []
    if depth < 2:
        for m in c.t:
            for b, _ in m:
                if b.head in ('abs', 'sqrt', 'f:max'):
                    qs = list(b.args)
                    if b.head == 'f:max' and len(qs) <= 4:
                        qs += [x - y for i, x in enumerate(qs) for y in qs[:i]]
                    for q in qs:
                        inner += roots_of(q, a, seed, fixed, depth + 1)
    inner = sorted(set(inner))[:8]
    grid = sorted(grid + inner)
    vals = [(x, f(x)) for x in grid]
    vals = [(x, y) for x, y in vals if y is not None]
    roots = []
    mids = []
    for (x0, y0), (x1, y1) in zip(vals, vals[1:]):
        ends = [x for x in (x0, x1) if x in inner]
        if (y0 < 0) == (y1 < 0):
            continue
        for _ in range(60):
            m = (x0 + x1) / 2
            y = f(m)
            if y is None:
                break
            if (y < 0) == (y0 < 0):
                x0 = m
            else:
                x1 = m
        else:
            roots.append((x0 + x1) / 2)
            mids += [(x + roots[-1]) / 2 for x in ends]
    if bare:
        return roots + inner
    out += mids[:4]
    for z in roots[:3]:
        w = 0.02 * max(abs(z), 1e-4)
        if abs(z) < 1e-3:
            out += [0.7 * z, 1.3 * z]
        out += [z, z + w, z - w, z + 10 * w, z - 10 * w]
    return out


def roots_of(c, a, seed, fixed, depth):
    return [] if a.integer else crossings(c, a, seed, fixed, depth, True)


# ------------------------------------------------------- linear algebra atoms
def lin_entries(v, c, env):
    """Entries (row-major) and shape of a canonical array."""
    if not (isinstance(c, tuple) and c and c[0] == 'arr'):
        raise Stop('array')
    if isinstance(c[1], str):
        shp = tuple(int(x) for x in c[1].strip('()').split(',') if x.strip())
        return [v.arg(x, env) for x in c[2:]], shp
    shp = tuple(v.size(d, env) for d in c[1])
    lam = v.arg(c[2], env)
    if not (isinstance(lam, tuple) and lam[0] == 'lam'):
        raise Stop('array')
    return [x[0] for x in lam[1:]], shp


def gauss(A, B):
    n = len(A)
    A = [list(map(complex, r)) for r in A]
    B = [list(map(complex, r)) for r in B]
    for k in range(n):
        p = max(range(k, n), key=lambda r: abs(A[r][k]))
        if abs(A[p][k]) < 1e-6:
            raise Stop('singular')
        A[k], A[p], B[k], B[p] = A[p], A[k], B[p], B[k]
        for r in range(n):
            if r != k:
                f = A[r][k] / A[k][k]
                A[r] = [x - f * y for x, y in zip(A[r], A[k])]
                B[r] = [x - f * y for x, y in zip(B[r], B[k])]
    return [[x / A[k][k] for x in B[k]] for k in range(n)]


def real(x):
    return x.real if abs(x.imag) < 1e-12 else x


def ev_solve(v, a, env):
    A, sa = lin_entries(v, a.args[0], env)
    inv = a.head == 'minv'
    n = sa[0]
    if len(sa) != 2 or sa[1] != n or n > 12:
        raise Stop('matrix')
    A = [A[i * n:(i + 1) * n] for i in range(n)]
    ix = tuple(v.arg(x, env) for x in (a.args[1] if inv else a.args[2]))
    if inv:
        B = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
    else:
        b, sb = lin_entries(v, a.args[1], env)
        m = sb[1] if len(sb) == 2 else 1
        B = [b[i * m:(i + 1) * m] for i in range(n)]
    X = gauss(A, B)
    if not 0 <= ix[0] < n:
        raise Stop('index')
    return real(X[ix[0]][ix[1] if len(ix) > 1 else 0])


INTERP['solve'] = INTERP['minv'] = ev_solve
