"""Obligations, verdicts and evidence."""
import json
import os
import select
import signal
import sys
import time
import traceback

from . import terms as T
from .terms import Poly, Undecided, has_unknown, unknown_reasons, pretty
from .values import Num, Arr, PyRaise, all_idx, P, pinned, ROWINJ
from . import valuate

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, msg, where=None, **info):
        Exception.__init__(self, msg)
        self.msg = msg
        self.where = where
        self.info = info


class Known(Violation):
    """A violation with a stable identity that may be listed as a known finding."""

    def __init__(self, key, msg, where=None, **info):
        Violation.__init__(self, msg, where, **info)
        self.key = key


class Missing(Exception):
    """A public entry point the property is anchored on is gone."""


class Ob:
    def __init__(self, name, where, fn, timeout):
        self.name = name
        self.where = where
        self.fn = fn
        self.timeout = timeout


class Suite:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []

    def add(self, name, where, fn, timeout=120):
        self.obs.append(Ob(name, where, fn, timeout))

    def ob(self, name, where, timeout=120):
        def deco(fn):
            self.add(name, where, fn, timeout)
            return fn
        return deco


# ------------------------------------------------------------ comparing terms
class Count:
    n = 0
    exact = 0
    weak = 0
    analysed = set()


def tol_zero(d, a, b):
    """All coefficients of d are rounding noise relative to a and b."""
    m = max([abs(c) for c in a.t.values()] + [abs(c) for c in b.t.values()] + [0])
    if not m:
        return False
    return all(abs(c) <= m * 1e-9 for c in d.t.values())


def by_cases(x, y, depth=4):
    """Equality established by distinguishing the cases of conditions that occur inside other terms."""
    if T.same(x, y):
        return True
    if not depth:
        return False
    inner = set()
    for a in T.pdeps(x) | T.pdeps(y):
        for b in T.deps(a):
            if b is not a and b.boolean and b.head != 'sym' and not free_bv(b):
                inner.add(b)
    low = [a for a in inner if not any(b is not a and b in inner for b in T.deps(a))]
    for a in sorted(low, key=lambda a: (len(T.deps(a)), str(a.key)))[:3]:
        parts = [(T.subst(x, {a: c}), T.subst(y, {a: c})) for c in (T.ONE, T.ZERO)]
        mp = solved(a) if a.head == 'eq' else None
        if mp:
            parts[0] = (T.subst(parts[0][0], mp), T.subst(parts[0][1], mp))
        if all(by_cases(p, q, depth - 1) for p, q in parts):
            return True
        if depth < 4:
            break
    return False


def on_a_line(p):
    """p vanishes: a combination of conditions on one integer, which is constant between the points where they change."""
    import math
    var, roots = None, []
    for a in {a for m in p.t for a, _ in m}:
        if a.head not in ('eq', 'neg', 'lt', 'ne') or len(a.args) != 1:
            return False
        q, k, c = a.args[0], 0, 0
        for m, x in q.t.items():
            if not m:
                c = x
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].head in ('sym', 'in') and m[0][0].integer and var in (None, m[0][0]):
                var, k = m[0][0], x
            else:
                return False
        if not k:
            return False
        roots.append(-c / k)
    if var is None or free_bv(var) or max(roots) - min(roots) > 200:
        return False
    return all(T.same(T.subst(p, {var: P(k)}), T.ZERO) for k in range(math.floor(min(roots)) - 1, math.ceil(max(roots)) + 2))


def domain(a):
    """Values of an integer term of few values."""
    if not a.integer or a.head not in ('sym', 'in') or free_bv(a):
        return None
    if a.boolean:
        return range(2)
    lo, hi = [None if x is None else P(x).as_int() for x in (a.lo, a.hi)]
    return range(lo, hi) if lo is not None and hi is not None and hi - lo <= 6 else None


def listed(p):
    """Positions of the members of a short list, written out."""
    for _ in range(3):
        mp = {}
        for a in T.pdeps(p):
            if a.head != 'nth' or free_bv(a) or P(a.args[1]).as_int() not in range(1, 5):
                continue
            base, hi, body, k = a.args
            r = before = T.ZERO
            for j in range(P(hi).as_int()):
                c = T.subst(body, {T.bvatom(base): P(j)})
                r = r + c * T.eq(before, k) * j
                before = before + c
            mp[a] = r
        if not mp:
            break
        p = T.subst(p, mp)
    return p


def exhausted(p, left, used=frozenset(), cases=None):
    """p vanishes for all values of the integers it depends on (a small instance)."""
    if cases is None:
        p = listed(p)
        cases = {}
    left[0] -= 1
    if not p.t or T.same(p, T.ZERO):
        return True
    if left[0] < 0:
        return False
    parts = {}
    for m, c in p.t.items():
        data = tuple((a, e) for a, e in m if not a.boolean and domain(a) is None)
        parts.setdefault(data, {})[tuple(x for x in m if x not in data)] = c
    if len(parts) > 1 and not any(domain(b) for q in parts for a, _ in q for b in T.deps(a)):
        return all(exhausted(Poly(q), left, used, cases) for q in parts.values())
    inner = set()
    for a in T.pdeps(p):
        inner |= {b for b in T.deps(a) if b is not a}
    later = {a.args[0] for a in inner | T.pdeps(p) if a.head == 'in' and any(domain(b) for b in T.deps(a) if b is not a)}
    bound = {b.args[0] for b in inner if b.head == 'in' and free_bv(b)}
    for a in sorted(inner, key=lambda a: (a.head == 'in' and a.args[0] in later, a.rank, str(a.key))):
        r = domain(a)
        if a.head == 'in' and a.args[0] in bound:
            # read in a list whose length is not known yet
            continue
        if r and not any(domain(b) for b in T.deps(a) if b is not a):
            row = ()
            if a.head == 'in' and a.args[0] in ROWINJ and len(a.args[1]) == 2:
                # entries of a row of distinct ones
                row = ((a.args[0], P(a.args[1][0])),)
            return all(exhausted(T.subst(p, {a: P(k)}), left, used | {x + (k,) for x in row}, cases)
                       for k in r if not any(x + (k,) in used for x in row))
    # conditions on data without bounds
    for a in sorted(inner, key=lambda a: (a.rank, str(a.key))):
        if a.boolean and a.head in ('eq', 'neg') and not free_bv(a) and not any(
                b.boolean or domain(b) for b in T.deps(a) if b is not a):
            for v in (T.ONE, T.ZERO):
                c = {**cases, a: v}
                qs = [T.subst(p, {a: v})]
                # the range of an index that depends on the condition
                for b in T.pdeps(qs[0]):
                    if b.head == 'sym' and b.integer and b.hi is not None and a in T.pdeps(P(b.hi)):
                        hi = T.subst(P(b.hi), c).as_int()
                        if hi is not None and hi <= 6:
                            qs = [T.subst(q, {b: P(k)}) for q in qs for k in range(hi)]
                if not all(exhausted(q, left, used, c) for q in qs):
                    return False
            return True
    return False


def solved(e):
    """The equation of a condition solved for one of its terms."""
    p = e.args[0]
    for m, c in sorted(p.t.items(), key=lambda z: str([a.key for a, _ in z[0]])):
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            rest = (P(a) - p * (1 / c))
            if a.head in ('in', 'sym') and not free_bv(a) and a not in T.pdeps(rest):
                return {a: rest}
    return None


def opened(a):
    """Variable and body of a sum or existence over one variable."""
    base, his, body = a.args
    v = T.fresh('u', hi=his[0])
    return v, T.subst(body, {T.bvatom(base): P(v)})


def first_ones(p):
    """Sums over the first occurrences only: the number of v that satisfy c(v) while no smaller one does is [some v does]."""
    mp = {}
    for a in T.pdeps(p):
        if a.head == 'exists' and len(a.args[1]) == 1:
            v, body = opened(a)
            for b in {b for m in body.t for b, _ in m}:
                if b.head != 'exists' or len(b.args[1]) != 1 or b.args[1][0] != P(v):
                    continue
                u, inner = opened(b)
                c = T.subst(inner, {u: P(v)})
                if T.same(body, c * (T.ONE - P(b))):
                    mp[a] = T.exists([v], c)
                    break
        if a.head != 'sum' or len(a.args[1]) != 1:
            continue
        v, body = opened(a)
        s = body.single()
        if not s:
            continue
        for x, k in s[1]:
            if x.head != 'exists' or k != 1 or len(x.args[1]) != 1 or x.args[1][0] != P(v):
                continue
            u, inner = opened(x)
            rest = Poly({tuple(q for q in s[1] if q[0] is not x): T.F1})
            if all(b.boolean for q in rest.t for b, _ in q) and T.same(T.subst(inner, {u: P(v)}), rest):
                mp[a] = (T.mk_sum([v], rest) - T.exists([v], rest)) * s[0]
                break
    if mp:
        p = T.subst(p, mp)
    out = T.ZERO
    for m, c in p.t.items():
        for x, k in m:
            if x.head == 'exists' and len(x.args[1]) == 1 and any(absorbed(x, a) for a, _ in m):
                m = tuple(q for q in m if q[0] is not x)
        out = out + Poly({m: c})
    return out


def absorbed(x, a):
    """Does the sum a vanish where nothing satisfies the condition x?"""
    if a.head != 'sum' or len(a.args[1]) != 1 or a.args[1] != x.args[1]:
        return False
    v, body = opened(a)
    u, inner = opened(x)
    s = T.subst(inner, {u: P(v)}).single()
    return bool(s) and s[0] == 1 and all(set(q[0] for q in s[1]) <= set(b for b, _ in m) for m in body.t)


def one_to_one(p, v):
    q = Poly({m: c for m, c in p.t.items() if any(v in a.fv for a, _ in m)})
    return pinned([v], (q,)) or pinned([v], (-q,))


def unique_index(p):
    """Where exactly one index meets a condition, sums over those that do are the term at that index."""
    for e in sorted((a for a in T.pdeps(p) if a.head == 'exists' and len(a.args[1]) == 1 and not free_bv(a)),
                    key=lambda a: str(a.key)):
        v, h = opened(e)
        if len(h.t) != 1:
            continue
        (hit, c), = h.t.items()
        hit = dict(hit)
        if c != 1 or not any(a.head == 'eq' and one_to_one(a.args[0], v) for a in hit):
            continue
        pos = T.mk_sum([v], h * P(v))
        mp = {}
        for s in T.pdeps(p):
            if s.head != 'sum' or len(s.args[1]) != 1 or s.args[1] != e.args[1] or free_bv(s) or P(s) == pos:
                continue
            w, b = opened(s)
            b = T.subst(b, {w: P(v)})
            if all(set(hit) <= {a for a, _ in m} for m in b.t):
                g = T.ZERO
                for m, k in b.t.items():
                    g = g + Poly({tuple((a, n) for a, n in m if a not in hit): k})
                mp[s] = T.subst(g, {v: pos})
        if mp:
            # P(e) = 1 is used, so only the part with that condition changes
            on, off = T.subst(p, {e: T.ONE}), T.subst(p, {e: T.ZERO})
            p = P(e) * T.subst(on, mp) + (T.ONE - P(e)) * off
    return p


FREE = {}


def free_bv(x):
    """Bound variables of enclosing binders in a term."""
    if isinstance(x, T.Poly):
        return frozenset().union(*[free_bv(a) for m in x.t for a, _ in m])
    if isinstance(x, tuple):
        return frozenset().union(*[free_bv(a) for a in x])
    if not isinstance(x, T.Atom):
        return frozenset()
    r = FREE.get(x)
    if r is None:
        a = x.args
        if x.head == 'bv':
            r = frozenset([a[0]])
        elif x.head == 'nth':
            r = free_bv(a[1]) | free_bv(a[2]) - {a[0]} | free_bv(a[3])
        else:
            r = free_bv(tuple(a))
            if len(a) > 1 and isinstance(a[0], int) and isinstance(a[1], tuple):
                r = r - set(range(a[0], a[0] + len(a[1])))
        FREE[x] = r
    return r


def holds(argument):
    try:
        return argument()
    except Undecided:
        return False


def equal(d, s, assume=None):
    """True / (valuation, x, y) / raises Undecided."""
    d, s = P(d), P(s)
    Count.n += 1
    if has_unknown(d):
        rs = list(unknown_reasons(d))[:2]
        raise Undecided('not derived: %s' % '; '.join(str(x) for x in rs))
    if d.t == s.t or T.same(d, s):
        Count.exact += 1
        return True
    df = d - s
    if tol_zero(df, d, s):
        Count.exact += 1
        return True
    if assume is not None and T.same(df * assume, T.ZERO):
        Count.exact += 1
        return True
    w = valuate.separates(d, s, assume=assume, more=5)
    if w is None:
        x, y = T.unshift(T.unfold(d)), T.unshift(T.unfold(s))
        if (x is not d or y is not s) and T.same(x, y):
            Count.exact += 1
            return True
        if any(holds(f) for f in (lambda: on_a_line(x - y), lambda: T.same(first_ones(x), first_ones(y)),
                                  lambda: by_cases(x, y), lambda: by_cases(unique_index(x), unique_index(y)),
                                  lambda: exhausted(x - y if assume is None else (x - y) * T.unshift(T.unfold(P(assume))), [3000]))):
            Count.exact += 1
            return True
        Count.weak += 1
        return None
    if w is False:
        raise Undecided('no valuation of %s' % pretty(d)[:200])
    return w


PENDING = []


def need(d, s, what, where=None, assume=None, defer=True, **info):
    """Obligation: term d (derived) equals term s (specified).

    Terms neither proved equal nor separated leave the obligation undecided, but
    its further comparisons are made first: one of them may show a violation."""
    r = equal(d, s, assume)
    if r is True:
        return
    if r is None:
        t = '%s: normal forms differ but no valuation separates them' % what
        if not defer:
            raise Undecided(t)
        PENDING.append(t)
        return
    v, x, y = r
    raise Violation('%s: derived %s, specified %s' % (what, pretty(P(d))[:300], pretty(P(s))[:300]), where,
                    derived=pretty(P(d))[:2000], specified=pretty(P(s))[:2000],
                    separated_by='valuation %d: %s != %s' % (v.seed, x, y), **info)


def show_shape(sh):
    return '(' + ', '.join(pretty(P(d)) for d in sh) + ')'


def need_shape(arr, shape, what, where=None):
    if isinstance(arr, Num) and not shape:
        return
    if not isinstance(arr, Arr):
        if type(arr).__name__ in ('PyList', 'Choice', 'Opq', 'Sparse') or arr is None:
            pass
        raise Undecided('%s: %s instead of an array' % (what, type(arr).__name__))
    if len(arr.shape) != len(shape):
        if any(has_unknown(P(x)) for x in arr.shape):
            raise Undecided(what)
        raise Violation('%s: shape %s instead of %s' % (what, show_shape(arr.shape), show_shape(shape)), where)
    for a, b in zip(arr.shape, shape):
        need(P(a), P(b), '%s: shape %s instead of %s' % (what, show_shape(arr.shape), show_shape(shape)), where,
             defer=False)


def need_array(arr, shape, spec, what, where=None, assume=None):
    """Every entry of a concretely shaped array equals spec(index)."""
    need_shape(arr, shape, what, where)
    und = None
    for i in all_idx(shape):
        try:
            need(arr.get(tuple(P(k) for k in i)), P(spec(*i)), '%s[%s]' % (what, ', '.join(map(str, i))), where, assume)
        except Undecided as e:
            und = e
    if und:
        raise und


# ---------------------------------------------------------------- running
BUILD = [None, None]


class Late(BaseException):
    pass


def late(*a):
    raise Late()


def small_instance(ob, level):
    """The same obligation for data of small fixed sizes (all values still symbolic)."""
    from . import ctx
    if BUILD[0] is None:
        return None
    old = ctx.SMALL
    ctx.SMALL = level
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 30)
    try:
        s = Suite(BUILD[1])
        BUILD[0](s)
        for o in s.obs:
            if o.name == ob.name:
                return run_once(o)
    except Late:
        return None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.SMALL = old
    return None


def run_one(ob, level=None):
    level = level or os.environ.get('SA_SMALL')
    if level:
        r = small_instance(ob, int(level))
        if r is None:
            r = {'name': ob.name, 'where': ob.where, 'status': 'undecided', 'detail': 'time limit for fixed sizes',
                 'comparisons': 0, 'analysed': [], 'seconds': 0}
        return r
    return run_once(ob)


def merge(r, q, level):
    """Result of an obligation after its instance of small sizes; True if a further instance is of use."""
    if q['status'] == 'violated':
        q['detail'] = 'for data of small fixed sizes: ' + q['detail']
        return q, False
    r['small'] = r.get('small', []) + [q['status']]
    if q['status'] == 'undecided':
        r['detail'] += ' || small: ' + q['detail']
        return r, False
    return r, level < 3


def run_once(ob):
    t0 = time.time()
    Count.n = Count.exact = 0
    Count.analysed = set()
    r = {'name': ob.name, 'where': ob.where}
    del PENDING[:]
    try:
        ob.fn()
        if PENDING:
            raise Undecided(PENDING[0])
        r['status'] = 'discharged'
    except Known as e:
        r.update(status='violated', key=e.key, detail=e.msg, info=e.info)
        if e.where:
            r['where'] = e.where
    except Violation as e:
        r.update(status='violated', detail=e.msg, info=e.info)
        if e.where:
            r['where'] = e.where
    except Undecided as e:
        r.update(status='undecided', detail=str(e)[:600])
    except Missing as e:
        r.update(status='missing', detail=str(e))
    except PyRaise as e:
        r.update(status='undecided' if PENDING else 'violated', detail=(PENDING[0] + '; ' if PENDING else '') +
                 'the analysed call always raises %s: %s' % (e.etype, e.msg), info={})
    except (Exception, RecursionError) as e:
        tb = traceback.format_exc().splitlines()
        r.update(status='undecided', detail='analyser: %s: %s @ %s' % (type(e).__name__, str(e)[:200],
                                                                       ' / '.join(x.strip() for x in tb[-5:-1])))
    r['comparisons'] = Count.n
    r['analysed'] = sorted(Count.analysed)
    r['seconds'] = round(time.time() - t0, 2)
    return r


def run_suite(suite, jobs=8, only=None, fork=True):
    """Every obligation in a process of its own; the undecided ones again for data of small sizes."""
    obs = [o for o in suite.obs if only is None or only in o.name]
    res = [None] * len(obs)
    if not fork:
        return [run_one(o) for o in obs]
    again = BUILD[0] is not None and not os.environ.get('SA_SMALL')
    todo = [(k, None) for k in range(len(obs))]
    live = {}

    def lost(k, why, seconds=0):
        return {'name': obs[k].name, 'where': obs[k].where, 'status': 'undecided', 'detail': why, 'comparisons': 0,
                'analysed': [], 'seconds': seconds}

    def done(k, level, q):
        if level is None:
            res[k] = q
            more, level = q['status'] == 'undecided', 1
        else:
            res[k], more = merge(res[k], q, level)
        if more and again:
            todo.append((k, level + 1))

    while todo or live:
        while todo and len(live) < jobs:
            k, level = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    out = json.dumps(run_one(obs[k], level), default=str)
                except BaseException as e:          # noqa
                    out = json.dumps(lost(k, 'analyser: ' + repr(e)[:200]))
                with os.fdopen(w, 'w') as f:
                    f.write(out)
                os._exit(0)
            os.close(w)
            live[r] = (pid, k, level, time.time(), [])
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            data = os.read(fd, 1 << 20)
            pid, k, level, t0, buf = live[fd]
            if data:
                buf.append(data)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del live[fd]
            try:
                q = json.loads(b''.join(buf))
            except ValueError:
                q = lost(k, 'analyser process died')
            done(k, level, q)
        now = time.time()
        for fd, (pid, k, level, t0, buf) in list(live.items()):
            limit = obs[k].timeout if level is None else 60
            if now - t0 > limit:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                done(k, level, lost(k, 'analysis exceeded %d s' % limit, round(now - t0, 1)))
    return res


def known_findings():
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('known:'):
                f = dict(x.split('=', 1) for x in l[6:].split()[:2] if '=' in x)
                out[(f.get('property'), f.get('key'))] = l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ''
    except OSError:
        pass
    return out


def finish(pid, res, wall, title=''):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    known = known_findings()
    n = len(res)
    by = {}
    for r in res:
        if r['status'] == 'violated' and r.get('key') and (pid, r['key']) in known:
            r['status'] = 'known'
        by.setdefault(r['status'], []).append(r)
    dis = by.get('discharged', [])
    small = [r for r in by.get('undecided', []) if r.get('small') == ['discharged'] * 2]
    vio = by.get('violated', [])
    und = by.get('undecided', [])
    evd = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    analysed = sorted({a for r in res for a in r.get('analysed', [])})
    cov = {
        'obligations': n,
        'discharged': len(dis),
        'undecided': [{'obligation': r['name'], 'reason': r['detail']} for r in und],
        'decided_for_small_sizes_only': [r['name'] for r in small],
        'known_findings': [r['name'] for r in by.get('known', [])],
        'term_comparisons': sum(r.get('comparisons', 0) for r in res),
        'functions_analysed': analysed,
        'rule': title,
        'samples': [{'obligation': r['name'], 'where': r['where'], 'status': r['status'],
                     'seconds': r['seconds']} for r in res[:400]],
        'checker_cmd': 'cd /verif && python3 -m sa.check %s' % pid,
        'trusted_base': ['sa/terms.py, sa/values.py, sa/interp.py (abstract interpreter and term normaliser)',
                         'sa/np*.py, sa/py*.py (models of Python built-ins, numpy, scipy.sparse)',
                         'sa/obl (the written specifications)', 'CPython ast parser'],
        'explanation': 'abstract interpretation of /repo/solidspy as read from disk on this run; each obligation '
                       'compares the derived normal form with the specification for all inputs of its context',
    }
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proof',
          'coverage': cov, 'wall_s': round(wall, 2), 'violations': len(vio),
          'assumptions': ['real arithmetic (floating-point rounding is outside the property)',
                          'inputs satisfy the documented shapes and types of the analysis contexts']}
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in by.get('known', []):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[(pid, r['key'])] or r['detail']))
    for r in und[:10]:
        print('undecided %s: %s' % (r['name'], r['detail'][:200]))
    print('%s: %d obligations, %d discharged, %d undecided, %d violated, %.1f s' % (
        pid, n, len(dis), len(und), len(vio), wall))
    if vio:
        path = os.path.join(evd, pid + '.violation.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'violations': vio,
                       'replay': 'cd /verif && python3 -m sa.check %s --only "%s"' % (pid, vio[0]['name'])}, f, indent=1)
        for r in vio:
            print('violated %s at %s: %s' % (r['name'], r['where'], r['detail'][:500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if by.get('missing'):
        for r in by['missing']:
            print('missing %s: %s' % (r['name'], r['detail']))
        return 2
    if small:
        print('%d of the undecided hold for data of small fixed sizes' % len(small))
    if n and (len(dis) + len(small) + len(by.get('known', []))) * 3 < n:
        print('too few obligations were decided')
        return 2
    return 0
