"""Calls of modelled library functions: no argument is ignored.

The models name the arguments they follow.  An argument that a model takes but does not
look at (or that falls into its **kw) makes the call undecided, unless it cannot change
the result; `out=` and `where=` are followed here for all functions.
"""
import dis
import inspect

from .values import *
from . import terms as T
from .sigs import SIGS

NEUTRAL = {'order', 'subok', 'casting', 'like', 'optimize', 'check_finite', 'overwrite_a', 'overwrite_b', 'assume_a', 'kind',
           'stable', 'equal_nan', 'use_umfpack', 'permc_spec', 'blocking', 'device', 'sparse_ok', 'errors'}
LAYOUT = {'ravel', 'flatten', 'reshape', 'tolist', 'sort', 'argsort'}


def reads(code, name):
    """Does the function look at its parameter?"""
    for i in dis.get_instructions(code):
        if i.opname.startswith('LOAD') and (i.argval == name or isinstance(i.argval, tuple) and name in i.argval):
            return True
    return any(reads(c, name) for c in code.co_consts if hasattr(c, 'co_code') and name in c.co_freevars)


def given(v):
    return v is not None


def true(v):
    return isinstance(v, Num) and v.p == ONE


class Sig:
    def __init__(self, f):
        ps = list(inspect.signature(f).parameters.values())
        code = f.__code__
        self.names, self.unused, self.star, self.kw = [], set(), None, None
        for p in ps[1:]:                                    # after I
            u = not reads(code, p.name)
            if p.kind is p.VAR_POSITIONAL:
                self.star = not u
            elif p.kind is p.VAR_KEYWORD:
                self.kw = not u
            else:
                if p.kind is not p.KEYWORD_ONLY:
                    self.names.append(p.name)
                if u:
                    self.unused.add(p.name)
        self.all = {p.name for p in ps[1:]}


def strict(name, f, arity=None):
    """f with every argument followed or refused."""
    s = Sig(f)
    short = name.split('.')[-1]
    arity = getattr(f, 'arity', arity)
    pos = SIGS[name][0].split() if name in SIGS else METHOD_SIGS.get(short, '').split() if name.startswith('ndarray.') else []
    alias = {p: m for p, m in zip(pos, s.names) if p != m and m not in pos and p not in s.all}
    own = getattr(f, 'own', ())

    def g(I, *a, **k):
        for n in [n for n in k if n in alias]:
            k[alias[n]] = k.pop(n)
        out, mask = k.pop('out', None), k.pop('where', None)
        if arity and len(a) > arity:
            if len(a) > arity + 1 or given(out):
                raise PyRaise('TypeError', '%s() takes from %d to %d positional arguments' % (short, arity, arity + 1))
            a, out = a[:arity], a[arity]
        if 'out' in s.names and len(a) > s.names.index('out'):
            i = s.names.index('out')
            a, out = a[:i] + (None,) + a[i + 1:], a[i]
        if isinstance(out, tuple) and len(out) == 1:
            out = out[0]
        dtype = None
        if ('dtype' not in s.all or 'dtype' in s.unused) and 'dtype' not in own:
            dtype = k.pop('dtype', None)
            if 'dtype' in s.names and len(a) > s.names.index('dtype'):
                i = s.names.index('dtype')
                a, dtype = a[:i] + (None,) + a[i + 1:], a[i]
        for n, v in zip(s.names, a):
            if n in s.unused and given(v):
                refuse(n, v)
        if s.star is False and len(a) > len(s.names) and any(map(given, a[len(s.names):])):
            raise Undecided('arguments of %s' % name)
        for n in list(k):
            if n in s.unused or n not in s.all and s.kw is False:
                refuse(n, k[n])
        if true(mask):
            mask = None
        if mask is not None and short in ('sum', 'any', 'count_nonzero') and a and isinstance(a[0], Arr):
            from .npfun import np_where
            a, mask = (np_where(I, mask, a[0], Num(T.ZERO, a[0].kind)),) + tuple(a[1:]), None
        if mask is not None and name == 'numpy.copyto':
            from .npfun import np_where
            a, mask = (a[0], np_where(I, mask, a[1], a[0])), None
        r = f(I, *a, **k)
        if dtype is not None:
            r = typed(I, r, dtype)
        if mask is not None:
            if not arity or not (isinstance(r, (Arr, Num))):
                raise Undecided('where= of %s' % name)
            from .npfun import np_where
            base = out if out is not None else Num(T.unknown('entries left out by where='), r.k if isinstance(r, Num) else r.kind)
            r = np_where(I, mask, r, base)
        if out is not None:
            if not isinstance(out, Arr) or not isinstance(r, (Arr, Num)):
                raise Undecided('out= of %s' % name)
            src, dst = r.k if isinstance(r, Num) else r.kind, out.kind
            if 'bifc'.find(str(src)) > 'bifc'.find(str(dst)):
                raise PyRaise('TypeError', "Cannot cast output of '%s' from %s to %s" % (short, src, dst))
            from .npfun import arr_set, ELL
            arr_set(I, out, ELL, r)
            return out
        return r

    def refuse(n, v):
        if n in NEUTRAL and not (n == 'order' and short in LAYOUT):
            return
        raise Undecided('argument %s of %s' % (n, name))

    def typed(I, r, dtype):
        from .npfun import dkind, astype
        k = dkind(I, dtype)
        src = r.k if isinstance(r, Num) else r.kind if isinstance(r, Arr) else None
        if src == k and isinstance(k, str):
            return r
        if src in ('b', 'i') and k in ('i', 'f', 'c') or src == 'f' and k == 'c':
            return Num(r.p, k) if isinstance(r, Num) else astype(I, r, k)
        raise Undecided('dtype of %s' % name)
    g.__name__ = short
    g.arity = arity
    return g


METHOD_SIGS = {
    'dot': 'b out', 'sum': 'axis dtype out', 'prod': 'axis dtype out', 'mean': 'axis dtype out', 'max': 'axis out',
    'min': 'axis out', 'any': 'axis out', 'all': 'axis out', 'astype': 'dtype order casting subok copy', 'fill': 'value',
    'squeeze': 'axis', 'cumsum': 'axis dtype out', 'diagonal': 'offset axis1 axis2', 'swapaxes': 'axis1 axis2',
    'repeat': 'repeats axis', 'take': 'indices axis out mode', 'argmax': 'axis out', 'argmin': 'axis out', 'clip': 'min max out',
    'round': 'decimals out', 'sort': 'axis kind order', 'argsort': 'axis kind order', 'flatten': 'order', 'ravel': 'order',
}
METHOD_SIGS = {k: 'self ' + v for k, v in METHOD_SIGS.items()}


def harden(table, skip=()):
    for k, b in table.items():
        if k in skip or not isinstance(b, Builtin) or k.split('.')[0] not in ('numpy', 'scipy'):
            continue
        if inspect.isfunction(b.fn) and not hasattr(b.fn, 'lenient'):
            b.fn = strict(k, b.fn)
