"""Library functions written in terms of others; interpreted by the analysis."""
import numpy as np


def reduce(f, seq, *init):
    if init:
        acc = init[0]
    else:
        if not isinstance(seq, np.ndarray):
            seq = [*seq]
        acc = seq[0]
        seq = seq[1:]
    for x in seq:
        acc = f(acc, x)
    return acc


def kron(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    n = max(a.ndim, b.ndim)
    while a.ndim < n:
        a = a[None]
    while b.ndim < n:
        b = b[None]
    axes = []
    for d in range(n):
        axes += [d, n + d]
    c = np.multiply.outer(a, b).transpose(axes)
    return c.reshape([p * q for p, q in zip(a.shape, b.shape)])


def select(condlist, choicelist, default=0):
    out = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        out = np.where(c, v, out)
    return out


def choose(a, choices, out=None, mode='raise'):
    if out is not None or mode != 'raise':
        _undecided('choose')
    a = np.asarray(a)
    if np.any(a < 0) or np.any(a >= len(choices)):
        raise ValueError('invalid entry in choice array')
    r = choices[0]
    for k in range(1, len(choices)):
        r = np.where(a == k, choices[k], r)
    return r


def union1d(a, b):
    return np.unique(np.concatenate((np.ravel(a), np.ravel(b))))


def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        _undecided('intersect1d')
    u = np.unique(a)
    return u[np.isin(u, b)]


def setxor1d(a, b, assume_unique=False):
    u = union1d(a, b)
    return u[np.isin(u, a) != np.isin(u, b)]


def ravel_multi_index(multi_index, dims, mode='raise', order='C'):
    if mode != 'raise' or order != 'C':
        _undecided('ravel_multi_index')
    r = 0
    for x, n in zip(multi_index, dims):
        x = np.asarray(x)
        if np.any(x < 0) or np.any(x >= n):
            raise ValueError('invalid entry in coordinates array')
        r = r * n + x
    return r


def unravel_index(indices, shape, order='C'):
    if order != 'C':
        _undecided('unravel_index')
    x = np.asarray(indices)
    if isinstance(shape, int):
        shape = (shape,)
    n = 1
    for d in shape:
        n = n * d
    if np.any(x < 0) or np.any(x >= n):
        raise ValueError('index out of bounds')
    out = []
    for d in reversed(list(shape)[1:]):
        out.append(x % d)
        x = x // d
    out.append(x)
    return tuple(reversed(out))


def indices(dimensions, dtype=int, sparse=False):
    if sparse:
        _undecided('indices')
    return np.stack(np.meshgrid(*[np.arange(n, dtype=dtype) for n in dimensions], indexing='ij'))


def fromfunction(function, shape, *, dtype=float, **kw):
    return function(*indices(shape, dtype=dtype), **kw)


def fromiter(it, dtype, count=-1):
    if count != -1:
        _undecided('fromiter')
    return np.array([*it], dtype=dtype)


def dstack(tup):
    return np.concatenate([np.atleast_3d(x) for x in tup], 2)


def polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


def ediff1d(a, to_end=None, to_begin=None):
    if to_end is not None or to_begin is not None:
        _undecided('ediff1d')
    a = np.ravel(a)
    return a[1:] - a[:-1]


def diag_indices(n, ndim=2):
    return (np.arange(n),) * ndim


def diagflat(v, k=0):
    return np.diag(np.ravel(v), k)


def extract(condition, arr):
    return np.ravel(arr)[np.flatnonzero(np.ravel(condition))]


def compress(condition, a, axis=None):
    k = np.flatnonzero(condition)
    return np.take(a, k, axis=axis)


def take_along_axis(arr, indices, axis=-1):
    arr, indices = np.asarray(arr), np.asarray(indices)
    if arr.ndim == 1:
        return arr[indices]
    if arr.ndim != 2 or indices.ndim != 2:
        _undecided('take_along_axis')
    if axis in (1, -1):
        return arr[np.arange(indices.shape[0])[:, None], indices]
    if axis in (0, -2):
        return arr[indices, np.arange(indices.shape[1])[None, :]]
    _undecided('take_along_axis')


def putmask(a, mask, values):
    values = np.asarray(values)
    if values.ndim == 0:
        a[mask] = values
    elif values.ndim == a.ndim:
        a[...] = np.where(mask, values, a)
    else:
        _undecided('putmask')


def place(arr, mask, vals):
    vals = np.asarray(vals)
    if vals.ndim != 0:
        _undecided('place')
    arr[mask] = vals


def rollaxis(a, axis, start=0):
    n = a.ndim
    if axis < 0:
        axis += n
    if start < 0:
        start += n
    if axis < start:
        start -= 1
    return np.moveaxis(a, axis, start)


def rot90(m, k=1, axes=(0, 1)):
    if axes != (0, 1):
        _undecided('rot90')
    k = k % 4
    if k == 0:
        return m[:]
    if k == 2:
        return np.flip(np.flip(m, 0), 1)
    if k == 1:
        return np.swapaxes(np.flip(m, 1), 0, 1)
    return np.flip(np.swapaxes(m, 0, 1), 1)


def pad(array, pad_width, mode='constant', constant_values=0):
    array = np.asarray(array)
    if mode != 'constant' or not isinstance(constant_values, (int, float)):
        _undecided('pad')
    n = array.ndim
    if isinstance(pad_width, int):
        width = [(pad_width, pad_width)] * n
    elif isinstance(pad_width[0], int):
        if n != 1 or len(pad_width) != 2:
            _undecided('pad')
        width = [pad_width]
    else:
        width = list(pad_width)
        if len(width) != n:
            _undecided('pad')
    out = np.full([w[0] + s + w[1] for w, s in zip(width, array.shape)], constant_values, dtype=array.dtype)
    out[tuple([slice(w[0], w[0] + s) for w, s in zip(width, array.shape)])] = array
    return out


def var(a, axis=None, ddof=0):
    a = np.asarray(a)
    m = np.mean(a, axis=axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    return np.sum(np.abs(a - m)**2, axis=axis) / (n - ddof)


def std(a, axis=None, ddof=0):
    return np.sqrt(var(a, axis=axis, ddof=ddof))


def divmod(a, b):
    return np.floor_divide(a, b), np.remainder(a, b)


def tri(N, M=None, k=0, dtype=float):
    return np.tril(np.ones((N, N if M is None else M), dtype=dtype), k)


def heaviside(x, h):
    return np.where(x < 0, 0.0, np.where(x == 0, h, 1.0))


def searchsorted(a, v, side='left', sorter=None):
    a, v = np.asarray(a), np.asarray(v)
    if sorter is not None or a.ndim != 1 or side not in ('left', 'right'):
        _undecided('searchsorted')
    if not _increasing(a) and not np.all(a[:-1] <= a[1:]):
        return _searched(a, v, side == 'right')
    if side == 'left':
        return np.sum(a < v[..., None], axis=-1)
    return np.sum(a <= v[..., None], axis=-1)


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def insert(arr, obj, values, axis=None):
    arr = np.asarray(arr)
    if not isinstance(obj, int):
        _undecided('insert')
    if axis is None:
        arr, axis = np.ravel(arr), 0
    if arr.ndim == 1:
        return np.concatenate((arr[:obj], np.array([values], dtype=arr.dtype), arr[obj:]))
    if arr.ndim != 2:
        _undecided('insert')
    if axis in (1, -1):
        new = np.zeros((arr.shape[0], 1), dtype=arr.dtype)
        new[:, 0] = values
        return np.concatenate((arr[:, :obj], new, arr[:, obj:]), axis=1)
    new = np.zeros((1, arr.shape[1]), dtype=arr.dtype)
    new[0] = values
    return np.concatenate((arr[:obj], new, arr[obj:]), axis=0)


def broadcast_shapes(*shapes):
    n = max([len(s) for s in shapes])
    out = []
    for d in range(n):
        r = 1
        for s in shapes:
            k = d - n + len(s)
            if k >= 0 and s[k] != 1:
                if r != 1 and r != s[k]:
                    raise ValueError('shape mismatch')
                r = s[k]
        out.append(r)
    return tuple(out)


def broadcast_arrays(*args):
    shape = broadcast_shapes(*[np.shape(x) for x in args])
    return tuple([np.broadcast_to(x, shape) for x in args])


def vander(x, N=None, increasing=False):
    x = np.asarray(x)
    n = len(x) if N is None else N
    k = range(n) if increasing else range(n - 1, -1, -1)
    return np.stack([x**j for j in k], axis=1)


def matrix_power(a, n):
    if n < 0:
        a, n = np.linalg.inv(a), -n
    r = np.eye(a.shape[0])
    if n == 0:
        return r
    r = a
    for _ in range(n - 1):
        r = r @ a
    return r
