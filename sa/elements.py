"""Reference elements: nodes and polynomial spaces (natural coordinates)."""
from fractions import Fraction as F
from itertools import product

H = F(1, 2)
_q = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
NODES = {
    'tri3': [(0, 0), (1, 0), (0, 1)],
    'tri6': [(0, 0), (1, 0), (0, 1), (H, 0), (H, H), (0, H)],
    'quad4': _q,
    'quad8': _q + [(0, -1), (1, 0), (0, 1), (-1, 0)],
    'quad9': _q + [(0, -1), (1, 0), (0, 1), (-1, 0), (0, 0)],
    'tet4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    'hex8': [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1),
             (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)],
}
_m3 = list(product((0, 1, 2), repeat=2))
SPACE = {
    'tri3': [(0, 0), (1, 0), (0, 1)],
    'tri6': [e for e in _m3 if sum(e) <= 2],
    'quad4': list(product((0, 1), repeat=2)),
    'quad8': [e for e in _m3 if e != (2, 2)],
    'quad9': _m3,
    'tet4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    'hex8': list(product((0, 1), repeat=3)),
}
SHAPES = ['tri3', 'tri6', 'quad4', 'quad9', 'quad8', 'tet4', 'hex8']


def dim(el):
    return len(NODES[el][0])


def mono(x, e):
    v = F(1)
    for a, k in zip(x, e):
        v *= F(a) ** k
    return v
