RULE = ('every public routine is derived on arbitrary tables, vectors and dictionaries; after the call, and again after its '
        'results have been overwritten by their owner, every entry, size and key of every argument is compared with a copy '
        'built before the call')
from ..ctx import *
from ..calls import catalogue, content_same, spoil, Diff

EXEMPT = {'preprocesor.boundary_conditions': {3}}     # documented: the restraints are written into the node table


def obligations(s):
    for c in catalogue():
        w = where(c.qual)

        def f(c=c, w=w):
            I = new()
            c.setup(I)
            a, k = c.args(I, '')
            a0, k0 = c.args(I, '')
            names = argnames(I, c.qual, len(a)) + list(k)
            r = run(I, c.qual, *a, **k)
            if r.error is not None:
                raise Undecided('raises %s: %s' % (r.error.etype, r.error.msg))
            skip = EXEMPT.get(c.qual, ())
            for step in ('is changed by the call', 'shares its memory with a result'):
                for i, (x, y) in enumerate(zip(a + list(k.values()), a0 + list(k0.values()))):
                    if i in skip:
                        continue
                    d = Diff()
                    content_same(x, y, '', d)
                    d.verdict('argument %s of %s %s' % (names[i], c.qual.split('.')[-1], step), w)
                if skip:
                    break
                spoil(r.value)
        s.add('%s: %s' % (c.qual.split('.')[-1], c.label), w, f)
        s.add('%s: %s, integer data' % (c.qual.split('.')[-1], c.label), w, ints(f, '*'))


def argnames(I, qual, n):
    f = func(I, qual)
    names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args] if hasattr(f, 'node') else []
    return (names + ['%d' % i for i in range(len(names), n)])[:n]
