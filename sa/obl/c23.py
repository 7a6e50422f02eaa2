RULE = ('every public routine is derived on arbitrary data A, alone and after a history of calls on other data of the same '
        'sizes and on A itself whose results were overwritten by their owner: the results and the recorded effects '
        '(files, plots) must be the same function of A')
from ..ctx import *
from ..values import M
from ..calls import catalogue, content_same, spoil, Diff
from ..memory import memory

IGNORE = ('stub',)


def once(I, c, tag):
    c.setup(I)
    a, k = c.args(I, tag)
    r = run(I, c.qual, *a, **k)
    if r.error is not None:
        raise Undecided('raises %s: %s' % (r.error.etype, r.error.msg))
    return r


def again(I, c, w):
    """The call after others: it returns alone, so it has to return now."""
    c.setup(I)
    a, k = c.args(I, '')
    r = run(I, c.qual, *a, **k)
    if r.error is not None:
        raise Violation('%s returns alone and raises after earlier calls: %s: %s' % (
            c.qual.split('.')[-1], r.error.etype, r.error.msg), w)
    return r


def obligations(s):
    mem = memory(new().root, PKG)
    cat = catalogue()
    for c in cat:
        w = where(c.qual)

        def f(c=c, w=w):
            r1 = once(new(), c, '')
            heap1 = dict(M.heap)
            I = new()
            spoil(once(I, c, OTHER).value)
            spoil(once(I, c, '').value)
            r2 = again(I, c, w)
            for k, v in heap1.items():
                M.heap.setdefault(k, v)
            d = Diff()
            content_same(r2.value, r1.value, '', d)
            same_effects(r2.effects, r1.effects, d)
            d.verdict('%s depends on earlier calls' % c.qual.split('.')[-1], w)
        s.add('%s: %s' % (c.qual.split('.')[-1], c.label), w, f)
        # calls of other kinds matter where data outlive the call
        mine = mem.get(c.qual.split('.')[-1], set())
        others = [b for b in cat if b is not c and mine & mem.get(b.qual.split('.')[-1], set())]
        others.sort(key=lambda b: b.qual != c.qual)
        for b in others[:8]:
            def g(b=b, c=c, w=w):
                r1 = once(new(), c, '')
                heap1 = dict(M.heap)
                I = new()
                spoil(once(I, b, OTHER).value)
                spoil(once(I, b, '').value)
                I.stubs.clear()
                r2 = again(I, c, w)
                for k, v in heap1.items():
                    M.heap.setdefault(k, v)
                d = Diff()
                content_same(r2.value, r1.value, '', d)
                same_effects(r2.effects, r1.effects, d)
                d.verdict('%s depends on earlier calls of %s' % (c.qual.split('.')[-1], b.qual.split('.')[-1]), w)
            s.add('%s: %s, after %s: %s' % (c.qual.split('.')[-1], c.label, b.qual.split('.')[-1], b.label), w, g)


def same_effects(a, b, d):
    a, b = visible(a), visible(b)
    if len(a) != len(b):
        d.differ('%d files and plots instead of %d' % (len(a), len(b)))
        return
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple):
            content_same(tuple(x), tuple(y), 'effect', d)
        elif type(x) is not type(y):
            d.weak('effects')


def visible(es):
    return [e for e in es if not (isinstance(e, tuple) and e and e[0] in IGNORE)]
