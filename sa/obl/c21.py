RULE = ('the drivers are derived with the routines they are composed of replaced by opaque functions (their own properties are '
        'decided apart): the data handed from one to the next, the values returned and the conditions for plotting are '
        'compared with the workflow; file names and tables of the text input and output are compared likewise')
from ..ctx import *
from ..values import Gen, Guarded, Sparse
from ..mesh import *
from ..report import need, need_shape
from .c10 import clean
from .c20 import dic

CHAIN = ('assemutil.DME', 'assemutil.assembler', 'assemutil.loadasem', 'solutil.static_sol', 'postprocesor.complete_disp')


class Flow:
    """The routines of the workflow as opaque functions that record their arguments."""

    def __init__(self, I, m):
        self.calls = {}
        self.neq = size('neq')
        n = self.neq
        self.op = input_arr('op', (m.nels, P(18)), 'i')
        self.bc = input_arr('bc', (m.nnodes, P(2)), 'i')
        self.K = input_arr('K', (n, n))
        self.M = input_arr('M', (n, n))
        self.rhs = input_arr('rhs', (n,))
        self.disp = input_arr('disp', (n,))
        self.U = input_arr('U', (m.nnodes, P(2)))
        self.E = input_arr('E', (m.nnodes, P(3)))
        self.S = input_arr('S', (m.nnodes, P(3)))
        dense = lambda b: 'sparse' in b and isinstance(b['sparse'], Num) and b['sparse'].p == ZERO
        mat = lambda b, A: A if dense(b) else Sparse(A, 'csr')
        out = {
            'assemutil.DME': lambda b: (self.op, self.bc, Num(n, 'i')),
            'assemutil.assembler': lambda b: (mat(b, self.K), mat(b, self.M)),
            'assemutil.loadasem': lambda b: self.rhs,
            'solutil.static_sol': lambda b: self.disp,
            'postprocesor.complete_disp': lambda b: self.U,
            'postprocesor.strain_nodes': lambda b: (self.E, self.S),
            'postprocesor.fields_plot': lambda b: None,
        }
        for name, fn in out.items():
            def stub(I, b, name=name, fn=fn):
                self.calls.setdefault(name, []).append(dict(b))
                I.effects_add(('stub', name))
                return fn(b)
            I.stubs['%s.%s' % (PKG, name)] = stub

    def once(self, name):
        c = self.calls.get(name, [])
        if len(c) != 1:
            raise Undecided('%s is called %d times' % (name, len(c)))
        return c[0]


def same_arr(got, want, what, w, cols=None, rows_only=False):
    """The array handed over carries the wanted data (in the columns that matter)."""
    if isinstance(got, Sparse):
        got = got.arr
    if not isinstance(got, Arr):
        raise Violation('%s is not passed' % what, w) if got is None else Undecided('%s: %s' % (what, type(got).__name__))
    if got.ndim != want.ndim:
        raise Violation('%s has %d dimensions' % (what, got.ndim), w)
    need(got.shape[0], want.shape[0], 'rows of %s' % what, w)
    if rows_only:
        return
    if want.ndim == 1:
        need(got.get((i0(want),)), want.get((i0(want),)), what, w)
        return
    if cols is None:
        need(got.shape[1], want.shape[1], 'columns of %s' % what, w)
    k = want.shape[1].as_int()
    i = i0(want)
    if k is None:
        j = sym('jj', integer=True, lo=ZERO, hi=want.shape[1])
        need(got.get((i, j)), want.get((i, j)), what, w)
    else:
        for j in (range(k) if cols is None else cols):
            need(got.get((i, P(j))), want.get((i, P(j))), '%s, column %d' % (what, j), w)


def i0(a):
    return sym('ii', integer=True, lo=ZERO, hi=a.shape[0])


def scalar(got, want, what, w):
    if not isinstance(got, Num):
        raise Undecided(what)
    need(got.p, want, what, w)


def workflow(I, F, m, nodes, cons, loads, r, strains, plots, w):
    b = F.once('assemutil.DME')
    same_arr(b['cons'], cons, 'table of restraints', w)
    same_arr(b['elements'], m.elements, 'element table', w)
    if 'ndof_node' in b:
        scalar(b['ndof_node'], P(2), 'degrees of freedom per node', w)
    b = F.once('assemutil.assembler')
    same_arr(b['elements'], m.elements, 'element table to assemble', w)
    same_arr(b['mats'], m.mats, 'material table to assemble', w)
    same_arr(b['nodes'], nodes3(nodes, m), 'node table to assemble', w)
    scalar(b['neq'], F.neq, 'number of equations to assemble', w)
    same_arr(b['assem_op'], F.op, 'assembly operator', w)
    if b.get('uel') is not None:
        raise Undecided('user elements')
    b = F.once('assemutil.loadasem')
    same_arr(b['loads'], loads, 'load table', w)
    same_arr(b['bc_array'], F.bc, 'equation numbers for the loads', w)
    scalar(b['neq'], F.neq, 'number of equations for the loads', w)
    b = F.once('solutil.static_sol')
    same_arr(b['mat'], F.K, 'matrix of the system', w)
    same_arr(b['rhs'], F.rhs, 'right-hand side', w)
    b = F.once('postprocesor.complete_disp')
    same_arr(b['bc_array'], F.bc, 'equation numbers for the displacements', w)
    same_arr(b['nodes'], nodes, 'node table for the displacements', w, rows_only=True)
    same_arr(b['sol'], F.disp, 'solution', w)
    if strains:
        b = F.once('postprocesor.strain_nodes')
        same_arr(b['nodes'], nodes, 'node table for the strains', w, cols=(1, 2))
        same_arr(b['elements'], m.elements, 'element table for the strains', w)
        same_arr(b['mats'], m.mats, 'material table for the strains', w)
        same_arr(b['sol_complete'], F.U, 'displacements for the strains', w)
        v = tup(r.value, 3, 'the driver')
        for x, y, what in zip(v, (F.U, F.E, F.S), ('displacements', 'strains', 'stresses')):
            same_arr(x, y, 'returned ' + what, w)
    else:
        if isinstance(r.value, tuple):
            raise Violation('%d values are returned without strains being asked for' % len(r.value), w)
        same_arr(r.value, F.U, 'returned displacements', w)
    c = F.calls.get('postprocesor.fields_plot', [])
    if len(c) != (1 if plots else 0):
        raise Violation('the fields are plotted %d times, plots are %sasked for' % (len(c), '' if plots else 'not '), w)
    if plots:
        b = c[0]
        same_arr(b['elements'], m.elements, 'element table to plot', w)
        same_arr(b['nodes'], nodes, 'node table to plot', w, cols=(1, 2))
        same_arr(b['disp'], F.U, 'displacements to plot', w)
        for k, A in (('E_nodes', F.E), ('S_nodes', F.S)):
            if not strains:
                if b.get(k) is not None:
                    raise Violation('%s are plotted without being computed' % k, w)
            else:
                same_arr(b.get(k), A, k + ' to plot', w)


def nodes3(nodes, m):
    return from_fn((m.nnodes, P(3)), lambda ix: m.node_entry(ix), 'f')


def has_guarded(r, *names):
    return any(isinstance(e, (Gen, Guarded)) for e in r.effects)


FILES = {'nodes.txt': 'nodes', 'mater.txt': 'mats', 'eles.txt': 'elements', 'loads.txt': 'loads'}


def path_of(v):
    """Folder and name of a path."""
    if isinstance(v, Opq) and v.tag == 'path' and len(v.parts) >= 2:
        return v.parts[:-1], v.parts[-1]
    if isinstance(v, str):
        return ((v.rsplit('/', 1)[0],) if '/' in v else ('',)), v.rsplit('/', 1)[-1]
    raise Undecided('path %s' % (v,))


def obligations(s):
    w = where('solids_GUI.solids_auto')
    for plots in (None, False, True):
        for strains in (None, False, True):
            for t in (1, 2, 3):
                def f(plots=plots, strains=strains, t=t):
                    I = new()
                    m = Mesh(CATALOGUE[t][0], 2, t)
                    F = Flow(I, m)
                    loads = input_arr('load', (size('nloads'), P(3)))
                    kw = {k: num_bool(v) for k, v in (('plot_contours', plots), ('compute_strains', strains)) if v is not None}
                    d = dic({'nodes': nodes3(m.nodes, m), 'cons': m.cons, 'elements': m.elements, 'mats': m.mats,
                             'loads': loads})
                    r = run(I, 'solids_GUI.solids_auto', d, **kw)
                    clean(I, r, 'solids_auto', w)
                    workflow(I, F, m, m.nodes, m.cons, loads, r, bool(strains), plots is not False, w)
                s.add('solids_auto, elements of type %d, plots %s, strains %s' % (t, plots, strains), w, f)

    wg = where('solids_GUI.solids_GUI')
    for plots in (None, False, True):
        for strains in (None, False, True):
            for folder in ('given', 'asked'):
                if folder == 'asked' and (plots is not False or strains):
                    continue

                def f(plots=plots, strains=strains, folder=folder):
                    I = new()
                    m = Mesh(4, 2, 1)
                    F = Flow(I, m)
                    loads = input_arr('load', (size('nloads'), P(3)))
                    full = from_fn((m.nnodes, P(5)), lambda ix: m.node_entry(ix) if ix[1].as_int() is None or
                                   ix[1].as_int() < 3 else -restr(ix[0], ix[1] - 3), 'f')
                    asked = []
                    dirs = []

                    def read(I, fname, a, kw):
                        d, n = path_of(fname)
                        dirs.append(d)
                        if n not in FILES:
                            raise Violation('file %s is read' % n, wg)
                        asked.append(n)
                        return {'nodes.txt': full, 'mater.txt': m.mats, 'eles.txt': m.elements, 'loads.txt': loads}[n]
                    I.file_hook = read
                    fol = Opq('folder')
                    if folder == 'asked':
                        I.stubs[PKG + '.preprocesor.initial_params'] = lambda I, b: fol
                    kw = {k: num_bool(v) for k, v in (('plot_contours', plots), ('compute_strains', strains)) if v is not None}
                    if folder == 'given':
                        kw['folder'] = fol
                    r = run(I, 'solids_GUI.solids_GUI', **kw)
                    clean(I, r, 'solids_GUI', wg)
                    for d in dirs:
                        if len(d) != 1 or d[0] is not fol:
                            raise Violation('files are read from %s and not from the given folder' % (d,), wg)
                    cons = from_fn((m.nnodes, P(2)), lambda ix: -restr(*ix), 'f')
                    workflow(I, F, m, full, cons, loads, r, bool(strains), plots is not False, wg)
                s.add('solids_GUI, folder %s, plots %s, strains %s' % (folder, plots, strains), wg, f)

    wr = where('preprocesor.readin')
    for given in (True, False):
        def f(given=given):
            I = new()
            seen = {}

            def read(I, fname, a, kw):
                d, n = path_of(fname)
                if n not in FILES:
                    raise Violation('file %s is read' % n, wr)
                if given and (len(d) != 1 or d[0] is not fol) or not given and d != ('',):
                    raise Violation('%s is read from %s' % (n, d), wr)
                kind = 'f'
                dt = kw.get('dtype')
                if dt is not None:
                    from ..npfun import dkind
                    kind = dkind(I, dt)
                nd = kw.get('ndmin')
                if not (isinstance(nd, Num) and nd.p == P(2)):
                    raise Violation('%s with a single row is not read as a table (ndmin)' % n, wr)
                if kind != ('i' if n == 'eles.txt' else 'f'):
                    raise Violation('%s is read with type %s' % (n, kind), wr)
                for k in kw:
                    if k not in ('dtype', 'ndmin', 'fname'):
                        raise Undecided('option %s of loadtxt' % k)
                if a:
                    raise Undecided('options of loadtxt')
                seen[n] = input_arr(n, (size('rows' + n), size('cols' + n)), kind)
                return seen[n]
            I.file_hook = read
            fol = Opq('folder')
            r = run(I, 'preprocesor.readin', **({'folder': fol} if given else {}))
            clean(I, r, 'readin', wr)
            v = tup(r.value, 4, 'readin')
            for x, n in zip(v, FILES):
                if n not in seen:
                    raise Violation('%s is not read' % n, wr)
                same_arr(x, seen[n], 'table of %s' % n, wr)
        s.add('tables read from a folder' if given else 'tables read from the current folder', wr, f)

    we = where('preprocesor.echomod')
    ECHO = {'KNODES.txt': 'nodes', 'KMATES.txt': 'mats', 'KELEMS.txt': 'elements', 'KLOADS.txt': 'loads'}
    for given in (True, False):
        def f(given=given):
            I = new()
            fol = Opq('folder')
            tabs = {k: input_arr(k, (size('rows_' + k), size('cols_' + k)), 'i' if k == 'elements' else 'f')
                    for k in ('nodes', 'mats', 'elements', 'loads')}
            r = run(I, 'preprocesor.echomod', *tabs.values(), **({'folder': fol} if given else {}))
            clean(I, r, 'echomod', we)
            if any(not isinstance(e, tuple) for e in r.effects):
                raise Undecided('files written in a loop or under a condition')
            wrote = {}
            for e in r.effects:
                if e[0] == 'savetxt':
                    d, n = path_of(e[1])
                    if given and (len(d) != 1 or d[0] is not fol) or not given and d != ('',):
                        raise Violation('%s is written to %s' % (n, d), we)
                    wrote[n] = e[2]
                elif e[0] == 'call' and e[1] not in ('print',):
                    raise Undecided('call of %s' % e[1])
            if not wrote:
                raise Undecided('files written')
            if set(wrote) != set(ECHO):
                raise Violation('files %s are written instead of %s' % (sorted(wrote), sorted(ECHO)), we)
            for n, k in ECHO.items():
                same_arr(wrote[n], tabs[k], 'table in %s' % n, we)
        s.add('echo of the tables in a folder' if given else 'echo of the tables in the current folder', we, f)
