"""C01: symbolic analysis yields a valid elimination structure."""
from c02 import *
import stdmodel

ASSUMPTIONS = ['the per-iteration loop contracts hold for arbitrary ghost functions; the whole loop follows by induction over its iterations (mathematical lemma)',
               'std::set_union, set_intersection, set_difference, sort, reverse, accumulate, max_element and stack follow their library specification (trusted model)',
               'mathematical lemma: eliminating a variable at the top of the tree paths between the cliques that contain it, and putting it in the separators of the other '
               'nodes on these paths, gives the running intersection property; the whole analysis is also run on concrete clique lists (bounded)',
               'precondition: cliques are non-empty lists of distinct non-negative variables']
CO = ('conex/clique_ordering.cc', ('conex',))
SN = ('conex/supernodal_solver.cc', ('conex',))
TU = ('conex/tree_utils.cc', ('conex',))


def fun(nm, k=1):
    return F(nm, *([Z] * (k + 1)))


def ivec(f, n):
    return Vec(n, lambda k: isimp(f(I(k))), 'int')


def ivv(f, L, n):
    """list of lists: f(i, j), length L(i)"""
    return Vec(n, lambda i: Vec(isimp(L(I(i))), (lambda ii: lambda j: isimp(f(ii, I(j))))(I(i)), 'int'), 'std::vector<int>')


@contract('C01', 'PathInTree', [TU])
def path(ex):
    """emitted: exactly the nodes above one end but not above the other, each once, and then the lowest common one"""
    n = ex.int('n', 1)
    par, dep, comp = fun('par'), fun('dep'), fun('comp')
    A = F('A', Z, Z, z3.BoolSort())          # A(a, v): a is v or above v
    a = ex.int('a', 0)                       # any node
    ex.assume(a < n)
    x0, y0 = ex.int('x0', 0), ex.int('y0', 0)
    ex.assume(z3.And(x0 < n, y0 < n, comp(x0) == comp(y0)))

    def node(v):
        """a rooted tree at node v"""
        ex.assume(z3.And(par(v) >= 0, par(v) < n, dep(v) >= 0, z3.Implies(dep(v) == 0, comp(v) == v), comp(par(v)) == comp(v),
                         z3.Implies(dep(v) > 0, dep(par(v)) == dep(v) - 1), z3.Implies(dep(v) == 0, par(v) == v)))

    def above(b, v):
        ex.assume(z3.And(A(b, v) == z3.Or(b == v, z3.And(dep(v) > 0, A(b, par(v)))), z3.Implies(A(b, v), dep(b) <= dep(v)), z3.Implies(z3.And(A(b, v), dep(b) == dep(v)), b == v)))

    def around(x, y):
        for v in (x, y):
            node(v)
        for b in (a, x, y):
            for v in (x, y):
                above(b, v)
                above(b, par(v))
            ex.assume(dep(b) >= 0)
    around(x0, y0)
    c = lambda v: z3.If(v, 1, 0)
    # nodes of the way from x0 to x that are emitted: above x0 and not above x
    gone = lambda x, y: c(z3.And(A(a, x0), z3.Not(A(a, x)))) + c(z3.And(A(a, y0), z3.Not(A(a, y))))
    state = lambda x, y: z3.And(z3.Implies(A(a, x), A(a, x0)), z3.Implies(A(a, y), A(a, y0)), z3.And(A(a, x), A(a, y)) == z3.And(A(a, x0), A(a, y0)))
    g = {}

    def havoc(ex_, s):
        x, y = ex.int('x', 0), ex.int('y', 0)
        ex.assume(z3.And(x < n, y < n, comp(x) == comp(y), comp(x) == comp(x0)))
        around(x, y)
        ex.assume(state(x, y))
        s['x'], s['y'] = x, y
        m = ex.int('m', 0)
        g.update(x=x, y=y, m=m)
        s['path'] = ivec(fun('emitted'), m)

    def first(ex_, s):
        x, y = I(s['x']), I(s['y'])
        return [('starts at the ends', z3.And(x == x0, y == y0)), ('nothing emitted yet', eqi(s['path'].n, 0))]

    def after(ex_, s):
        x, y, p = I(s['x']), I(s['y']), s['path']
        v = I(p.at(g['m']))
        j = ex.int('j', 0)
        return [('ends are nodes of the same tree', z3.And(x >= 0, x < n, y >= 0, y < n, comp(x) == comp(y), comp(x) == comp(x0))),
                ('one more node', eqi(p.n, g['m'] + 1)), ('earlier nodes are kept', z3.Implies(j < g['m'], I(p.at(j)) == fun('emitted')(j))),
                ('the nodes above both ends are the same', state(x, y)),
                ('emitted when it is left, once', gone(x, y) == gone(g['x'], g['y']) + c(v == a)),
                ('an emitted node is not above both ends', z3.Implies(v == a, z3.Not(z3.And(A(a, x0), A(a, y0)))))]
    inv = Step(havoc, after, first)
    inv.measure = lambda ex_, s: isimp(dep(I(s['x'])) + dep(I(s['y'])))
    ex.invariants[('PathInTree', 0)] = inv
    fresh = ex.new(ivec(par, n), 'tree'), ex.new(ivec(dep, n), 'depth')
    r = ex.run('conex::PathInTree', [x0, y0, fresh[0], fresh[1]])
    ex.oblige('does not throw', r[0] == 'ret')
    p = r[1]
    ex.oblige('one node after the loop', eqi(p.n, g['m'] + 1))
    last = I(p.at(g['m']))
    j = ex.int('j', 0)
    ex.oblige('the other nodes are kept', z3.Implies(j < g['m'], I(p.at(j)) == fun('emitted')(j)))
    ex.oblige('the last node is above both ends, and any node above both ends is above it', z3.And(A(a, x0), A(a, y0)) == A(a, last))
    ex.oblige('emitted: above exactly one end', gone(g['x'], g['y']) == c(z3.Xor(A(a, x0), A(a, y0))))


@contract('C01', 'Relabel', [SN])
def relabel01(ex):
    m, n = ex.int('m', 0), ex.int('n', 0)
    x, lab = fun('x'), fun('lab')
    g = {}

    def havoc(ex_, s):
        g['i'] = I(s.i)
        s['i'] = s.i
        s['y'] = ivec(fun('y'), m)
        ex.assume(z3.Implies(g['i'] < m, z3.And(x(g['i']) >= 0, x(g['i']) < n)))

    def after(ex_, s):
        k = ex.int('k', 0)
        return [('next entry', eqi(s['i'], g['i'] + 1)), ('size', eqi(s['y'].n, m)),
                ('the label of this entry; other entries are kept', z3.Implies(k < m, I(s['y'].at(k)) == z3.If(k == g['i'], lab(x(g['i'])), fun('y')(k))))]
    ex.invariants[('Relabel', 0)] = Step(havoc, after, lambda ex_, s: [('first entry', eqi(s['i'], 0)), ('one label per entry', eqi(s['y'].n, m))],
                                         lambda ex_, s: ex.oblige('every entry', eqi(g['i'], m)))
    r = ex.run('conex::Relabel', [ex.new(ivec(x, m), 'x'), ex.new(ivec(lab, n), 'labels')])
    ex.oblige('does not throw', r[0] == 'ret')
    k = ex.int('k2', 0)
    ex.assume(k < m)
    ex.oblige('the list is returned', land(eqi(r[1].n, m), eqi(r[1].at(k), fun('y')(k))))


def get_max(spec, tag):
    @contract('C01', 'GetMax (%s)' % tag, [spec])
    def p(ex):
        n = ex.int('n', 1)
        f, L = fun('cl', 2), fun('L')
        u, v = ex.int('u', 0), ex.int('v', 0)            # any entry
        wu, wv = fun('wu', 0), fun('wv', 0)
        ex.assume(z3.And(L(0) >= 1, u < n, v < L(u)))
        g = {}
        occurs = lambda m: z3.And(0 <= wu(), wu() < n, 0 <= wv(), wv() < L(wu()), f(wu(), wv()) == m)

        def havoc(ex_, s):
            m = ex.int('m')
            g['i'] = I(s.i)
            ex.assume(z3.Implies(u < g['i'], m >= f(u, v)))
            ex.assume(L(g['i']) >= 1)
            s['max'] = g['m'] = m

        def after(ex_, s):
            return [('at least the entries of the cliques so far', z3.Implies(u <= g['i'], I(s['max']) >= f(u, v)))]

        def havoc1(ex_, s):
            m = ex.int('mi')
            g['j'] = I(s.i)
            ex.assume(z3.And(z3.Implies(z3.Or(u < g['i'], z3.And(u == g['i'], v < g['j'])), m >= f(u, v)), m >= g['m']))
            s['max'] = g['mi'] = m

        def after1(ex_, s):
            w = I(s['max'])
            return [('at least the entries so far', z3.And(z3.Implies(z3.Or(u < g['i'], z3.And(u == g['i'], v <= g['j'])), w >= f(u, v)), w >= g['m'])),
                    ('an entry or what it was', z3.Or(w == g['mi'], w == f(g['i'], g['j'])))]
        ex.invariants[('GetMax', 0)] = Step(havoc, after, lambda ex_, s: [('starts with an entry', eqi(s['max'], f(0, 0)))],
                                            lambda ex_, s: ex.oblige('all cliques', eqi(g['i'], n)))
        ex.invariants[('GetMax', 1)] = Step(havoc1, after1, lambda ex_, s: [('nothing lost', I(s['max']) >= g['m'])],
                                            lambda ex_, s: ex.oblige('all entries', eqi(g['j'], L(g['i']))))
        r = ex.run('conex::GetMax', [ex.new(ivv(f, L, n), 'cliques')])
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('no entry is larger', I(r[1]) >= f(u, v))
    return p


get_max(CO, 'clique_ordering')
get_max(SN, 'supernodal_solver')


@contract('C01', 'LinearIndex', [CO])
def linear_index(ex):
    n = ex.int('n', 1)
    i, j, k, l = (ex.int(x, 0) for x in 'ijkl')
    for x in (i, j, k, l):
        ex.assume(x < n)
    run = lambda a, b: I(ex.run('conex::LinearIndex', [a, b, n])[1])
    p = run(i, j)
    ex.oblige('symmetric', p == run(j, i))
    lo, hi = z3.If(i > j, j, i), z3.If(i > j, i, j)
    ex.oblige('column of the smaller index, row of the larger one', p == lo * n + hi)


@contract('C01', 'SymmetricMatrix', [CO])
def symmetric_matrix(ex):
    n = ex.int('n', 1)
    i, j = ex.int('i', 0), ex.int('j', 0)
    ex.assume(z3.And(i < n, j < n))
    li = F('li', Z, Z, Z)
    calls = []

    def cs(ex_, th, args):
        a = [ex.rv(x) for x in args]
        calls.append(a)
        ex.assume(z3.And(li(I(a[0]), I(a[1])) >= 0, li(I(a[0]), I(a[1])) < I(n) * I(n)))
        return isimp(li(I(a[0]), I(a[1])))
    ex.contracts['LinearIndex'] = cs
    for c in (False, True):
        m = ex.new(Struct('conex::SymmetricMatrix<std::vector<int>>', {'n_': n, 'data_': ivv(fun('d', 2), lambda k: z3.IntVal(1), imul(n, n))}), 'm')
        r = ex.run('conex::SymmetricMatrix<std::vector<int>>::operator()', [i, j], this=m, pred=lambda f: cast.sig(f).rstrip().endswith('const') == c)
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('the element at the position of the pair', place(ex, r[1], m)[0] == ('f', 'data_') and eqi(place(ex, r[1], m)[1][1], li(i, j)))
        ex.oblige('position of this pair', land(eqi(calls[-1][0], i), eqi(calls[-1][1], j), eqi(calls[-1][2], n)))


@contract('C01', 'GetUnvisited', [CO])
def get_unvisited(ex):
    n = ex.int('n', 0)
    x, u = fun('x'), ex.int('u', 0)
    g = {}

    def havoc(ex_, s):
        g['i'] = I(s.i)
        ex.assume(z3.Implies(u < g['i'], x(u) != 0))
        s['cnt'] = s.i
    ex.invariants[('GetUnvisited', 0)] = Step(havoc, lambda ex_, s: [('position', eqi(s['cnt'], g['i'] + 1)), ('visited so far', z3.Implies(u <= g['i'], x(u) != 0))],
                                              lambda ex_, s: [('first position', eqi(s['cnt'], 0))])
    r = ex.run('conex::GetUnvisited', [ex.new(ivec(x, n), 'x')])
    ex.oblige('does not throw', r[0] == 'ret')
    v = I(r[1])
    ex.oblige('an unvisited position, or -1', z3.Or(v == -1, z3.And(v >= 0, v < n, x(v) == 0)))
    ex.oblige('-1 only when everything is visited', z3.Implies(z3.And(v == -1, u < n), x(u) != 0))


# ---- set operations on sorted lists
def whole(ex, a, b, lv):
    """an iterator range is a whole list"""
    a, b = ex.load(a), ex.load(b)
    v = ex.rv(lv)
    ok = isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and a.lv.loc == b.lv.loc == lv.loc and a.lv.path[:-1] == b.lv.path[:-1] == lv.path
    return ok and ex.ctx.entails(z3.And(B(eqi(a.lv.path[-1][1], 0)), B(eqi(b.lv.path[-1][1], v.n))))


class SetOp:
    """library specification: sorted lists in, the sorted list of the union / intersection / difference out"""
    def __init__(self, ex, name):
        self.calls = []
        ex.std_hooks = getattr(ex, 'std_hooks', {})
        ex.std_hooks[name] = self
        for it in ('inserter', 'back_inserter'):
            ex.std_hooks[it] = lambda ex_, n, argnodes: Struct('$inserter', {'to': ptr(ex_.ev(argnodes[0]))})

    def __call__(self, ex, n, argnodes):
        a = [ex.ev(x) for x in argnodes]
        out = ex.load(a[4])
        k = len(self.calls)
        m = ex.int('setop%d_n' % k, 0)
        r = lambda n_=m: ivec(fun('setop%d' % k), n_)
        if isinstance(out, Struct) and out.t == '$inserter':
            to = out.fs['to'].lv
            self.calls.append((a, to, eqi(ex.rv(to).n, 0), m))
            ex.store(to, r())
        elif isinstance(out, Ptr) and out.lv.path[-1][0] == 'at':
            to = LV(out.lv.loc, out.lv.path[:-1])
            v = ex.rv(to)
            self.calls.append((a, to, eqi(out.lv.path[-1][1], 0), v.n))
            ex.store(to, r(v.n))
        else:
            raise Unsupported('output iterator')
        return Opaque('iterator')


def set_op(name, op, out):
    @contract('C01', name, [SN])
    def p(ex):
        n1, n2 = ex.int('n1', 0), ex.int('n2', 0)
        a, b = ex.new(ivec(fun('x1'), n1), 'x1'), ex.new(ivec(fun('x2'), n2), 'x2')
        log = SetOp(ex, op)
        res = ex.new(ivec(fun('old'), ex.int('n3', 0)), 'x3')
        r = ex.run('conex::' + name, [a, b] + ([ptr(res)] if out else []))
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('one set operation', len(log.calls) == 1)
        if len(log.calls) != 1:
            return
        args, to, clean, m = log.calls[0]
        ex.oblige('of the whole lists', (whole(ex, args[0], args[1], a) and whole(ex, args[2], args[3], b)) or (whole(ex, args[0], args[1], b) and whole(ex, args[2], args[3], a)))
        ex.oblige('starting with nothing', clean)
        v = ex.rv(res) if out else r[1]
        k = ex.int('k', 0)
        ex.assume(k < m)
        ex.oblige('the result is returned', land(eqi(v.n, m), eqi(v.at(k), fun('setop0')(k))))
        ex.oblige('the lists are kept', land(eqi(ex.rv(a).n, n1), eqi(ex.rv(b).n, n2)))
    return p


set_op('UnionOfSorted', 'set_union', False)
set_op('IntersectionOfSorted', 'set_intersection', True)


class SortModel:
    """library specification: the same entries in increasing order"""
    def __init__(self, ex):
        self.calls = []
        ex.std_hooks = getattr(ex, 'std_hooks', {})
        ex.std_hooks['sort'] = self

    def __call__(self, ex, n, argnodes):
        a, b = [ex.load(ex.ev(x)) for x in argnodes[:2]]
        if len(argnodes) != 2 or not isinstance(a, Ptr) or a.lv.path[-1][0] != 'at':
            raise Unsupported('sort')
        lv = LV(a.lv.loc, a.lv.path[:-1])
        if not whole(ex, a, b, lv):
            raise Unsupported('sort of a part')
        v = ex.rv(lv)
        self.calls.append((lv, v))
        ex.store(lv, ivec(fun('sorted%d' % (len(self.calls) - 1)), v.n))
        return None


@contract('C01', 'Sort', [SN])
def sort_(ex):
    n = ex.int('n', 0)
    v = ex.new(ivv(fun('v', 2), fun('L'), n), 'v')
    log = SortModel(ex)
    g = {}

    def havoc(ex_, s):
        i = ex.int('i', 0)
        s['i'] = g['i'] = i
        ex.store(v, ivv(fun('v', 2), fun('L'), n))
        log.calls.clear()

    def after(ex_, s):
        ok = len(log.calls) == 1
        p = place(ex, log.calls[0][0], v) if ok else None
        k = ex.int('k', 0)
        w = ex.rv(v)
        ex.assume(k < n)
        return [('next list', eqi(s['i'], g['i'] + 1)), ('one list is sorted', ok), ('the one at this position', p is not None and len(p) == 1 and eqi(p[0][1], g['i'])),
                ('others are kept', z3.Implies(k != g['i'], z3.And(I(w.at(k).n) == fun('L')(k), I(w.at(k).at(0)) == fun('v', 2)(k, 0))))]
    ex.invariants[('Sort', 0)] = Step(havoc, after, lambda ex_, s: [('first list', eqi(s['i'], 0))], lambda ex_, s: ex.oblige('all lists', I(g['i']) >= n))
    r = ex.run('conex::Sort', [ptr(v)])
    ex.oblige('does not throw', r[0] == 'ret')


# ---- elimination structure
def relabel_contract(ex_, th, args):
    """Relabel: the label of every entry"""
    x, l = value(ex_, args[0]), value(ex_, args[1])
    k = z3.Int(T.fresh_name('rk'))
    i = I(x.at(k))
    return Vec(x.n, lambda j: l.at(x.at(j)), 'int')


@contract('C01', 'SupernodesToData', [SN])
def supernodes(ex):
    """order: entry e of the ordering is clique order(e); positions are given to the variables of its supernode one after the other"""
    n, nc, nv = ex.int('n', 1), ex.int('nc', 1), ex.int('nv', 1)
    ex.assume(n == nc)
    o, sn, S, sep, R = fun('order'), fun('sn', 2), fun('S'), fun('sep', 2), fun('R')
    perm, pinv = fun('perm'), fun('pinv')
    P = fun('P')                     # number of variables of the supernodes before an entry
    k = ex.int('k', 0)               # any position
    g = {}
    order = ex.new(ivec(o, n), 'order')
    sns, seps = ex.new(ivv(sn, S, nc), 'supernodes'), ex.new(ivv(sep, R, nc), 'separators')
    ex.contracts['Relabel'] = relabel_contract
    log = SortModel(ex)
    total = []

    def acc(ex_, nd, argnodes):
        a = [ex.ev(x) for x in argnodes[:3]]
        p = ex.load(a[0])
        total.append((LV(p.lv.loc, p.lv.path[:-1]), a[0], a[1], ex.rv(a[2])))
        return ex.int('total')
    ex.std_hooks['accumulate'] = acc
    entry = lambda e: ex.assume(z3.And(0 <= o(e), o(e) < nc, S(o(e)) >= 0, R(o(e)) >= 0, P(e) >= 0, P(e + 1) == P(e) + S(o(e)), P(e + 1) <= nv))
    ex.assume(P(0) == 0)
    vecs = lambda: (ivec(perm, nv), ivec(pinv, nv))

    def lists(s):
        d = s['d']
        return d.fs['permutation'], d.fs['permutation_inverse']

    def put(s, **kw):
        d = s['d']
        s['d'] = Struct(d.t, dict(d.fs, **kw))
    inverse = lambda pm, pi, cnt: z3.Implies(k < cnt, z3.And(I(pi.at(k)) >= 0, I(pi.at(k)) < nv, z3.Implies(z3.And(0 <= I(pi.at(k)), I(pi.at(k)) < nv), I(pm.at(I(pi.at(k)))) == k)))

    def havoc0(ex_, s):
        e = g['e'] = I(s.i)
        ex.assume(z3.Implies(e < n, z3.And(P(e) >= 0)))
        entry(e)
        s['i'] = isimp(P(e))
        pm, pi = vecs()
        put(s, permutation=pm, permutation_inverse=pi)
        ex.assume(k < nv)
        ex.assume(inverse(pm, pi, P(e)))

    def after0(ex_, s):
        pm, pi = lists(s)
        return [('position', eqi(s['i'], P(g['e'] + 1))), ('positions of variables and variables at positions are inverse', inverse(pm, pi, P(g['e'] + 1)))]

    def havoc1(ex_, s):
        j = g['j'] = I(s.i)
        i = g['pos'] = P(g['e']) + j
        v = g['v'] = sn(o(g['e']), j)
        # precondition: supernodes hold distinct variables; none has got a position before
        ex.assume(z3.And(v >= 0, v < nv, z3.Implies(k < i, pinv(k) != v)))
        s['i'] = isimp(i)
        pm, pi = vecs()
        put(s, permutation=pm, permutation_inverse=pi)
        ex.assume(inverse(pm, pi, i))

    def after1(ex_, s):
        pm, pi = lists(s)
        q = ex.int('q', 0)
        i, v = g['pos'], g['v']
        return [('next position', eqi(s['i'], i + 1)), ('inverse so far', inverse(pm, pi, i + 1)),
                ('sizes', land(eqi(pm.n, nv), eqi(pi.n, nv))),
                ('this variable is at this position', z3.Implies(q < nv, I(pi.at(q)) == z3.If(q == i, v, pinv(q)))),
                ('this position is that of this variable', z3.Implies(q < nv, I(pm.at(q)) == z3.If(q == v, i, perm(q))))]
    ex.invariants[('SupernodesToData', 0)] = Step(havoc0, after0, lambda ex_, s: [('first position', eqi(s['i'], 0))], lambda ex_, s: ex.oblige('all entries', eqi(g['e'], n)))
    ex.invariants[('SupernodesToData', 1)] = Step(havoc1, after1, lambda ex_, s: [('position of the entry', eqi(s['i'], P(g['e'])))],
                                                  lambda ex_, s: ex.oblige('the whole supernode', eqi(g['j'], S(o(g['e'])))))

    # second loop: one entry of the ordering
    F2 = dict(cliques=('qc', 'qcn'), supernodes_original_labels=('qs', 'qsn'), separators_original_labels=('qt', 'qtn'))
    old = {f: ivv(fun(a, 2), fun(b), nc) for f, (a, b) in F2.items()}

    def havoc2(ex_, s):
        i = g['i'] = I(s.i)
        entry(i)
        s['i'] = s.i
        ex.oblige('sizes of the results', land(*[eqi(s['d'].fs[f].n, nc) for f in F2] + [eqi(s['d'].fs['supernode_size'].n, n)]))
        pm, pi = vecs()
        put(s, permutation=pm, permutation_inverse=pi, supernode_size=ivec(fun('qz'), n), **old)
        log.calls.clear()

    def after2(ex_, s):
        i, e = g['i'], o(g['i'])
        d = s['d'].fs
        out = [('next entry', eqi(s['i'], i + 1)), ('one list is sorted', len(log.calls) == 1)]
        if len(log.calls) == 1:
            j, m = ex.int('j', 0), ex.int('m', 0)
            v = log.calls[0][1]
            c, cl = d['cliques'].at(i), d['cliques']
            srt = fun('sorted0')
            out += [('sorted: positions of the separator', land(eqi(v.n, R(e)), z3.Implies(j < R(e), I(v.at(j)) == perm(sep(e, j))))),
                    ('separator labels: variables at the sorted positions', land(eqi(d['separators_original_labels'].at(i).n, R(e)),
                                                                              z3.Implies(j < R(e), I(d['separators_original_labels'].at(i).at(j)) == pinv(srt(j))))),
                    ('supernode labels', land(eqi(d['supernodes_original_labels'].at(i).n, S(e)), z3.Implies(j < S(e), I(d['supernodes_original_labels'].at(i).at(j)) == sn(e, j)))),
                    ('size of the supernode', eqi(d['supernode_size'].at(i), S(e))),
                    ('clique: supernode and separator', eqi(c.n, S(e) + R(e))),
                    ('clique: positions of the supernode', z3.Implies(j < S(e), I(c.at(j)) == perm(sn(e, j)))),
                    ('clique: positions of the separator', z3.Implies(z3.And(S(e) <= j, j < S(e) + R(e)), I(c.at(j)) == perm(pinv(srt(j - S(e)))))),
                    ('other entries are kept', z3.Implies(z3.And(m < nc, m != i), z3.And(*[z3.And(I(d[f].at(m).n) == fun(b)(m), I(d[f].at(m).at(0)) == fun(a, 2)(m, 0)) for f, (a, b) in F2.items()]))),
                    ('other sizes are kept', z3.Implies(z3.And(m < n, m != i), I(d['supernode_size'].at(m)) == fun('qz')(m)))]
        return out

    def each(ex_, s):
        g['t'] = I(s.i)
        g['c0'] = s['d'].fs['cliques']
        i = I(s['i'])
        s.ex = ex
        put(s, cliques=grown(g['t']))

    def grown(t):
        """clique i: the supernode and t entries of the separator"""
        i, e = g['i'], o(g['i'])
        own = lambda j: z3.If(I(j) < S(e), sn(e, I(j)), pinv(fun('sorted0')(I(j) - S(e))))
        return Vec(nc, lambda k_: Vec(isimp(z3.If(I(k_) == i, S(e) + I(t), fun('qcn')(I(k_)))), (lambda kk: lambda j: isimp(z3.If(kk == i, own(j), fun('qc', 2)(kk, I(j)))))(I(k_)), 'int'),
                   'std::vector<int>')

    def each_after(ex_, s):
        c, t = s['d'].fs['cliques'].at(g['i']), g['t']
        e = o(g['i'])
        j, m = ex.int('j3', 0), ex.int('m3', 0)
        w = s['d'].fs['cliques']
        return [('one more', eqi(c.n, S(e) + t + 1)), ('own variables, then separator variables', z3.Implies(j <= S(e) + t, I(c.at(j)) == I(grown(t + 1).at(g['i']).at(j)))),
                ('other cliques are kept', z3.Implies(z3.And(m < nc, m != g['i']), z3.And(I(w.at(m).n) == fun('qcn')(m), I(w.at(m).at(0)) == fun('qc', 2)(m, 0))))]

    def each_first(ex_, s):
        c = s['d'].fs['cliques'].at(g['i'])
        e, j = o(g['i']), ex.int('j4', 0)
        return [('starts with the supernode', land(eqi(c.n, S(e)), z3.Implies(j < S(e), I(c.at(j)) == sn(e, j))))]
    ex.invariants[('SupernodesToData', 2)] = Step(havoc2, after2, lambda ex_, s: [('first entry', eqi(s['i'], 0))], lambda ex_, s: ex.oblige('all entries of the ordering', eqi(g['i'], n)))
    ex.invariants[('SupernodesToData', 3)] = Step(each, each_after, each_first, lambda ex_, s: ex.oblige('the whole separator', eqi(g['t'], R(o(g['i'])))))
    r = ex.run('conex::SupernodesToData', [nv, order, sns, seps])
    ex.oblige('does not throw', r[0] == 'ret')
    d = r[1].fs
    ex.oblige('the order is reported', land(eqi(d['clique_order'].n, n), z3.Implies(k < n, I(d['clique_order'].at(k)) == o(k))))
    ok = len(total) == 1 and eqi(total[0][3], 0) and total[0][0].path and total[0][0].path[-1] == ('f', 'supernode_size')
    ex.oblige('N is the sum of the supernode sizes', ok if ok is False else land(ok, eqi(d['N'], ex.int('total'))))


def track(ex, names, result=None):
    """calls of own functions, in order, with loaded arguments"""
    calls = []
    for nm in names:
        def cs(ex_, th, args, nm=nm):
            calls.append((nm, args))
            return result(nm, args) if result else None
        ex.contracts[nm] = cs
    return calls


@contract('C01', 'FillIn', [CO])
def fill_in(ex):
    """a variable met again is eliminated by the last node of the tree path, and becomes a separator variable of every other node on it"""
    n, nv = ex.int('n', 1), ex.int('nv', 1)
    o, sn, S, sep, R = fun('order'), fun('sn', 2), fun('S'), fun('sep', 2), fun('R')
    el, Pn, pa = fun('el'), fun('pathlen'), fun('path')
    par, hgt = fun('par'), fun('hgt')
    tree = ex.new(Struct('conex::RootedTree', {'parent': ivec(par, n), 'height': ivec(hgt, n)}), 'tree')
    order = ex.new(ivec(o, n), 'order')
    sns, seps = ex.new(ivv(sn, S, n), 'supernodes'), ex.new(ivv(sep, R, n), 'separators')
    g = {'unions': []}

    def path_contract(ex_, th, args):
        g['path'] = [ex.rv(args[0]), ex.rv(args[1]), args[2], args[3]]
        m = ex.int('m', 1)
        g['m'] = m
        t = ex.int('t', 0)
        for q in (t, m - 1):
            ex.assume(z3.Implies(z3.And(q >= 0, q < m), z3.And(pa(q) >= 0, pa(q) < n)))
        return ivec(pa, m)

    def union_contract(ex_, th, args):
        g['unions'].append((value(ex, args[0]), args[0], value(ex, args[1])))
        return ivec(fun('union'), ex.int('ul', 0))
    ex.contracts['PathInTree'], ex.contracts['UnionOfSorted'] = path_contract, union_contract
    sorts = track(ex, ['Sort'])

    def havoc0(ex_, s):
        g['k0'] = I(s.i)
        q = fun('init')
        s['eliminated'] = ivec(lambda k: z3.If(k < g['k0'], I(n) + 1, q(k)), nv)

    def after0(ex_, s):
        k = ex.int('k', 0)
        return [('variables so far are not eliminated', land(eqi(s['eliminated'].n, nv), z3.Implies(z3.And(k <= g['k0']), I(s['eliminated'].at(k)) > n)))]

    def set_state(s):
        s['eliminated'] = ivec(el, nv)
        ex.store(seps, ivv(sep, R, n))

    def elim(v):
        ex.assume(z3.Or(el(v) == I(n) + 1, z3.And(el(v) >= 0, el(v) < n)))

    def havoc1(ex_, s):
        i = ex.int('i', 0)
        g['i'] = i
        s['i'] = i
        ex.assume(z3.Implies(i < n, z3.And(o(i) >= 0, o(i) < n)))
        set_state(s)

    def havoc2(ex_, s):
        g['j'] = I(s.i)
        v = g['v'] = sn(o(g['i']), g['j'])
        ex.assume(z3.And(v >= 0, v < nv, S(o(g['i'])) >= 0))
        elim(v)
        set_state(s)
        g.pop('path', None)
        g.pop('step', None)

    def after2(ex_, s):
        v, c = g['v'], o(g['i'])
        e, k = s['eliminated'], ex.int('k', 0)
        new = el(v) > n
        met = 'path' in g
        out = [('a path is used exactly for variables met before', new if not met else z3.Not(new)),
               ('clique that eliminates the variable', I(e.at(v)) == (pa(g['m'] - 1) if met else c)),
               ('other variables are kept', land(eqi(e.n, nv), z3.Implies(z3.And(k < nv, k != v), I(e.at(k)) == el(k))))]
        if met:
            a = g['path']
            ends = z3.Or(z3.And(I(a[0]) == c, I(a[1]) == el(v)), z3.And(I(a[1]) == c, I(a[0]) == el(v)))
            out += [('path between the two cliques', ends), ('in the clique tree', land(place(ex, a[2], tree) == (('f', 'parent'),), place(ex, a[3], tree) == (('f', 'height'),)))]
        else:
            q = ex.rv(seps)
            ex.assume(k < n)
            out += [('separators are kept', land(eqi(q.at(k).n, R(k)), eqi(q.at(k).at(0), sep(k, 0))))]
        return out

    def havoc3(ex_, s):
        t = ex.int('t', 0)
        ex.assume(t <= g['m'] - 1)
        s['j'] = g['t'] = t
        ex.store(seps, ivv(sep, R, n))
        g['unions'] = []

    def after3(ex_, s):
        u = g['unions']
        out = [('next node', eqi(s['j'], g['t'] + 1)), ('one union', len(u) == 1)]
        if len(u) == 1:
            (a, lv, b), w, k, node = u[0], ex.rv(seps), ex.int('k', 0), pa(g['t'])
            ex.assume(k < n)
            other = z3.Implies(k != node, z3.And(I(w.at(k).n) == R(k), I(w.at(k).at(0)) == sep(k, 0)))
            lists = (a, b) if ex.ctx.entails(B(eqi(b.n, 1))) else (b, a)
            out += [('of the separator of this node and the variable', land(eqi(lists[0].n, R(node)), eqi(lists[0].at(0), sep(node, 0)), eqi(lists[1].n, 1), eqi(lists[1].at(0), g['v']))),
                    ('becomes the separator of this node', land(eqi(w.at(node).n, ex.int('ul')), eqi(w.at(node).at(0), fun('union')(0)))), ('other separators are kept', other)]
        return out

    def last_node(ex_, s):
        ex.oblige('every node of the path but the last', eqi(g['t'], g['m'] - 1))
        e, k = s['eliminated'], ex.int('k', 0)
    ex.invariants[('FillIn', 0)] = Step(havoc0, after0, None, lambda ex_, s: ex.oblige('all variables', eqi(g['k0'], nv)))
    ex.invariants[('FillIn', 1)] = Step(havoc1, lambda ex_, s: [('next clique', eqi(s['i'], g['i'] + 1))],
                                        lambda ex_, s: [('first clique of the order', eqi(s['i'], 0))], lambda ex_, s: ex.oblige('all cliques', I(g['i']) >= n))
    ex.invariants[('FillIn', 2)] = Step(havoc2, after2, None, lambda ex_, s: ex.oblige('the whole supernode', eqi(g['j'], S(o(g['i'])))))
    ex.invariants[('FillIn', 3)] = Step(havoc3, after3, lambda ex_, s: [('first node', eqi(s['j'], 0))], last_node)

    def havoc4(ex_, s):
        i = ex.int('w', 0)
        ex.assume(i <= nv)
        g['w'] = s['i'] = i
        ex.assume(z3.Implies(i < nv, z3.Or(el(i) == I(n) + 1, z3.And(el(i) >= 0, el(i) < n))))
        s['eliminated'] = ivec(el, nv)
        g['before'] = ex.rv(sns)
        ex.store(sns, ivv(fun('q', 2), fun('qn'), n))

    def first4(ex_, s):
        q, k = ex.rv(sns), ex.int('k', 0)
        ex.assume(k < n)
        return [('first variable', eqi(s['i'], 0)), ('one empty list per clique', land(eqi(q.n, n), eqi(q.at(k).n, 0))), ('nothing is sorted yet', sorts == [])]

    def after4(ex_, s):
        i, q, k, j = g['w'], ex.rv(sns), ex.int('k', 0), ex.int('j', 0)
        ex.assume(k < n)
        mine = el(i) == k
        return [('next variable', eqi(s['i'], i + 1)), ('lists', eqi(q.n, n)),
                ('appended to the supernode of the clique that eliminates it, and to no other', I(q.at(k).n) == fun('qn')(k) + z3.If(mine, 1, 0)),
                ('it is the last variable', z3.Implies(z3.And(mine, fun('qn')(k) >= 0), I(q.at(k).at(fun('qn')(k))) == i)),
                ('earlier variables are kept', z3.Implies(j < fun('qn')(k), I(q.at(k).at(j)) == fun('q', 2)(k, j)))]
    ex.invariants[('FillIn', 4)] = Step(havoc4, after4, first4, lambda ex_, s: ex.oblige('every variable', eqi(g['w'], nv)))
    r = ex.run('conex::FillIn', [tree, nv, order, ptr(sns), ptr(seps)])
    ex.oblige('does not throw', r[0] == 'ret')
    lists = [ex.load(a[0]).lv for _, a in sorts]
    ex.oblige('separators and supernodes are sorted', any(same(l, sns) for l in lists) and any(same(l, seps) for l in lists))


def pick_args(ex, n):
    cl = ex.new(ivv(fun('cl', 2), fun('L'), n), 'cliques')
    order = ex.new(Vec(0, lambda k: 0, 'int'), 'order')
    sns = ex.new(Vec(0, lambda k: 0, 'std::vector<int>'), 'supernodes')
    seps = ex.new(Vec(0, lambda k: 0, 'std::vector<int>'), 'separators')
    return cl, order, sns, seps


@contract('C01', 'PickCliqueOrder', [CO])
def pick(ex):
    n = ex.int('n', 1)
    cl, order, sns, seps = pick_args(ex, n)
    leaf = ex.new(ivec(fun('leaf'), ex.int('nl', 0)), 'leaf')
    root = ex.int('root')
    calls = []

    def elimination(ex_, th, args):
        calls.append(('order', args, None))
        ex.store(ex.load(args[3]).lv, ivec(fun('order'), n))
        return None

    def fill(ex_, th, args):
        t = args[0]
        t = ex.load(t) if not isinstance(t, LV) else t
        calls.append(('fill', args, value(ex, args[2])))
        return None
    ex.contracts['GetCliqueEliminationOrder'], ex.contracts['FillIn'] = elimination, fill
    mx = ex.int('max')
    arg = []
    ex.contracts['GetMax'] = lambda ex_, th, args: (arg.append(args[0]), mx)[1]
    r = ex.run('conex::PickCliqueOrder', [cl, leaf, root, ptr(order), ptr(sns), ptr(seps), Ptr(None)], pred=lambda f: 'const vector<int> &' in cast.sig(f))
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('an elimination order, then fill-in', [c[0] for c in calls] == ['order', 'fill'])
    if [c[0] for c in calls] != ['order', 'fill']:
        return
    a, b = calls[0][1], calls[1][1]
    L = lambda x: ex.load(x).lv if isinstance(ex.load(x), Ptr) else x
    ex.oblige('of these cliques, with these leaves and this root', same(a[0], cl) and same(a[1], leaf) and eqi(ex.rv(a[2]), root))
    ex.oblige('into these lists', same(L(a[3]), order) and same(L(a[4]), sns) and same(L(a[5]), seps))
    ex.oblige('fill-in of the same tree', same(L(a[6]), b[0]))
    ex.oblige('fill-in for every variable', land(eqi(ex.rv(b[1]), mx + 1), len(arg) == 1 and same(arg[0], cl)))
    k = ex.int('k', 0)
    v = calls[1][2]
    ex.oblige('fill-in in the order found', land(eqi(v.n, n), z3.Implies(k < n, I(v.at(k)) == fun('order')(k))))
    ex.oblige('fill-in of the same lists', same(L(b[3]), sns) and same(L(b[4]), seps))
    t = ex.rv(L(a[6]))
    ex.oblige('one node per clique', land(eqi(t.fs['parent'].n, n), eqi(t.fs['height'].n, n)))
    o = ex.rv(order)
    ex.oblige('the order is kept', land(eqi(o.n, n), z3.Implies(k < n, I(o.at(k)) == fun('order')(k))))


@contract('C01', 'PickCliqueOrder without leaves', [CO])
def pick0(ex):
    n = ex.int('n', 1)
    cl, order, sns, seps = pick_args(ex, n)
    root = ex.int('root')
    ex.contracts['GetCliqueEliminationOrder'] = lambda ex_, th, args: calls.append((args, value(ex, args[1])))
    calls = []
    ex.contracts['FillIn'] = ex.contracts['GetMax'] = lambda ex_, th, args: ex.int('max') if len(args) == 1 else None
    r = ex.run('conex::PickCliqueOrder', [cl, root, ptr(order), ptr(sns), ptr(seps), Ptr(None)], pred=lambda f: 'const vector<int> &' not in cast.sig(f))
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('one elimination order', len(calls) == 1)
    if len(calls) == 1:
        a, leaf = calls[0]
        ex.oblige('no leaf preferences', eqi(leaf.n, 0))
        ex.oblige('of these cliques with this root', same(a[0], cl) and eqi(ex.rv(a[2]), root))
        ex.oblige('into these lists', same(ex.load(a[3]), order) and same(ex.load(a[4]), sns) and same(ex.load(a[5]), seps))


def get_data(leaves):
    @contract('C01', 'GetData%s' % (' with leaves' if leaves else ''), [SN])
    def p(ex):
        n = ex.int('n', 1)
        cl = ex.new(ivv(fun('cl', 2), fun('L'), n), 'cliques')
        leaf = ex.new(ivec(fun('leaf'), n), 'leaf')
        root = ex.int('root')
        calls = []
        got = {}

        def sort_c(ex_, th, args):
            lv = ex.load(args[0]).lv
            got['sorted'] = (lv, ex.rv(lv))
            calls.append('Sort')
            ex.store(lv, ivv(fun('sc', 2), fun('L'), n))

        def pick_c(ex_, th, args):
            calls.append('PickCliqueOrder')
            got['pick'] = (args, value(ex, args[0]))
            o, s, t = [ex.load(a).lv for a in args[3 if leaves else 2:][:3]]
            ex.store(o, ivec(fun('order'), n))
            ex.store(s, ivv(fun('sn', 2), fun('S'), n))
            ex.store(t, ivv(fun('sep', 2), fun('R'), n))

        def data_c(ex_, th, args):
            calls.append('SupernodesToData')
            got['data'] = (args, [value(ex, a) for a in args[1:4]])
            return Struct('conex::MatrixData', {'id': 1234})
        ex.contracts['Sort'], ex.contracts['PickCliqueOrder'], ex.contracts['SupernodesToData'] = sort_c, pick_c, data_c
        mx, arg = ex.int('max'), []
        ex.contracts['GetMax'] = lambda ex_, th, args: (arg.append(value(ex, args[0])), mx)[1]
        r = ex.run('conex::GetData', [cl] + ([leaf] if leaves else []) + [root], pred=lambda f: (cast.sig(f).count('&') == 2) == leaves)
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('sort, order, structure', calls == ['Sort', 'PickCliqueOrder', 'SupernodesToData'])
        if calls != ['Sort', 'PickCliqueOrder', 'SupernodesToData']:
            return
        k = ex.int('k', 0)
        ex.assume(k < n)
        is_list = lambda v, f, L: land(eqi(v.n, n), eqi(v.at(k).n, fun(L)(k)), eqi(v.at(k).at(0), fun(f, 2)(k, 0)))
        ex.oblige('a copy of the cliques is sorted', land(not same(got['sorted'][0], cl), is_list(got['sorted'][1], 'cl', 'L')))
        a, c = got['pick']
        ex.oblige('the sorted cliques are ordered', is_list(c, 'sc', 'L'))
        ex.oblige('with this root%s' % (' and these leaves' if leaves else ''), land(eqi(ex.rv(a[2 if leaves else 1]), root), same(a[1], leaf) if leaves else True))
        b, (o, s, t) = got['data']
        ex.oblige('structure of the order found', land(eqi(o.n, n), eqi(o.at(k), fun('order')(k)), is_list(s, 'sn', 'S'), is_list(t, 'sep', 'R')))
        ex.oblige('one position for every variable', land(eqi(ex.rv(b[0]), mx + 1), len(arg) == 1 and z3.Or(B(is_list(arg[0], 'cl', 'L')), B(is_list(arg[0], 'sc', 'L')))))
        ex.oblige('the structure is returned', r[1].fs.get('id') == 1234)
        ex.oblige('the cliques are kept', is_list(ex.rv(cl), 'cl', 'L'))
    return p


get_data(False)
get_data(True)


@contract('C01', 'GetCliqueEliminationOrder', [CO])
def elimination_order(ex):
    """order, separators and tree of one search (the last one); supernodes: clique without its separator"""
    n = ex.int('n', 1)
    cl, order, sns, seps = pick_args(ex, n)
    leaf = ex.new(ivec(fun('leaf'), n), 'leaf')
    root = ex.int('root', -1)
    tree = ex.new(Struct('conex::RootedTree', {'parent': ivec(fun('p_in'), n), 'height': ivec(fun('h_in'), n)}), 'tree')
    calls = []

    def helper(ex_, th, args):
        k = len(calls)
        L = [ex.load(a) for a in args]
        where = [x.lv if isinstance(x, Ptr) else None for x in L]
        t = ex.rv(where[6])
        calls.append(dict(args=args, where=where, root=ex.rv(args[2]), sizes=(ex.rv(where[4]).n, t.fs['parent'].n, t.fs['height'].n), ret=ex.int('better%d' % k, 0)))
        ex.store(where[5], ivec(fun('order%d' % k), n))
        ex.store(where[4], ivv(fun('sep%d' % k, 2), fun('R%d' % k), n))
        ex.store(where[6], Struct('conex::RootedTree', {'parent': ivec(fun('p%d' % k), n), 'height': ivec(fun('h%d' % k), n)}))
        return calls[-1]['ret']
    ex.contracts['PickCliqueOrderHelper'] = helper
    log = SetOp(ex, 'set_difference')
    g = {}
    def last():
        return len(calls) - 1

    def havoc(ex_, s):
        t = g['t'] = I(s.i)
        k = last()
        e = g['e'] = fun('order%d' % k)(t)
        ex.assume(z3.Implies(t < n, z3.And(e >= 0, e < n)))
        # a separator is a part of its clique
        ex.assume(z3.And(fun('R%d' % k)(e) >= 0, fun('L')(e) >= fun('R%d' % k)(e)))
        ex.oblige('one list per clique', eqi(ex.rv(sns).n, n))
        ex.store(sns, ivv(fun('q', 2), fun('qn'), n))
        log.calls.clear()

    def after(ex_, s):
        e, k = g['e'], last()
        size = fun('L')(e) - fun('R%d' % k)(e)
        w, j = ex.rv(sns), ex.int('j', 0)
        ex.assume(j < n)
        out = [('others are kept', z3.Implies(j != e, z3.And(I(w.at(j).n) == fun('qn')(j), I(w.at(j).at(0)) == fun('q', 2)(j, 0)))),
               ('size: variables of the clique that are not in its separator', eqi(w.at(e).n, size))]
        if log.calls:
            args, to, clean, m = log.calls[0]
            out += [('one set difference', len(log.calls) == 1), ('of the clique', whole(ex, args[0], args[1], cl / ('at', isimp(e)))),
                    ('and its separator', whole(ex, args[2], args[3], seps / ('at', isimp(e)))), ('from the start of its supernode', clean),
                    ('into its supernode', place(ex, to, sns) is not None and eqi(place(ex, to, sns)[0][1], e))]
        else:
            out += [('no set difference only when nothing is left', size == 0)]
        return out
    ex.invariants[('GetCliqueEliminationOrder', 0)] = Step(havoc, after, None, lambda ex_, s: ex.oblige('every clique of the order', eqi(g['t'], n)))
    r = ex.run('conex::GetCliqueEliminationOrder', [cl, leaf, root, ptr(order), ptr(sns), ptr(seps), ptr(tree)])
    ex.oblige('does not throw', r[0] == 'ret')
    if not calls:
        ex.oblige('the cliques are ordered', False)
        return
    for c in calls:
        a, w = c['args'], c['where']
        ex.oblige('of these cliques with these leaves', same(a[0], cl) and same(a[1], leaf))
        ex.oblige('into these lists', same(w[4], seps) and same(w[5], order))
        ex.oblige('room for every clique', land(*[eqi(x, n) for x in c['sizes']]))
        if c is calls[0]:
            ex.oblige('starts from the given root', eqi(c['root'], root))
    if len(calls) > 1:
        ex.oblige('searched again only without a given root', eqi(root, -1))
        ex.oblige('from the root that was found', eqi(calls[-1]['root'], calls[-2]['ret']))
    k, j = last(), ex.int('j2', 0)
    ex.assume(j < n)
    t = ex.rv(tree)
    ex.oblige('tree of the last search', land(eqi(t.fs['parent'].n, n), eqi(t.fs['height'].n, n), eqi(t.fs['parent'].at(j), fun('p%d' % k)(j)), eqi(t.fs['height'].at(j), fun('h%d' % k)(j))))
    o, q = ex.rv(order), ex.rv(seps)
    ex.oblige('order of the last search', land(eqi(o.n, n), eqi(o.at(j), fun('order%d' % k)(j))))
    ex.oblige('separators of the last search', land(eqi(q.n, n), eqi(q.at(j).n, fun('R%d' % k)(j)), eqi(q.at(j).at(0), fun('sep%d' % k, 2)(j, 0))))


# ---- search for an order
SYM = 'conex::SymmetricMatrix<std::vector<int>>'
li, Xl, Xf = F('li', Z, Z, Z), fun('XL'), fun('X', 2)      # position of a pair; common variables of a pair (at its position)
known = F('known', Z, z3.BoolSort())


def pair_index(ex, nn):
    """LinearIndex: symmetric, in range"""
    def cs(ex_, th, args):
        a, b = I(ex_.rv(args[0])), I(ex_.rv(args[1]))
        pair_facts(ex, a, b, nn)
        return isimp(li(a, b))
    return cs


def pair_facts(ex, a, b, nn):
    ex.assume(z3.And(li(a, b) == li(b, a), li(a, b) >= 0, li(a, b) < I(nn), Xl(li(a, b)) >= 0))


def common(kn, nn):
    """intersections: every element is empty or holds the common variables of its pair"""
    return Vec(nn, lambda p: Vec(isimp(z3.If(kn(I(p)), Xl(I(p)), 0)), (lambda pp: lambda j: isimp(Xf(pp, I(j))))(I(p)), 'int'), 'std::vector<int>')


@contract('C01', 'Weight::get_weight', [CO])
def get_weight(ex):
    n = ex.int('n', 1)
    nn = imul(n, n)
    i, j = ex.int('i', 0), ex.int('j', 0)
    ex.assume(z3.And(i < n, j < n))
    nl = ex.int('nl', 0)
    ex.assume(z3.Or(nl == 0, nl == n))
    leaf = fun('leaf')
    data = ex.new(Struct(SYM, {'n_': n, 'data_': common(lambda p: known(p), nn)}), 'm')
    cl = ex.new(ivv(fun('cl', 2), fun('L'), n), 'cliques')
    lv = ex.new(ivec(leaf, nl), 'leaf')
    w = ex.new(Struct('conex::Weight', {'num_nodes_': n, 'intersections_': ptr(data), 'cliques_sorted_': ptr(cl), 'valid_leaf_': ptr(lv)}), 'w')
    ex.contracts['LinearIndex'] = pair_index(ex, nn)
    calls = []

    def inter(ex_, th, args):
        a, b = [value(ex, x) for x in args[:2]]
        to = ex.load(args[2]).lv
        calls.append((a, b, to))
        p = li(i, j)
        ex.store(to, Vec(isimp(Xl(p)), lambda k: isimp(Xf(p, I(k))), 'int'))
    ex.contracts['IntersectionOfSorted'] = inter
    r = ex.run('conex::Weight::get_weight', [i, j], this=w)
    ex.oblige('does not throw', r[0] == 'ret')
    p = li(i, j)
    for a, b, to in calls:
        one = lambda v, k: land(eqi(v.n, fun('L')(k)), eqi(v.at(0), fun('cl', 2)(k, 0)))
        ex.oblige('common variables of these two cliques', z3.Or(B(land(one(a, i), one(b, j))), B(land(one(a, j), one(b, i)))))
        q = place(ex, to, data)
        ex.oblige('stored at the position of the pair', q is not None and q[0] == ('f', 'data_') and eqi(q[1][1], p))
    d = ex.rv(data / ('f', 'data_'))
    k, t = ex.int('k', 0), ex.int('t', 0)
    ex.assume(z3.And(k < I(nn), t < Xl(p)))
    ex.oblige('the common variables are known', land(eqi(d.at(p).n, Xl(p)), eqi(d.at(p).at(t), Xf(p, t))))
    ex.oblige('other pairs are kept', z3.Implies(k != p, z3.And(I(d.at(k).n) == z3.If(known(k), Xl(k), 0), I(d.at(k).at(0)) == Xf(k, 0))))
    ex.oblige('at least the number of common variables', I(r[1]) >= Xl(p))


@contract('C01', 'GetMaxWeightedDegreeNode', [CO])
def degree(ex):
    n, ne = ex.int('n', 1), ex.int('ne', 0)
    nn = imul(n, n)
    a, b = fun('ea'), fun('eb')
    data = ex.new(Struct(SYM, {'n_': n, 'data_': common(lambda p: known(p), nn)}), 'm')
    edges = ex.new(Vec(ne, lambda k: Struct('std::pair', {'first': isimp(a(I(k))), 'second': isimp(b(I(k)))}), 'std::pair<int, int>'), 'edges')
    ex.contracts['LinearIndex'] = pair_index(ex, nn)
    g = {}

    def havoc0(ex_, s):
        s['weights'] = ivec(fun('w0'), n)

    def havoc(ex_, s):
        e = g['e'] = I(s.i)
        ex.assume(z3.Implies(e < ne, z3.And(a(e) >= 0, a(e) < n, b(e) >= 0, b(e) < n)))
        s['weights'] = ivec(fun('w1'), n)
    ex.invariants[('GetMaxWeightedDegreeNode', 0)] = Step(havoc0, lambda ex_, s: [('one weight per node', eqi(s['weights'].n, n))])
    ex.invariants[('GetMaxWeightedDegreeNode', 1)] = Step(havoc, lambda ex_, s: [('one weight per node', eqi(s['weights'].n, n))])
    r = ex.run('conex::GetMaxWeightedDegreeNode', [n, edges, data])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('one weight per node is returned', eqi(r[1].n, n))


def si(x):
    return z3.Int('unset') if isinstance(x, Uninit) else I(x)


class Search:
    """state of the search: ord lists the visited nodes, pos is its inverse; sp: position on the stack"""
    def __init__(self, ex, tag, n):
        self.n, self.ex = n, ex
        self.cnt, self.top = ex.int('cnt' + tag, 0), ex.int('top' + tag, 0)
        self.ord, self.vis, self.st = fun('ord' + tag), fun('vis' + tag), fun('st' + tag)
        self.par, self.hgt = fun('par' + tag), fun('hgt' + tag)
        self.sep, self.R = fun('sep' + tag, 2), fun('R' + tag)
        self.pos, self.sp, self.comp = fun('pos' + tag), fun('sp' + tag), fun('comp' + tag)
        self.C = ex.int('C' + tag)
        self.known = F('known' + tag, Z, z3.BoolSort())
        self.sepk = lambda k, j: self.sep(k, j)


@contract('C01', 'PickCliqueOrderHelper', [CO], budget=240)
def search(ex):
    n = ex.int('n', 1)
    nn = imul(n, n)
    root = ex.int('root', -1)
    ex.assume(root < n)
    nl = ex.int('nl', 0)
    ex.assume(z3.Or(nl == 0, nl == n))
    u, w, q, j = ex.int('u', 0), ex.int('w', 0), ex.int('q', 0), ex.int('j', 0)   # any two cliques, any position of the order, of a separator
    ex.assume(z3.And(u < n, w < n, u != w))
    share = lambda a, b: Xl(li(a, b)) >= 1
    cl = ex.new(ivv(fun('cl', 2), fun('L'), n), 'cliques')
    leaf = ex.new(ivec(fun('leaf'), nl), 'leaf')
    data = ex.new(Struct(SYM, {'n_': n, 'data_': common(lambda p: known(p), nn)}), 'intersections')
    order = ex.new(ivec(fun('old_order'), ex.int('no', 0)), 'order')
    seps = ex.new(Vec(n, lambda k: Vec(0, lambda j_: 0, 'int'), 'std::vector<int>'), 'separators')
    tree = ex.new(Struct('conex::RootedTree', {'parent': ivec(fun('p_in'), n), 'height': ivec(fun('h_in'), n)}), 'tree')
    ex.contracts['LinearIndex'] = pair_index(ex, nn)
    g = {}
    wt = F('wt', Z, Z, Z)

    def weight(ex_, th, args):
        a, b = I(ex.rv(args[0])), I(ex.rv(args[1]))
        pair_facts(ex, a, b, nn)
        p = li(a, b)
        kn = g['known']
        g['known'] = lambda x: z3.Or(kn(x), x == p)
        ex.store(data / ('f', 'data_'), common(g['known'], nn))
        ex.assume(wt(a, b) >= Xl(p))
        return isimp(wt(a, b))
    ex.contracts['get_weight'] = weight
    ex.contracts['GetMaxWeightedDegreeNode'] = lambda ex_, th, args: ivec(fun('degree'), n)
    unv = ex.int('unvisited')

    def unvisited(ex_, th, args):
        v = value(ex, args[0])
        ex.oblige('looks at all nodes', eqi(v.n, n))
        for k in (u, w):
            ex.assume(z3.Implies(unv == -1, I(v.at(k)) != 0))
        ex.assume(z3.Or(unv == -1, z3.And(unv >= 0, unv < n, I(v.at(unv)) == 0)))
        return unv
    ex.contracts['GetUnvisited'] = unvisited
    ex.std_hooks = getattr(ex, 'std_hooks', {})

    def max_element(ex_, nd, argnodes):
        a, b = [ex.load(ex.ev(x)) for x in argnodes[:2]]
        v = stdmodel.ptr_range(ex, a, b)
        p = ex.int('argmax', 0)
        ex.assume(z3.And(p <= I(v.n), z3.Implies(I(v.n) > 0, p < I(v.n))))
        return Ptr(LV(a.lv.loc, a.lv.path[:-1] + (('at', iadd(a.lv.path[-1][1], p)),)), False)

    def reverse(ex_, nd, argnodes):
        a, b = [ex.load(ex.ev(x)) for x in argnodes[:2]]
        lv = LV(a.lv.loc, a.lv.path[:-1])
        if not whole(ex, a, b, lv):
            raise Unsupported('reverse of a part')
        v = ex.rv(lv)
        ex.store(lv, Vec(v.n, lambda k: v.at(isubt(isubt(v.n, 1), k)), v.et))
    ex.std_hooks['max_element'], ex.std_hooks['reverse'] = max_element, reverse

    # -- invariant of the search, for the nodes and positions given
    def now(s):
        """current values; ghost: pos, sp, comp, C, known"""
        t = ex.rv(tree).fs
        o, st, v = ex.rv(order), s['node_stack'], s['visited']
        sp_ = ex.rv(seps)
        return dict(cnt=I(o.n), ord=lambda k: si(o.at(k)), top=I(st.n), st=lambda k: si(st.at(k)), vis=lambda k: I(v.at(k)), par=lambda k: I(t['parent'].at(k)),
                    hgt=lambda k: I(t['height'].at(k)), R=lambda k: I(sp_.at(k).n), sep=lambda k, j_: si(sp_.at(k).at(j_)), **{k: g[k] for k in ('pos', 'sp', 'comp', 'C', 'known')})

    def facts(S, nodes, places, pairs, stacks):
        """list of (name, fact); S: state"""
        n_ = I(n)
        out = [('lists', z3.And(S['cnt'] >= 0, S['top'] >= 1))]
        for a in nodes:
            v = S['vis'](a) != 0
            at = lambda x: z3.And(0 <= S['pos'](x), S['pos'](x) < S['cnt'])
            out += [('exactly the visited nodes are in the order', v == z3.And(at(a), S['ord'](S['pos'](a)) == a)),
                    ('separators of nodes not visited are empty', z3.Implies(z3.Not(v), S['R'](a) == 0)),
                    ('a visited node is a root or has a parent visited before it', z3.Implies(v, z3.And(S['par'](a) >= 0, S['par'](a) < n_, z3.Or(
                        z3.And(S['par'](a) == a, S['hgt'](a) == 0, S['R'](a) == 0, S['comp'](a) == a),
                        z3.And(S['vis'](S['par'](a)) != 0, S['pos'](S['par'](a)) >= 0, S['pos'](S['par'](a)) < S['pos'](a), S['hgt'](a) == S['hgt'](S['par'](a)) + 1,
                               S['hgt'](S['par'](a)) >= 0, S['comp'](a) == S['comp'](S['par'](a)), S['R'](a) == Xl(li(S['par'](a), a))))))),
                    ('separator: the common variables of a node and its parent', z3.Implies(z3.And(v, S['par'](a) != a, j < S['R'](a)), S['sep'](a, j) == Xf(li(S['par'](a), a), j)))]
        for k in places:
            out.append(('only nodes are in the order', z3.Implies(z3.And(0 <= k, k < S['cnt']), z3.And(S['ord'](k) >= 0, S['ord'](k) < n_, S['vis'](S['ord'](k)) != 0,
                                                                                               S['pos'](S['ord'](k)) == k))))
        for k in stacks:
            out.append(('only nodes are on the stack', z3.Implies(z3.And(0 <= k, k < S['top']), z3.And(S['st'](k) >= 0, S['st'](k) < n_))))
            out.append(('nodes on the stack: of the tree that is being built', z3.Implies(z3.And(0 <= k, k < S['top'], S['vis'](S['st'](k)) != 0), z3.And(
                S['comp'](S['st'](k)) == S['C'], S['sp'](S['st'](k)) == k))))
            out.append(('a node that is not visited is alone on the stack', z3.Implies(z3.And(0 <= k, k < S['top'], S['vis'](S['st'](k)) == 0), z3.And(S['top'] == 1, S['C'] == S['st'](k)))))
        on = lambda a: z3.And(0 <= S['sp'](a), S['sp'](a) < S['top'], S['st'](S['sp'](a)) == a)
        for a, b in pairs:
            va, vb, sh = S['vis'](a) != 0, S['vis'](b) != 0, share(a, b)
            out.append(('neighbours of a finished node are visited', z3.Implies(z3.And(va, z3.Not(on(a)), sh), vb)))
            out.append(('a visited node of another tree is finished', z3.Implies(z3.And(va, S['comp'](a) != S['C']), z3.Not(on(a)))))
            out.append(('visited cliques with a common variable are in the same tree', z3.Implies(z3.And(va, vb, sh), S['comp'](a) == S['comp'](b))))
        return out

    def install(S, s, node_stack=True):
        """arbitrary state"""
        g.update(pos=S.pos, sp=S.sp, comp=S.comp, C=S.C, known=S.known)
        s['visited'] = ivec(S.vis, n)
        ex.store(order, ivec(S.ord, S.cnt))
        s['node_stack'] = Vec(S.top, lambda k: isimp(S.st(I(k))), 'unsigned long')
        ex.store(tree, Struct('conex::RootedTree', {'parent': ivec(S.par, n), 'height': ivec(S.hgt, n)}))
        ex.store(seps, ivv(S.sep, S.R, n))
        ex.store(data / ('f', 'data_'), common(S.known, nn))
        s['edges'] = Vec(ex.int('ne' + S.vis.name(), 0), lambda k: Struct('std::pair', {'first': 0, 'second': 0}), 'std::pair<int, int>')

    def assume_all(S_, s, nodes, places, pairs, stacks):
        for a, b in pairs:
            pair_facts(ex, I(a), I(b), nn)
        for nm, f in facts(S_, nodes, places, pairs, stacks):
            ex.assume(f)

    def ghosts(s):
        """ghost state after a step: positions of what was appended to the order and to the stack"""
        o, st = ex.rv(order), s['node_stack']
        pos, sp, comp, C = g['pos'], g['sp'], g['comp'], g['C']
        c0, t0 = g['cnt0'], g['top0']
        if not ex.ctx.entails(B(eqi(o.n, c0))):
            g['pos'] = lambda k: z3.If(z3.And(I(o.n) > c0, I(k) == I(o.at(c0))), c0, pos(k))
            e = I(o.at(c0))
            g['comp'] = lambda k: z3.If(z3.And(I(o.n) > c0, I(k) == e), C, comp(k))
        if not ex.ctx.entails(I(st.n) <= t0):
            g['sp'] = lambda k: z3.If(z3.And(I(st.n) > t0, I(k) == I(st.at(t0))), t0, sp(k))

    def head(ex_, s):
        """search: arbitrary state at the start of an iteration"""
        S = Search(ex, '', n)
        install(S, s)
        g.update(cnt0=S.cnt, top0=S.top)
        N_ = now(s)
        a = S.st(S.top - 1)
        g['active'], g['S'] = a, S
        assume_all(N_, s, [u, w, a, S.par(u), S.par(w), S.par(a)][:3], [q], [(u, w), (w, u), (u, a), (a, u), (w, a), (a, w)], [S.top - 1, S.top - 2, S.sp(u), S.sp(w), g_stack])
        ex.assume(S.cnt <= n)
        g['undecided'] = True

    g_stack = ex.int('qs', 0)

    def first_head(ex_, s):
        C = I(s['node_stack'].at(0))
        g.update(pos=lambda k: z3.IntVal(-1), sp=lambda k: z3.IntVal(0), comp=lambda k: z3.IntVal(-1), C=C, known=lambda p: known(p))
        for a, b in ((u, w), (w, u)):
            pair_facts(ex, a, b, nn)
        return [(nm, f) for nm, f in facts(now(s), [u, w], [q], [(u, w), (w, u)], [g_stack])]

    def after_head(ex_, s):
        S = g['S']
        ghosts(s)
        N_ = now(s)
        # a new tree: started at the node that was not visited
        st = s['node_stack']
        if ex.ctx.entails(I(st.n) == 1) and ex.ctx.entails(N_['vis'](I(st.at(0))) == 0):
            g['C'] = I(st.at(0))
            N_ = now(s)
        out = [(nm, f) for nm, f in facts(N_, [u, w], [q], [(u, w), (w, u)], [g_stack])]
        more = I(ex.rv(order).n) > S.cnt
        fewer = I(st.n) < S.top
        old_vis = S.vis(S.st(S.top - 1)) != 0
        new_unv = N_['vis'](I(st.at(isubt(st.n, 1)))) == 0
        out.append(('progress: a node is visited, or the stack shrinks, or a new tree is started', z3.Or(more, z3.And(I(ex.rv(order).n) == S.cnt, z3.Or(fewer, z3.And(I(st.n) == S.top, old_vis, new_unv))))))
        return out

    # -- candidates
    am, af = ex.int('am', 0), fun('af')

    def cand(ex_, s):
        i = ex.int('i', 0)
        ex.assume(i <= n)
        s['i'] = i
        g['i'] = i
        mw = ex.int('mw', 1)
        s['max_weight'] = mw
        s['argmax'] = ivec(af, am)
        kn = F('knownc', Z, z3.BoolSort())
        k0 = g['known']
        g['known'] = kn
        ex.store(data / ('f', 'data_'), common(kn, nn))
        g['vis_now'] = s['visited']
        g['act'] = I(s['active'])
        for f in cand_facts(s, i, mw, lambda t: af(t), am, kn, [ex.int('t1', 0), ex.int('t2', 0)]):
            ex.assume(f[1])

    def cand_facts(s, i, mw, at, cnt, kn, ts):
        act, vis = I(s['active']), s['visited']
        out = [('at least weight one', mw >= 1)]
        ok = lambda t: z3.And(at(t) >= 0, at(t) < i, at(t) < I(n), at(t) != act, I(vis.at(at(t))) == 0, kn(li(act, at(t))))
        for t in ts:
            out.append(('candidates: other nodes that are not visited, common variables known', z3.Implies(z3.And(0 <= t, t < cnt), ok(t))))
        t1, t2 = ts[:2]
        out.append(('candidates differ', z3.Implies(z3.And(0 <= t1, t1 < t2, t2 < cnt), at(t1) < at(t2))))
        for v in (u, w):
            pair_facts(ex, act, v, nn)
            out.append(('no candidate only when all neighbours are visited', z3.Implies(z3.And(cnt == 0, v < i, v != act, share(act, v)), I(vis.at(v)) != 0)))
        out.append(('no candidate: no weight found', z3.Implies(cnt == 0, mw == 1)))
        return out

    def cand_first(ex_, s):
        # the active node is visited by now
        if not ex.ctx.entails(B(eqi(ex.rv(order).n, g['cnt0']))):
            sp0, t0, a0, c0 = g['sp'], g['top0'], I(s['active']), g['cnt0']
            g['sp'] = lambda k: z3.If(z3.And(I(k) == a0), t0 - 1, sp0(k))
        ghosts(s)
        g.update(cnt0=I(ex.rv(order).n), top0=I(s['node_stack'].n))
        a = s['argmax']
        return cand_facts(s, I(s['i']), I(s['max_weight']), lambda t: si(a.at(t)), I(a.n), g['known'], [ex.int('t1', 0), ex.int('t2', 0)]) + \
            [('the active node is visited', I(s['visited'].at(s['active'])) != 0)] + facts(now(s), [u, w, I(s['active'])], [q], [(u, w), (w, u)], [g_stack])

    def cand_after(ex_, s):
        a = s['argmax']
        return [('next', eqi(s['i'], g['i'] + 1))] + cand_facts(s, I(s['i']), I(s['max_weight']), lambda t: si(a.at(t)), I(a.n), g['known'], [ex.int('t1', 0), ex.int('t2', 0)])

    def cand_end(ex_, s):
        ex.oblige('all nodes are considered', I(g['i']) >= n)

    # -- visit the candidates
    def visit(ex_, s):
        S2 = Search(ex, '2', n)
        t = g['t'] = I(s.i)
        old = dict(active=I(s['active']), kn=g['known'], C=g['C'])
        before = g['before']
        install(S2, s)
        g.update(cnt0=S2.cnt, top0=S2.top, C=old['C'], known=old['kn'])
        ex.store(data / ('f', 'data_'), common(old['kn'], nn))
        N_ = now(s)
        a, e = old['active'], af(t)
        for x, y in ((a, e), (e, a), (u, e), (e, u), (w, e), (e, w), (a, u), (a, w), (u, a), (w, a)):
            pair_facts(ex, x, y, nn)
        in_range = z3.And(0 <= t, t < am)
        ex.assume(z3.Implies(in_range, z3.And(e >= 0, e < n, e != a, I(before['visited'].at(e)) == 0, old['kn'](li(a, e)))))
        assume_all(N_, s, [u, w, a], [q], [(u, w), (w, u), (u, a), (a, u), (w, a), (a, w)], [g_stack, S2.sp(u), S2.sp(w), S2.sp(a)])
        # node e: the facts hold for it too
        for nm, f in facts(N_, [e], [], [(u, e), (e, u), (w, e), (e, w)], []):
            ex.assume(z3.Implies(in_range, f))
        for f in visit_facts(s, t, [t, ex.int('t1', 0)]):
            ex.assume(f[1])

    def visit_facts(s, t, ts):
        b = g['before']
        N_ = now(s)
        a = g['active_now']
        out = [('one node per candidate', z3.And(N_['cnt'] == b['cnt'] + t, N_['top'] == b['top'] + t)), ('the active node is visited', N_['vis'](a) != 0),
               ('nothing changes without candidates', z3.Implies(t == 0, z3.And(*[N_['vis'](x) == I(b['visited'].at(x)) for x in (u, w)]))),
               ('visited nodes stay visited', z3.And(*[z3.Implies(I(b['visited'].at(x)) != 0, N_['vis'](x) != 0) for x in (u, w)])),
               ('the active node is on the stack', z3.And(N_['sp'](a) >= 0, N_['sp'](a) < b['top'], N_['sp'](a) == b['top'] - 1, N_['st'](N_['sp'](a)) == a, N_['comp'](a) == g['C'], N_['pos'](a) >= 0)),
               ('height of the active node', N_['hgt'](a) >= 0)]
        for k in ts:
            out.append(('later candidates are not visited', z3.Implies(z3.And(t <= k, k < am), N_['vis'](af(k)) == 0)))
        return out

    def visit_first(ex_, s):
        g['active_now'] = I(s['active'])
        N_ = now(s)
        g['before'] = dict(visited=s['visited'], cnt=N_['cnt'], top=N_['top'])
        return [(nm, f) for nm, f in facts(N_, [u, w], [q], [(u, w), (w, u)], [g_stack])] + visit_facts(s, z3.IntVal(0), [ex.int('t1', 0)])

    def visit_after(ex_, s):
        t = g['t']
        ghosts(s)
        ex.assume(z3.Implies(z3.And(t < ex.int('t1', 0), ex.int('t1', 0) < am), af(t) < af(ex.int('t1', 0))))
        return [(nm, f) for nm, f in facts(now(s), [u, w], [q], [(u, w), (w, u)], [g_stack])] + visit_facts(s, t + 1, [ex.int('t1', 0)])

    def visit_end(ex_, s):
        ex.oblige('all candidates', eqi(g['t'], am))

    def end_head(ex_, s):
        S = g['S']
        # counting lemma: n different nodes among n are all nodes
        ex.assume(z3.Implies(S.cnt >= n, z3.And(S.vis(u) != 0, S.vis(w) != 0)))
    ex.invariants[('PickCliqueOrderHelper', 0)] = Step(head, after_head, first_head, end_head)
    ex.invariants[('PickCliqueOrderHelper', 1)] = Step(cand, cand_after, cand_first, cand_end)
    ex.invariants[('PickCliqueOrderHelper', 2)] = Step(visit, visit_after, visit_first, visit_end)
    r = ex.run('conex::PickCliqueOrderHelper', [cl, leaf, root, ptr(data), ptr(seps), ptr(order), ptr(tree)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('a node is returned', z3.And(I(r[1]) >= 0, I(r[1]) < n))
    o, t = ex.rv(order), ex.rv(tree).fs
    cnt, pos = I(o.n), g['pos']
    rp = lambda a: cnt - 1 - pos(a)
    ex.oblige('every clique is in the order, at one position', z3.And(0 <= rp(u), rp(u) < cnt, I(o.at(rp(u))) == u))
    p = I(t['parent'].at(u))
    ex.oblige('the parent comes later in the order', z3.Or(p == u, z3.And(rp(p) > rp(u))))
    ex.oblige('separator: common variables with the parent, none at a root', land(z3.If(p == u, I(ex.rv(seps).at(u).n) == 0, I(ex.rv(seps).at(u).n) == Xl(li(p, u)))))
    ex.oblige('heights', z3.If(p == u, I(t['height'].at(u)) == 0, I(t['height'].at(u)) == I(t['height'].at(p)) + 1))
    ex.oblige('cliques with a common variable are in the same tree', z3.Implies(share(u, w), g['comp'](u) == g['comp'](w)))
