"""C10: chordality analysis."""
from common import *
from c12 import has_quantifier
from ctors import construct
from eig import int_entry

ASSUMPTIONS = ['mathematical lemma (pigeonhole): fewer than n distinct visited vertices leave an unvisited one',
               'mathematical lemma: the entries of a 0/1 matrix of order k add up to at most k^2, and to k^2 only if all are one',
               'mathematical lemma (Rose, Tarjan and Lueker): the order of a maximum cardinality search is perfect exactly when the graph is chordal',
               'the number of visited neighbours and the visited set are defined by recursion over the steps of the search (ghost functions)',
               'precondition: square matrix with at least one vertex']
EO = 'conex/elimination_ordering.cc'
MCS = 'conex::MaximumCardinalitySearch'
Z, BS = z3.IntSort(), z3.BoolSort()


def eqi(a, b):
    return cmpi('==', a, b)


def ints(f, n):
    """column vector of integers"""
    return Mat(n, 1, lambda i, j: toreal(f(I(i))))


def adj(a, b):
    """adjacency of a pattern: nonzero entry"""
    return z3.Function('A', Z, Z, z3.RealSort())(I(a), I(b)) != 0


def iff(a, b):
    return B(a) == B(b)


def at(m, i):
    r = to_integer(m.at(i, 0))
    if r is None:
        raise Unsupported('not an integer')
    return r


def search(ex, N, W, ne):
    """a search object; W, ne: weights and indicator of vertices not eliminated"""
    return ex.new(fresh_struct(ex, MCS, 'search', A_=ex.mat('A', N, N), N_=N, W_=W, not_eliminated=ne), 'search')


def unchanged(ex, this, N):
    ex.oblige_eq('the pattern is not changed', ex.rv(this / ('f', 'A_')), ex.mat('A', N, N))
    ex.oblige('the size is not changed', eqi(ex.rv(this / ('f', 'N_')), N))


def is_(ex, m, i, k):
    """entry i of a vector is the integer k"""
    return T.real(ex.ctx, m.at(i, 0)) == z3.ToReal(I(k))


class ArgMax(Invariant):
    """pos is an uneliminated vertex below i of weight max, if there is one; the arbitrary vertex u below i is no better"""
    def __init__(self, N, el, W, u):
        self.N, self.el, self.W, self.u, self.state = N, el, W, u, 0

    def havoc(self, ex, s):
        i, p = ex.int('i'), ex.int('p')
        ex.assume(z3.And(i >= 0, i <= I(self.N)))
        s['i'] = i
        s['pos'] = toreal(p) if isinstance(ex.rv(s.lv('pos')), E) else p
        m = z3.If(p == -1, -1, self.W(p))
        s['max'] = toreal(m) if isinstance(ex.rv(s.lv('max')), E) else m

    def props(self, ex, s):
        i, p, m = I(s['i']), s['pos'], s['max']
        p = to_integer(p) if isinstance(p, E) else I(p)
        m = to_integer(m) if isinstance(m, E) else I(m)
        if p is None or m is None:
            raise Unsupported('not an integer')
        u = self.u
        return [('position', z3.And(i >= 0, -1 <= p, p < i)) if False else ('position', z3.And(i >= 0, i <= I(self.N), -1 <= p, z3.Or(p == -1, p < i))),
                ('candidate', z3.Implies(p >= 0, z3.And(self.el(p), m == self.W(p), m >= 0))),
                ('no candidate', z3.Implies(p == -1, m == -1)),
                ('best', z3.Implies(z3.And(0 <= u, u < i, self.el(u)), z3.And(p >= 0, self.W(u) <= m)))]


@contract('C10', 'ArgMaxWeight', [EO])
def argmax(ex):
    N = ex.int('N', 1)
    W, el, u = z3.Function('W', Z, Z), z3.Function('el', Z, BS), ex.int('u', 0)
    ex.assume(u < N)
    k = z3.Int('?k')
    ex.assume(z3.ForAll([k], W(k) >= 0))
    this = search(ex, N, ints(W, N), Mat(N, 1, lambda i, j: T.ite(el(I(i)), ONE, ZERO)))
    ex.invariants[('ArgMaxWeight', 0)] = ArgMax(N, el, W, u)
    r = ex.run(MCS + '::ArgMaxWeight', [], this=this)
    ex.oblige('does not throw', r[0] == 'ret')
    p = I(r[1])
    ex.oblige('a vertex exactly when one is left', z3.Implies(el(u), z3.And(0 <= p, p < I(N))))
    ex.oblige('it is not eliminated', z3.Implies(p >= 0, z3.And(el(p), p < I(N))))
    ex.oblige('no other uneliminated vertex has a larger weight', z3.Implies(el(u), W(u) <= W(p)))
    unchanged(ex, this, N)


@contract('C10', 'UpdateWeights', [EO])
def update(ex):
    N, v = ex.int('N', 1), ex.int('v', 0)
    ex.assume(v < N)
    W, el = z3.Function('W', Z, Z), z3.Function('el', Z, BS)
    ne = Mat(N, 1, lambda i, j: T.ite(el(I(i)), ONE, ZERO))
    this = search(ex, N, ints(W, N), ne)
    r = ex.run(MCS + '::UpdateWeights', [v], this=this)
    ex.oblige('does not throw', r[0] == 'ret')
    w, u = ex.rv(this / ('f', 'W_')), ex.int('u', 0)
    ex.assume(u < N)
    ex.oblige('one weight per vertex', land(eqi(w.rows, N), eqi(w.cols, 1)))
    ex.oblige_eq('the weights of the neighbours grow by one, the others stay', w,
                 Mat(N, 1, lambda i, j: toreal(W(I(i)) + z3.If(z3.And(I(i) != v, adj(i, v)), 1, 0))))
    ex.oblige_eq('the indicator is unchanged', ex.rv(this / ('f', 'not_eliminated')), ne)
    unchanged(ex, this, N)


@contract('C10', 'MaximumCardinalitySearch', [EO])
def ctor(ex):
    N = ex.int('N', 1)
    this = construct(ex, MCS, [ex.mat('A', N, N)], 'Matrix')
    unchanged(ex, this, N)
    ex.oblige_eq('no vertex is eliminated', ex.rv(this / ('f', 'not_eliminated')), Mat(N, 1, lambda i, j: ONE))
    ex.oblige_eq('all weights are zero', ex.rv(this / ('f', 'W_')), Mat(N, 1, lambda i, j: ZERO))


class Search(Invariant):
    """before step i: order holds the vertices chosen in the steps before, the last of them (v) not yet counted;
    vis(., k), cnt(., k): the visited set and the number of visited neighbours after k steps"""
    def __init__(self, ex, N, this, v0, u):
        self.N, self.this, self.v0, self.u, self.state = N, this, v0, u, 0
        self.ord, self.vis, self.cnt = z3.Function('ord', Z, Z), z3.Function('vis', Z, Z, BS), z3.Function('cnt', Z, Z, Z)
        x, k = z3.Ints('?x ?k')
        self.defs = [z3.ForAll([x], z3.Not(self.vis(x, 0))), z3.ForAll([x], self.cnt(x, 0) == 0)]
        self.step = lambda x, k: z3.And(self.vis(x, k + 1) == z3.Or(self.vis(x, k), x == self.ord(k)),
                                        self.cnt(x, k + 1) == self.cnt(x, k) + z3.If(z3.And(x != self.ord(k), adj(x, self.ord(k))), 1, 0))

    def state_at(self, ex, k):
        """weights and indicator after k vertices are counted"""
        N = self.N
        ex.store(self.this / ('f', 'W_'), ints(lambda i: self.cnt(i, k), N))
        ex.store(self.this / ('f', 'not_eliminated'), Mat(N, 1, lambda i, j: T.ite(self.vis(I(i), k), ZERO, ONE)))

    def havoc(self, ex, s):
        i, N = ex.int('step', 1), self.N
        self.i = i
        ex.assume(i <= N)
        s['i'] = i
        s['v'] = isimp(self.ord(i - 1))
        # order(N - 1 - k) is the vertex of step k
        old = z3.Function('oldorder', Z, z3.RealSort())
        s['order'] = Mat(N, 1, lambda a, b: T.ite(I(a) >= N - i, toreal(self.ord(N - 1 - I(a))), var('oldorder', a)))
        self.state_at(ex, i - 1)
        x = z3.Int('?x')
        ex.assume(z3.ForAll([x], self.step(x, i - 1)))
        ex.assume(z3.And(self.ord(i - 1) >= 0, self.ord(i - 1) < N))
        self.state = 1

    def props(self, ex, s):
        N, i, v, o = self.N, I(s['i']), I(s['v']), s['order']
        w, ne = ex.rv(self.this / ('f', 'W_')), ex.rv(self.this / ('f', 'not_eliminated'))
        if self.state == 0:
            return [('first step', i == 1), ('first vertex', z3.And(v == self.v0, is_(ex, o, N - 1, self.v0))), ('one entry per vertex', eqi(o.rows, N)),
                    ('no vertex is eliminated', ('eq', ne, Mat(N, 1, lambda a, b: ONE))), ('all weights are zero', ('eq', w, Mat(N, 1, lambda a, b: ZERO)))]
        if self.state == 1:
            self.state = 2
            return []
        k = self.i          # the vertex of step k was chosen
        u = self.u
        return [('next step', i == k + 1), ('the chosen vertex is recorded', land(eqi(o.rows, N), is_(ex, o, N - 1 - k, v))),
                ('the chosen vertex is not visited', z3.And(0 <= v, v < N, z3.Not(self.vis(v, k)))),
                ('no unvisited vertex has more visited neighbours', z3.Implies(z3.Not(self.vis(u, k)), self.cnt(u, k) <= self.cnt(v, k))),
                ('earlier choices are kept', ('eq', Mat(N, 1, lambda a, b: T.ite(I(a) >= N - k, o.at(a, 0), ZERO)),
                                              Mat(N, 1, lambda a, b: T.ite(I(a) >= N - k, toreal(self.ord(N - 1 - I(a))), ZERO)))),
                ('weights', ('eq', w, ints(lambda a: self.cnt(a, k), N))),
                ('eliminated vertices', ('eq', ne, Mat(N, 1, lambda a, b: T.ite(self.vis(I(a), k), ZERO, ONE))))]


def start(ex):
    N = ex.int('N', 1)
    this = search(ex, N, Mat(N, 1, lambda i, j: ZERO), Mat(N, 1, lambda i, j: ONE))
    return N, this


@contract('C10', 'FindOrder', [EO])
def find(ex):
    N, this = start(ex)
    v0, u = ex.int('v', 0), ex.int('u', 0)
    ex.assume(z3.And(v0 < N, u < N))
    inv = Search(ex, N, this, v0, u)
    ex.invariants[('FindOrder', 0)] = inv

    def upd(ex_, th, args):
        v, w = I(ex.rv(args[0])), ex.rv(th / ('f', 'W_'))
        ex.store(th / ('f', 'W_'), Mat(N, 1, lambda i, j: toreal(I(to_integer(w.at(i, 0))) + z3.If(z3.And(I(i) != v, adj(i, v)), 1, 0))))

    def best(ex_, th, args):
        w, ne = ex.rv(th / ('f', 'W_')), ex.rv(th / ('f', 'not_eliminated'))
        p = ex.int('best', 0)
        el = lambda x: to_integer(ne.at(x, 0)) != 0
        ex.assume(z3.And(p < N, el(p)))        # pigeonhole: a vertex is left
        ex.assume(z3.Implies(el(u), to_integer(w.at(u, 0)) <= to_integer(w.at(p, 0))))
        return p
    ex.contracts['MaximumCardinalitySearch::UpdateWeights'] = upd
    ex.contracts['MaximumCardinalitySearch::ArgMaxWeight'] = best
    r = ex.run(MCS + '::FindOrder', [v0], this=this, pred=by_type('(int)'))
    ex.oblige('does not throw', r[0] == 'ret')
    o = r[1]
    ex.oblige('one entry per vertex', land(eqi(o.rows, N), eqi(o.cols, 1)))
    if inv.state:
        ex.oblige('all steps are taken', eqi(inv.i, N))
        k = ex.int('k', 0)
        ex.assume(k < N)
        ex.oblige('the result lists the chosen vertices, the last one first', is_(ex, o, N - 1 - k, inv.ord(k)))
    unchanged(ex, this, N)


class MaxDegree(Invariant):
    def __init__(self, N):
        self.N = N

    def havoc(self, ex, s):
        i, p = ex.int('i'), ex.int('p', 0)
        ex.assume(z3.And(i >= 0, p < I(self.N)))
        s['i'], s['argmax'] = i, p
        m = s['max']
        s['max'] = var(fresh_name('max')) if isinstance(m, E) else ex.int('max')

    def props(self, ex, s):
        return [('a vertex', z3.And(I(s['argmax']) >= 0, I(s['argmax']) < I(self.N))), ('position', I(s['i']) >= 0)]


@contract('C10', 'FindOrder.first', [EO])
def first(ex):
    """the search may start at any vertex"""
    N, this = start(ex)
    log = []

    def go(ex_, th, args):
        if not args:
            return NotImplemented
        v = I(ex.rv(args[0]))
        log.append(v)
        ex.oblige('the search starts at a vertex', z3.And(0 <= v, v < N))
        ex.oblige('of the same search', th.key() == this.key())
        return ints(z3.Function('ord', Z, Z), N)
    ex.contracts['MaximumCardinalitySearch::FindOrder'] = go
    ex.invariants[('MaxDegreeVertex', 0)] = MaxDegree(N)
    r = ex.run(MCS + '::FindOrder', [], this=this, pred=by_type('()'))
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('one search', len(log) == 1)
    ex.oblige_eq('its order is returned', r[1], ints(z3.Function('ord', Z, Z), N))
    ex.oblige_eq('no vertex is eliminated', ex.rv(this / ('f', 'not_eliminated')), Mat(N, 1, lambda i, j: ONE))
    ex.oblige_eq('all weights are zero', ex.rv(this / ('f', 'W_')), Mat(N, 1, lambda i, j: ZERO))
    unchanged(ex, this, N)


def searching(ex, N, ordf, check_first=None):
    """searches by their contract: a new search object, its order"""
    def go(ex_, th, args):
        A, W, ne = (ex.rv(th / ('f', f)) for f in ('A_', 'W_', 'not_eliminated'))
        ex.oblige_eq('the search uses the given pattern', A, ex.mat('A', N, N))
        ex.oblige_eq('it starts without eliminated vertices', ne, Mat(N, 1, lambda i, j: ONE))
        ex.oblige_eq('and with zero weights', W, Mat(N, 1, lambda i, j: ZERO))
        if args:
            v = I(ex.rv(args[0]))
            ex.oblige('it starts at a vertex', z3.And(0 <= v, v < N))
        k = z3.Int('?k')
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(0 <= ordf(k), ordf(k) < N))))
        return ints(ordf, N)
    ex.contracts['MaximumCardinalitySearch::FindOrder'] = go


@contract('C10', 'EliminationOrdering', [EO])
def ordering(ex):
    N = ex.int('N', 1)
    o = z3.Function('ord', Z, Z)
    searching(ex, N, o)
    r = ex.run('conex::EliminationOrdering', [ex.mat('A', N, N)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('a permutation', isinstance(r[1], Struct) and r[1].t == '$perm' and not r[1].fs['tr'])
    ex.oblige('one entry per vertex', eqi(r[1].fs['idx'].rows, N))
    ex.oblige_eq('the order found by the search', r[1].fs['idx'], ints(o, N))


# ---- induced submatrices
class Keep(Invariant):
    """after i columns: keep lists exactly the columns below i with a nonzero entry in the first row, in increasing order"""
    def __init__(self, ex, lv, width, row):
        self.lv, self.width, self.row, self.state = lv, width, row, 0
        self.v, self.w = z3.Function('keep', Z, Z), z3.Function('where', Z, Z)

    def havoc(self, ex, s):
        i, self.k = ex.int('i', 0), ex.int('kept', 0)
        self.i = i
        ex.assume(i <= I(self.width))
        s['i'] = i
        ex.store(self.lv, Vec(self.k, lambda k: isimp(self.v(I(k))), 'int'))
        self.state = 1

    def props(self, ex, s):
        i, vec = I(s['i']), ex.rv(self.lv)
        if self.state == 0:
            return [('starts at the first column', i == 0), ('starts empty', eqi(vec.n, 0))]
        j, k, l = z3.Ints('?j ?k ?l')
        a = lambda k: I(vec.at(k))
        n, w = I(vec.n), self.w
        if self.state == 2:
            w = lambda j: z3.If(j == self.i, I(self.k), self.w(j))
        self.state = 2
        return [('position', z3.And(i >= 0, i <= I(self.width))),
                ('every kept column has a nonzero entry', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= a(k), a(k) < i, self.row(a(k)))))),
                ('increasing', z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), a(k) < a(l)))),
                ('complete', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i, self.row(j)), z3.And(0 <= w(j), w(j) < n, a(w(j)) == j))))]

    def exit(self, ex, s):
        vec = ex.rv(self.lv)
        self.final, n = vec, I(vec.n)
        j, k, l = z3.Ints('?j ?k ?l')
        a = lambda k: I(vec.at(k))
        M = I(self.width)
        rng = z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= a(k), a(k) < M)))
        ex.oblige('only nonzero entries of the first row are kept', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= a(k), a(k) < M, self.row(a(k))))))
        ex.oblige('all of them', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < M, self.row(j)), z3.Exists([k], z3.And(0 <= k, k < n, a(k) == j)))))
        ex.oblige('each once', z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), a(k) != a(l))))
        # from now on only the range of the kept columns matters
        ex.ctx = T.Ctx([f for f in ex.ctx.facts if not has_quantifier(f)] + [rng])


@contract('C10', 'submat', [EO])
def submat(ex):
    N, node = ex.int('N', 1), ex.int('node', 0)
    ex.assume(node < N)
    keep = ex.new(ex.ivec('old', ex.int('nold', 0)), 'indices')
    inv = Keep(ex, keep, N - node, lambda j: adj(node, node + j))
    ex.invariants[('submat', 0)] = inv
    r = ex.run('conex::submat', [ex.mat('A', N, N), node, ptr(keep)])
    ex.oblige('does not throw', r[0] == 'ret')
    S, vec = r[1], ex.rv(keep)
    n = I(vec.n)
    a = lambda k: I(inv.final.at(k))
    ex.oblige('square, one row per neighbour', land(eqi(S.rows, vec.n), eqi(S.cols, vec.n)))
    ex.oblige('the list of neighbours is kept', eqi(vec.n, inv.final.n))
    x = ex.int('x', 0)
    ex.ctx.add(x < I(vec.n))
    ex.oblige('entry by entry', eqi(vec.at(x), a(x)))
    ex.oblige_eq('the induced submatrix with unit diagonal', S, Mat(vec.n, vec.n, lambda p, q: T.ite(I(p) == I(q), ONE, var('A', node + a(p), node + a(q)))))


# ---- the tests themselves
class Pass(Invariant):
    """pass is true exactly when every vertex before i has pairwise adjacent later neighbours"""
    def __init__(self, N, all_, early):
        self.N, self.all, self.early, self.state = N, all_, early, 0

    def havoc(self, ex, s):
        i = ex.int('i', 0)
        self.i = i
        ex.assume(i <= I(self.N))
        s['i'] = i
        s['pass'] = True if self.early else self.all(i)
        if self.early:
            ex.assume(self.all(i))
        self.state = 1

    def props(self, ex, s):
        i, p = I(s['i']), s['pass']
        if self.state == 0:
            return [('starts at the first vertex', i == 0), ('nothing has failed', B(p))]
        if self.state == 1:
            self.state = 2
            return []
        return [('next vertex', i == self.i + 1), ('result so far', iff(p, self.all(i)))]


def testing(ex, N, entry, good, all_):
    """submat by its contract, for a pattern with the given 0/1 entries; good(i): the later neighbours of i are pairwise adjacent"""
    seen = []

    def sub(ex_, this, args):
        A, i = value(ex, args[0]), I(ex.rv(args[1]))
        seen.append(i)
        ex.oblige('a vertex', z3.And(0 <= i, i < N))
        ex.oblige('square pattern', land(eqi(A.rows, N), eqi(A.cols, N)))
        ex.oblige_eq('the 0/1 pattern is tested', A, Mat(N, N, entry))
        k = ex.int('neighbours', 0)
        q = args[2]
        ex.store(q.lv, Vec(k, lambda a: isimp(z3.Function('nb', Z, Z, Z)(i, I(a))), 'int'))
        ex.assume(all_(i + 1) == z3.And(all_(i), good(i)))
        if ex.decide(good(i)):
            return Mat(k, k, lambda a, b: ONE)
        hole = z3.Function('hole', Z, Z, Z, BS)
        S = Mat(k, k, lambda a, b: T.ite(hole(i, I(a), I(b)), ZERO, ONE))
        # the 0/1 entries with at least one zero add up to less than k^2
        ex.assume(B(cmp_real(ex.ctx, '<', Sum(0, k, lambda a: Sum(0, k, lambda b: S.at(a, b))), toreal(k) * toreal(k))))
        ex.assume(k >= 2)
        return S
    ex.contracts['conex::submat'] = sub
    ex.assume(all_(z3.IntVal(0)))
    return seen


@contract('C10', 'IsPerfectlyOrdered', [EO])
def perfect(ex):
    N = ex.int('N', 1)
    all_, good = z3.Function('all', Z, BS), z3.Function('good', Z, BS)
    testing(ex, N, lambda i, j: T.ite(adj(i, j), ONE, ZERO), good, all_)
    inv = Pass(N, all_, False)
    ex.invariants[('IsPerfectlyOrdered', 2)] = inv
    r = ex.run('conex::IsPerfectlyOrdered', [ex.mat('A', N, N)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('true exactly when the later neighbours of every vertex are pairwise adjacent', iff(r[1], all_(I(N))))


def chordal(name, null):
    @contract('C10', name, [EO])
    def p(ex):
        N = ex.int('N', 1)
        o = z3.Function('ord', Z, Z)
        all_, good = z3.Function('all', Z, BS), z3.Function('good', Z, BS)
        searching(ex, N, o)
        testing(ex, N, lambda i, j: T.ite(adj(o(I(i)), o(I(j))), ONE, ZERO), good, all_)
        ex.contracts['conex::ExtractChordlessPath'] = lambda ex_, th, args: ex.ivec('path', 4)
        inv = Pass(N, all_, True)
        ex.invariants[('IsChordal', 1)] = inv
        path = ex.new(ex.ivec('path0', ex.int('npath0', 0)), 'path')
        r = ex.run('conex::IsChordal', [ex.mat('A', N, N), Ptr(None, True) if null else ptr(path)], pred=by_type('std::vector'))
        ex.oblige('does not throw', r[0] == 'ret')
        res = r[1]
        if inv.state == 2 or True:
            i = inv.i if inv.state else I(N)
            # an early exit reports a vertex whose later neighbours are not pairwise adjacent
            fails = z3.And(I(0) <= i, i < I(N), z3.Not(good(i)))
            done = z3.And(i == I(N), all_(I(N)))
            ex.oblige('true only when the order is perfect', z3.Implies(B(res), done))
            ex.oblige('false only when some later neighbours are not adjacent', z3.Implies(lnot(B(res)), fails))
    return p


chordal('IsChordal', True)
chordal('IsChordal.path', False)


@contract('C10', 'IsChordal.short', [EO])
def short(ex):
    N = ex.int('N', 1)
    u = ex.bool('chordal')
    log = []

    def go(ex_, th, args):
        if len(args) < 2:
            return NotImplemented
        log.append(args)
        ex.oblige_eq('the same pattern', value(ex, args[0]), ex.mat('A', N, N))
        q = args[1]
        ex.oblige('no path is asked for', isinstance(ex.rv(q), Ptr) and ex.rv(q).lv is None)
        return u
    ex.contracts['conex::IsChordal'] = go
    r = ex.run('conex::IsChordal', [ex.mat('A', N, N)], pred=lambda n: 'vector' not in cast.sig(n))
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('the result of the test', land(len(log) == 1, iff(r[1], u)))


# ---- vertices of maximal row sum
class Best(Invariant):
    """argmax lists exactly the vertices below i whose sum is the maximum of the sums below i, in increasing order"""
    def __init__(self, N):
        self.N, self.state = N, 0
        self.d = z3.Function('deg', Z, z3.RealSort())
        self.v, self.w, self.pos = z3.Function('keep', Z, Z), z3.Function('where', Z, Z), None

    def init(self, ex, s):
        m = s['sums']
        ex.oblige_eq('row sums', m, Mat(self.N, 1, lambda i, j: Sum(0, self.N, lambda k: var('A', i, k))))
        mx = s['max']
        if isinstance(mx, E):
            ex.oblige_eq('starts with the first sum', Mat(1, 1, lambda i, j: mx), Mat(1, 1, lambda i, j: m.at(0, 0)))
            s['max'] = var('deg', 0)
        s['sums'] = Mat(self.N, 1, lambda i, j: var('deg', i))

    def havoc(self, ex, s):
        self.i, self.k = ex.int('i', 1), ex.int('kept', 1)
        ex.assume(self.i <= self.N)
        s['i'] = self.i
        s['argmax'] = Vec(self.k, lambda k: isimp(self.v(I(k))), 'int')
        self.a = ex.int('best', 0)
        ex.assume(self.a < self.i)
        s['max'] = var('deg', self.a)
        self.state = 1

    def props(self, ex, s):
        i, vec, m = I(s['i']), s['argmax'], s['max']
        mx = T.real(ex.ctx, m) if isinstance(m, E) else z3.ToReal(I(m))
        j, k, l = z3.Ints('?j ?k ?l')
        a = lambda k: I(vec.at(k))
        n, w, d = I(vec.n), self.w, self.d
        if isinstance(vec.n, int) and vec.n == 0:
            a = lambda k: I(0)
        if self.state == 0:
            w = lambda j: I(0)
        elif self.state == 2:
            x = self.i
            w = lambda j: z3.If(j == x, I(vec.n) - 1, self.w(j))
        self.state = 2 if self.state else 0
        return [('position', z3.And(i >= 1, i <= self.N)),
                ('no larger sum', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), d(j) <= mx))),
                ('listed vertices have the maximal sum', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= a(k), a(k) < i, d(a(k)) == mx)))),
                ('increasing', z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), a(k) < a(l)))),
                ('complete', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i, d(j) == mx), z3.And(0 <= w(j), w(j) < n, a(w(j)) == j))))]


    def exit(self, ex, s):
        v = self.final = s['argmax']
        n, N, d = I(v.n), self.N, self.d
        a = lambda k: I(v.at(k))
        j, k, l = z3.Ints('?j ?k ?l')
        ex.oblige('each has the maximal row sum', z3.ForAll([j, k], z3.Implies(z3.And(0 <= k, k < n, 0 <= j, j < N), z3.And(0 <= a(k), a(k) < N, d(j) <= d(a(k))))))
        ex.oblige('in increasing order', z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), a(k) < a(l))))
        x = z3.Int('?x')
        ex.ctx, c = ex.ctx.child([z3.And(0 <= x, x < N, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < N), d(j) <= d(x))))]), ex.ctx
        ex.oblige('all vertices of maximal row sum are listed', z3.Exists([k], z3.And(0 <= k, k < n, a(k) == x)))
        ex.ctx = T.Ctx([f for f in c.facts if not has_quantifier(f)])


@contract('C10', 'MaximumDegreeVertices', [EO])
def degree(ex):
    N = ex.int('N', 1)
    inv = Best(N)
    ex.invariants[('MaximumDegreeVertices', 0)] = inv
    r = ex.run('conex::MaximumDegreeVertices', [ex.mat('A', N, N)])
    ex.oblige('does not throw', r[0] == 'ret')
    o = r[1]
    v, n = inv.final, I(inv.final.n)
    ex.oblige('a column with one entry per listed vertex', land(eqi(o.cols, 1), eqi(o.rows, v.n)))
    ex.oblige_eq('the listed vertices', o, Mat(v.n, 1, lambda i, j: toreal(v.at(i))))
