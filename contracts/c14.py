"""C14: registered constraints keep their variables and get private dual indices."""
from common import *

ASSUMPTIONS = ['std::any holds a copy and any_cast returns its address; std::list elements do not move (trusted library models)',
               'the number of variables is set before constraints are added']
INST = (os.path.join(os.path.dirname(os.path.abspath(__file__)), 'inst.cc'), ('conex',))
MAN = 'conex::ConstraintManager<conex::Container>'


def good_list(N, n, x):
    """distinct indices in range"""
    p, q = z3.Ints('?gp ?gq')
    return z3.And(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < n), z3.And(0 <= x(p), x(p) < N))),
                  z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < n), x(p) != x(q))))


class Seen(Invariant):
    """after i entries: all distinct and in range, and y(k) counts (0 or 1) the entries equal to k"""
    def __init__(self, N, x):
        self.N, self.x, self.first = N, x, True
        self.U = None

    def init(self, ex, s):
        self.U = lambda k: z3.BoolVal(False)
        self.W = None

    def havoc(self, ex, s):
        U = z3.Function('seen', z3.IntSort(), z3.BoolSort())
        W = z3.Function('where', z3.IntSort(), z3.IntSort())
        s['y'] = Mat(self.N, 1, lambda k, _: T.ite(U(I(k)), const(1), ZERO))
        self.U, self.W, self.hav = (lambda k: U(I(k))), (lambda k: W(I(k))), True

    def props(self, ex, s):
        p, q, k = z3.Ints('?p ?q ?k')
        i, x = I(s.i), self.x
        U, W = self.U, self.W
        if self.W is not None and getattr(self, 'after', False):
            # one more entry, x(i-1)
            V, Z = U, W
            U = lambda k: z3.Or(V(k), I(k) == x(i - 1))
            W = lambda k: z3.If(I(k) == x(i - 1), i - 1, Z(k))
        out = []
        if self.W is None or getattr(self, 'after', False):
            out.append(('counts', ('eq', ex.rv(s['y']), Mat(self.N, 1, lambda k, _: T.ite(U(k), const(1), ZERO)))))
        if self.W is not None:
            out.append(('counted entries occur', z3.ForAll([k], z3.Implies(U(k), z3.And(0 <= W(k), W(k) < i, x(W(k)) == k)))))
        out.append(('entries are counted', z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i), z3.And(U(x(q)), 0 <= x(q), x(q) < I(self.N))))))
        out.append(('entries are distinct', z3.ForAll([p, q], z3.Implies(z3.And(0 <= p, p < q, q < i), x(p) != x(q)))))
        if self.W is not None:
            self.after = True
        return out


@contract('C14', 'IsUnique', [CP])
def unique(ex):
    N, n = ex.int('N', 0), ex.int('n', 0)
    x = z3.Function('x', z3.IntSort(), z3.IntSort())
    v = ex.new(Vec(n, lambda k: isimp(x(I(k))), 'int'), 'x')
    ex.invariants[('IsUnique', 0)] = Seen(N, x)
    r = ex.run('conex::IsUnique', [N, v])
    ex.oblige('does not throw', r[0] == 'ret')
    yes = r[1] if is_bool(r[1]) else cmpi('!=', r[1], 0)
    if ex.decide(yes):
        ex.oblige('accepted lists are distinct and in range', good_list(N, n, x))
    else:
        ex.oblige('rejected lists have an entry that repeats or is out of range', z3.Not(good_list(N, n, x)))


# ---- the registry
def registry(ex):
    """a registry with K constraints: K cliques, K dual blocks in [nv, dvs)"""
    K = ex.int('K', 0)
    L = z3.Function('L', z3.IntSort(), z3.IntSort())
    cl = z3.Function('cl', z3.IntSort(), z3.IntSort(), z3.IntSort())
    D = z3.Function('D', z3.IntSort(), z3.IntSort())
    d = z3.Function('d', z3.IntSort(), z3.IntSort(), z3.IntSort())
    nv, dvs = ex.int('nv', 0), ex.int('dvs')
    ex.assume(dvs >= nv)
    k, j = z3.Ints('?k ?j')
    ex.ctx.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < K), z3.And(L(k) >= 0, D(k) >= 0))))
    ex.ctx.add(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < K, 0 <= j, j < D(k)), z3.And(nv <= d(k, j), d(k, j) < dvs))))

    def box(i):
        return Struct('conex::Container', {'id': isimp(I(i))})
    man = Struct(MAN, {
        'eqs': Vec(K, box, 'conex::Container'),
        'cliques': Vec(K, lambda i: Vec(isimp(L(I(i))), lambda j: isimp(cl(I(i), I(j))), 'int'), 'std::vector<int>'),
        'dual_vars': Vec(K, lambda i: Vec(isimp(D(I(i))), lambda j: isimp(d(I(i), I(j))), 'int'), 'std::vector<int>'),
        'max_number_of_variables_': nv, 'dual_variable_start_': dvs})
    return ex.new(man, 'man'), K, nv, dvs, L, cl, D, d


def vec_eq(ex, name, a, n, f):
    """vector a has n elements f(j)"""
    ex.oblige(name + ': length', cmpi('==', a.n, n))
    j = ex.int(fresh_name('j'))
    c = ex.ctx.child([B(cmpi('>=', j, 0)), B(cmpi('<', j, n))])
    if c.entails(z3.BoolVal(False)):
        return
    old, ex.ctx = ex.ctx, c
    try:
        x, y = a.at(j), f(j)
        ex.oblige(name, cmpi('==', x, y))
    finally:
        ex.ctx = old


def kept(ex, man, K, L, cl, D, d):
    """the entries present before are unchanged"""
    m = ex.rv(man)
    k = ex.int('k', 0)
    ex.assume(k < K)
    c, v = m.fs['cliques'].at(k), m.fs['dual_vars'].at(k)
    vec_eq(ex, 'variables of earlier constraints', c, L(k), lambda j: cl(k, I(j)))
    vec_eq(ex, 'dual indices of earlier constraints', v, D(k), lambda j: d(k, I(j)))
    ex.oblige('earlier constraints', cmpi('==', m.fs['eqs'].at(k).fs['id'], k))


def hooks(ex, x, n, made):
    """IsUnique by its contract; Container's constructor records its arguments"""
    u = ex.bool('distinct and in range')

    def uniq(ex_, this, args):
        ex.oblige('the limit is the number of variables', cmpi('==', ex.rv(args[0]), z3.Int('nv')))
        vec_eq(ex, 'the list of variables is checked', value(ex, args[1]), n, x)
        return u
    ex.contracts['conex::IsUnique'] = uniq

    def box(ex_, this, args):
        made.append(value(ex, args[0]))
        return Struct('conex::Container', {'id': z3.IntVal(-1 - len(made)), 'x': value(ex, args[0]), 'nv': ex.rv(args[1]), 'constraint': Opaque('constraint')})
    ex.contracts['ctor conex::Container'] = box
    return u


def appended(ex, man, K, data, clique, dual, same):
    """one constraint appended"""
    m = ex.rv(man)
    cn, cf = clique
    dn, df = dual
    for f in ('eqs', 'cliques', 'dual_vars'):
        ex.oblige('%s: one more' % f, cmpi('==', m.fs[f].n, iadd(K, 1)))
    vec_eq(ex, 'its variables', m.fs['cliques'].at(K), cn, cf)
    vec_eq(ex, 'its dual indices', m.fs['dual_vars'].at(K), dn, df)
    b = m.fs['eqs'].at(K)
    ex.oblige('the constraint itself is stored', 'x' in b.fs and same(b.fs['x']))
    ex.oblige('the size of its block is the number of its indices', cmpi('==', b.fs['nv'], cn))


def untouched(ex, man, K):
    m = ex.rv(man)
    for f in ('eqs', 'cliques', 'dual_vars'):
        ex.oblige('%s: none added' % f, cmpi('==', m.fs[f].n, K))


def accepts(r):
    return lnot(r) if is_bool(r) else cmpi('==', r, 0)


def inequality(ex, name='o'):
    n, m = ex.int('rows', 0), ex.int('m', 0)
    return linear(ex, n, m)


def add_contract(name, fn, sig_, eq, listed, level):
    @contract('C14', name, [INST, CP])
    def p(ex):
        man, K, nv, dvs, L, cl, D, d = registry(ex)
        made = []
        n = ex.int('n', 0) if listed else nv
        vf = z3.Function('vars', z3.IntSort(), z3.IntSort())
        x = (lambda j: vf(I(j))) if listed else (lambda j: I(j))
        u = hooks(ex, x, n, made)
        if not listed:
            ex.assume(u)           # 0, ..., n-1 is distinct and in range
        if eq:
            k = ex.int('equations', 0)
            o = ex.new(fresh_struct(ex, 'conex::EqualityConstraints', 'o', A_=ex.mat('A', k, ex.int('cols', 0)), b_=ex.mat('b', k, 1)), 'o')
        else:
            k = 0
            o = inequality(ex)
        src = ex.rv(o)
        args = [o] + ([ex.new(Vec(n, lambda j: isimp(x(j)), 'int'), 'variables')] if listed else [])
        this = man
        if level == 'program':
            cons = ex.ivec('constraints', ex.int('nc', 0))
            fs = {f: Opaque(f) for f, _, _ in ex.rec_fields(ex.find_rec('conex::Program'))}
            fs.update(kkt_system_manager_=ex.load(man), constraints_=Vec(cons.n, lambda i: Ptr(None), 'conex::Constraint *'))
            this = ex.new(Struct('conex::Program', fs), 'prog')
            man = this / ('f', 'kkt_system_manager_')
        ok = ex.decide(u)
        r = ex.run(fn, args, this=this, pred=lambda f: cast.sig(f) in sig_)
        ex.oblige('does not throw', r[0] == 'ret')
        m = ex.rv(man)
        if ok:
            ex.oblige('accepted', accepts(r[1]))
            clique = (n, x) if not eq else (iadd(n, k), lambda j: z3.If(I(j) < n, x(j), dvs + I(j) - n))
            same = (lambda y: y.t.split('::')[-1] == src.t.split('::')[-1] and same_data(ex, y, src, ('A_', 'b_') if eq else ('constraint_matrix_', 'constraint_affine_')))
            appended(ex, man, K, src, clique, (k, lambda j: dvs + I(j)), same)
            ex.oblige('later dual blocks start behind this one', cmpi('==', m.fs['dual_variable_start_'], iadd(dvs, k)))
        else:
            ex.oblige('rejected', lnot(accepts(r[1])))
            untouched(ex, man, K)
            ex.oblige('dual indices untouched', cmpi('==', m.fs['dual_variable_start_'], dvs))
        if level == 'program':
            c = ex.rv(this).fs['constraints_']
            nc = ex.int('nc')
            ex.oblige('stepped constraints: one more per accepted cone', cmpi('==', c.n, iadd(nc, int(ok and not eq))))
            if ok and not eq:
                q = c.at(nc)
                want = man / ('f', 'eqs') / ('at', K) / ('f', 'constraint')
                ex.oblige('it is the constraint that was added', q.lv is not None and q.lv.key() == want.key())
        ex.oblige('number of variables unchanged', cmpi('==', m.fs['max_number_of_variables_'], nv))
        kept(ex, man, K, L, cl, D, d)


def same_data(ex, a, b, fields):
    for f in fields:
        ex.oblige_eq('stored data: ' + f, a.fs[f], b.fs[f])
    return True


REFS = ('%s &', 'const %s &', '%s &&')
LCT = ['conex::LinearConstraint' + r[2:] if not r.startswith('const') else 'const conex::LinearConstraint &' for r in REFS]
EQT = [t.replace('LinearConstraint', 'EqualityConstraints') for t in LCT]
for i, (l, e) in enumerate(zip(LCT, EQT)):
    tag = ('lvalue', 'const lvalue', 'rvalue')[i]
    add_contract('Manager.AddConstraint(%s, variables)' % tag, MAN + '::AddConstraint', ['bool (%s, const std::vector<int> &)' % l], False, True, 'manager')
    add_contract('Manager.AddConstraint(%s)' % tag, MAN + '::AddConstraint', ['bool (%s)' % l], False, False, 'manager')
    add_contract('Program.AddConstraint(%s, variables)' % tag, 'conex::Program::AddConstraint', ['bool (%s, const std::vector<int> &)' % l], False, True, 'program')
    add_contract('Program.AddConstraint(%s)' % tag, 'conex::Program::AddConstraint', ['bool (%s)' % l], False, False, 'program')
    add_contract('Program.AddConstraint(equality %s, variables)' % tag, 'conex::Program::AddConstraint', ['bool (%s, const std::vector<int> &)' % e], True, True, 'program')
    add_contract('Program.AddConstraint(equality %s)' % tag, 'conex::Program::AddConstraint', ['bool (%s)' % e], True, False, 'program')
add_contract('Manager.AddEqualityConstraint(variables)', MAN + '::AddEqualityConstraint', ['bool (EqualityConstraints &&, const std::vector<int> &)'], True, True, 'manager')
add_contract('Manager.AddEqualityConstraint', MAN + '::AddEqualityConstraint', ['bool (EqualityConstraints &&)'], True, False, 'manager')


@contract('C14', 'Manager.SizeOfKKTSystem', [CP])
def size(ex):
    man, K, nv, dvs, L, cl, D, d = registry(ex)
    r = ex.run(MAN + '::SizeOfKKTSystem', [], this=man)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('number of variables plus all dual indices', ex.is_prefix_sum(isubt(r[1], nv), 0, K, lambda i: D(I(i))))


@contract('C14', 'Manager.SetNumberOfVariables', [CP])
def setn(ex):
    man, K, nv, dvs, L, cl, D, d = registry(ex)
    N = ex.int('N', 0)
    ex.run(MAN + '::SetNumberOfVariables', [N], this=man)
    m = ex.rv(man)
    ex.oblige('number of variables', cmpi('==', m.fs['max_number_of_variables_'], N))
    ex.oblige('dual indices follow the variables', cmpi('==', m.fs['dual_variable_start_'], N))
    r = ex.run(MAN + '::GetNumberOfVariables', [], this=man)
    ex.oblige('GetNumberOfVariables', cmpi('==', r[1], N))


def container(t):
    @contract('C14', 'Container(%s)' % t, [INST, CP])
    def p(ex):
        """a container owns a copy of the constraint; its type-erased handle refers to that copy, not to the argument"""
        o = ex.new(Struct('conex::' + t, {'A_': ex.mat('A', ex.int('r', 0), ex.int('c', 0))}), 'argument')
        nv = ex.int('nv', 0)
        rec = ex.find_rec('conex::Container')
        fn = [c for c in ex.all_ctors(rec) if t in cast.sig(c)]
        if len(fn) != 1:
            raise cast.ExtractError('constructor of Container for ' + t)
        v = ex.construct(rec, [o, nv], cast.sig(fn[0]))
        a = v.fs['obj']
        ex.oblige('holds a copy', isinstance(a, Struct) and a.t == 'conex::' + t)
        ex.oblige_eq('of the data', a.fs['A_'], ex.rv(o).fs['A_'])
        m = ex.rv(ex.deref(v.fs['constraint'].fs['model']))
        d = m.fs['data'].lv
        ex.oblige('the handle refers to the copy', d.path[-1:] == (('f', 'obj'),) and d.loc != o.loc)
        ex.oblige('for its own type', t in m.t)
        ex.oblige('number of indices', cmpi('==', v.fs['supernodal_assembler'].fs['num_variables_'], nv))


container('LinearConstraint')
container('EqualityConstraints')


@contract('C14', 'AddQuadraticCost', [COST])
def addq(ex):
    """the cost is registered on exactly the given variables"""
    n = ex.int('n', 0)
    got = []

    def addc(ex_, this, args):
        got.append((value(ex, args[0]), value(ex, args[1])))
        return ex.bool('status')
    ex.contracts['Program::AddConstraint'] = addc
    prog = ex.new(Opaque('program'), 'prog')
    v = ex.ivec('variables', n)
    r = ex.run('conex::AddQuadraticCost', [ptr(prog), ex.new(ex.mat('Q', n, n), 'Q'), ex.new(v, 'v')])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('one constraint', len(got) == 1)
    o, w = got[0]
    ex.oblige_eq('the cost matrix', o.fs['A_'], ex.mat('Q', n, n))
    vec_eq(ex, 'the variables', w, n, lambda j: v.at(j))
    ex.oblige('the status is returned', B(r[1]) == ex.bool('status'))


@contract('C14', 'Program.AddQuadraticCost', [CP])
def addq2(ex):
    """remembered as a quadratic cost exactly when it was accepted"""
    n, q = ex.int('n', 0), ex.int('q', 0)
    had = ex.bool('contains quadratic costs')
    u = ex.bool('status')
    listed = ex.choose('variables given')
    nv = ex.int('nv', 0)

    def add(ex_, this, args):
        ex.oblige_eq('the cost matrix', value(ex, args[1]), ex.mat('Q', q, q))
        w = value(ex, args[2])
        vec_eq(ex, 'the variables', w, n if listed else nv, (lambda j: v.at(j)) if listed else (lambda j: I(j)))
        return u
    ex.contracts['conex::AddQuadraticCost'] = add
    prog = program(ex, ex.int('N', 0), contains_quadratic_costs_=had)
    v = ex.ivec('variables', n)
    args = [ex.new(ex.mat('Q', q, q), 'Q')] + ([ex.new(v, 'v')] if listed else [])
    r = ex.run('conex::Program::AddQuadraticCost', args, this=prog, pred=lambda f: ('vector' in cast.sig(f)) == listed)
    ex.oblige('does not throw', r[0] == 'ret')
    called = listed or ex.quick_entails(q == nv)
    if called:
        ex.oblige('the status is returned', B(r[1]) == u)
        ex.oblige('quadratic costs are remembered', B(ex.rv(prog).fs['contains_quadratic_costs_']) == z3.Or(had, z3.Not(u)))
    else:
        ex.oblige('order differs from the number of variables: failure', B(r[1]))
        ex.oblige('nothing is remembered', B(ex.rv(prog).fs['contains_quadratic_costs_']) == had)
