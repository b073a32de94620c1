"""C13: solve's result, status and statistics agree."""
from common import *
from terms import prove_eq
from api import share

ASSUMPTIONS = ['callees of Solve by contract: Initialize (storage for the configured number of iterations, positive scalings), assembly, factorisation (any outcome), line search and divergence bound (any value), step (any norms)',
               'precondition: configured limits are positive']


def both(*cs):
    return z3.And(*[B(c) for c in cs])


def R(ex, op, a, b):
    return cmp_real(ex.ctx, op, const(a), const(b))


class G:
    """ghost state of a solve"""


def eqi(a, b):
    return cmpi('==', a, b)


def setup(ex, init=True):
    g = G()
    g.N = N = ex.int('N', 0)
    g.m = m = ex.int('m', 0)
    cfg = fresh_struct(ex, 'conex::SolverConfiguration', 'config')
    g.cfg = ex.new(cfg, 'config')
    g.maxit = cfg.fs['max_iterations']
    ex.assume(I(g.maxit) >= 0)
    ex.assume(both(R(ex, '>', cfg.fs['inv_sqrt_mu_max'], ZERO), R(ex, '>=', cfg.fs['maximum_mu'], ZERO)))
    g.quad = ex.bool('contains quadratic costs')
    g.status = fresh_struct(ex, 'conex::ConexStatus', 'status')
    S = ex.int('size of the system', 0)
    ex.assume(S >= m)
    g.S = S
    sysv = fresh_struct(ex, 'conex::WorkspaceSchurComplement', 'sys', G=ex.mat('G', S, S), AW=ex.vec('AW', S), AQc=ex.vec('AQc', S), m_=S,
                        residual_only_=True, initialized=True, inner_product_of_w_and_c=ex.real('wc'), inner_product_of_c_and_Qc=ex.real('cqc'))
    lst = Vec(N, lambda k: Opaque('constraint'), 'conex::Constraint *')
    st = ex.new(Opaque('solver'), 'solver object')
    g.arr = ex.new(Vec(ex.int('max_iter', 0), lambda k: var('sqrt_inv_mu0', k), 'double'), 'sqrt_inv_mu')
    g.bs, g.cs = ex.new(ex.real('b_scaling'), 'b_scaling'), ex.new(ex.real('c_scaling'), 'c_scaling')
    ex.assume(both(R(ex, '>', var('b_scaling'), ZERO), R(ex, '>', var('c_scaling'), ZERO)))
    rec = ex.find_rec('conex::WorkspaceStats')
    fs = {f: Opaque(f) for f, _, _ in ex.rec_fields(rec)}
    fs.update(sqrt_inv_mu=Ptr(g.arr / ('at', 0), False), norm_inf_d=Ptr(g.arr / ('at', 0), False), b_scaling_=Ptr(g.bs, False), c_scaling_=Ptr(g.cs, False),
              num_iter=ex.int('num_iter0', 0), max_iter_=ex.int('max_iter', 0), initialized=True)
    g.stats = ex.new(Struct(rec['qual'], fs), 'stats')
    g.prog = program(ex, N, status_=g.status, contains_quadratic_costs_=g.quad, linear_cost_=ex.vec('cost', m), constraints_=lst,
                     solver=Ptr(st, False), sys=sysv, stats=Ptr(g.stats, False))
    g.initialised = False
    g.prepare = g.dual = None

    def initialize(ex_, this, args):
        # contract Initialize: storage for the configured number of iterations
        ex.assume(I(ex.int('max_iter', 0)) >= I(g.maxit))
        g.initialised = True
        return True
    ex.contracts['conex::Initialize'] = initialize
    ex.contracts['SizeOfKKTSystem'] = lambda ex_, this, args: S
    ex.contracts['conex::Rank'] = lambda ex_, this, args: ex.int('rank', 0)
    for nm in ('SetIterativeRefinementIterations', 'SetSolverMode'):
        ex.contracts['SupernodalKKTSolver::' + nm] = lambda ex_, this, args: None
    return g


def put(ex, g, *path):
    lv = g.prog
    for f in path:
        lv = lv / ('f', f)
    return lv


def callees(ex, g):
    S = g.S
    fresh = lambda: fresh_name('cs')
    g.factored = ex.new(False, 'ghost: the current system is factorised')
    g.skipped = ex.new(False, 'ghost: the first iteration was aborted')
    g.mu = ex.new(ZERO, 'ghost: parameter of the last iterate')
    g.y = ex.new(ex.vec('no iterate', S), 'ghost: last iterate')
    g.ys = [ex.new(ex.real('no ' + x), 'ghost: %s of the last iterate' % x) for x in ('b_scaling', 'c_scaling')]

    def assemble(ex_, this, args):
        ex.store(g.factored, False)
    ex.contracts['SupernodalKKTSolver::Assemble'] = assemble

    def residuals(ex_, this, args):
        a, q, u, v = fresh(), fresh(), fresh(), fresh()
        for f, val in (('AW', ex.vec(a, S)), ('AQc', ex.vec(q, S)), ('inner_product_of_w_and_c', ex.real(u)), ('inner_product_of_c_and_Qc', ex.real(v))):
            ex.store(put(ex, g, 'sys', f), val)
    ex.contracts['conex::AssembleSchurComplementResiduals'] = residuals

    def factor(ex_, this, args):
        r = ex.choose('factorisation succeeds')
        ex.store(g.factored, r)
        if not r:
            ex.store(g.skipped, True)
        return r
    ex.contracts['SupernodalKKTSolver::Factor'] = factor

    def solve(ex_, this, args):
        ex.oblige('a system is solved only after a successful factorisation', ex.rv(g.factored))
        lv = value_lv(ex, args[0])
        g.iterate(ex, ex.rv(lv)) if g.iterate else None
        y = ex.vec(fresh(), S)
        ex.store(lv, y)
        ex.store(g.y, y)
    ex.contracts['SupernodalKKTSolver::SolveInPlace'] = solve

    def solve2(ex_, this, args):
        v = ex.vec(fresh(), S)
        if g.dual is not None:
            g.dual(g, ex.rv(args[0]), v)
        return v
    ex.contracts['SupernodalKKTSolver::Solve'] = solve2

    def mu(ex_, this, args):
        ex.oblige('a system is solved only after a successful factorisation', ex.rv(g.factored))
        ex.store(value_lv(ex, args[-1]), ex.vec(fresh(), S))
        return ex.real(fresh())
    ex.contracts['conex::ComputeMuFromLineSearch'] = mu
    ex.contracts['conex::ComputeMuFromDivergence'] = mu

    def prep(ex_, this, args):
        inf = args[-1].lv
        if g.prepare is not None:
            g.prepare(g, args)
        ex.store(inf / ('f', 'normsqrd'), ex.real(fresh()))
        ex.store(inf / ('f', 'norminfd'), ex.real(fresh()))
    ex.contracts['conex::PrepareStep'] = prep
    ex.contracts['conex::TakeStep'] = lambda ex_, this, args: None
    ex.contracts['conex::SetIdentity'] = lambda ex_, this, args: None

    def limits(ex_, this, args):
        """contract of ApplyLimits (C07): the value, raised to the minimum or lowered to the limit in force"""
        ex.oblige_eq('lower limit in force', ex.rv(args[1]) if isinstance(args[1], LV) else args[1], g.min)
        ex.oblige_eq('upper limit in force', ex.rv(args[2]) if isinstance(args[2], LV) else args[2], g.lim())
        x = ex.real(fresh())
        ex.assume(both(R(ex, '>=', x, g.min), z3.Or(B(R(ex, '<=', x, g.lim())), B(R(ex, '==', x, g.min)))))
        ex.store(value_lv(ex, args[0]), x)
    ex.contracts['conex::ApplyLimits'] = limits
    # limits of the parameter, in the units of the iteration
    c = ex.rv(g.cfg).fs
    M = c['inv_sqrt_mu_max']
    g.lim = lambda: T.ite(B(cmpi('!=', c['enable_rescaling'], 0)), T.inv(T.fn('sqrt', T.inv(M * M) * ex.rv(g.bs) * ex.rv(g.cs))), M)
    g.min = T.fn('sqrt', T.inv(c['maximum_mu'] + Fraction(1, 10 ** 15)))
    g.M = M


def iterate(g):
    def f(ex, v):
        """the right-hand side of an iterate: k (b b_scaling + AQc c_scaling) - 2 AW"""
        sysv = ex.rv(put(ex, g, 'sys'))
        bs, cs = ex.rv(g.bs), ex.rv(g.cs)
        rhs = lambda k: Mat(g.S, 1, lambda i, _: k * (T.ite(B(cmpi('<', i, g.m)), -var('cost', i), ZERO) * bs + sysv.fs['AQc'].at(i, I(0)) * cs) - 2 * sysv.fs['AW'].at(i, I(0)))
        k = ex.rv(View(ex, ex.frames[-1]).lv('newton_step_parameters') / ('f', 'inv_sqrt_mu'))
        ex.oblige_eq('right-hand side of the iterate', v, rhs(k))
        ex.store(g.mu, k)
        ex.store(g.ys[0], bs)
        ex.store(g.ys[1], cs)
    return f


def value_lv(ex, a):
    while True:
        b = a.lv if isinstance(a, Ptr) else ex.load(a)
        if not isinstance(b, (LV, Ptr)):
            return a
        a = b


class Iterations(Invariant):
    """after i iterations"""

    def __init__(self, g, n_any):
        self.g = g
        self.j = n_any      # an arbitrary recorded entry
        self.havocked = False

    def lvs(self, ex, s):
        return s.lv('inv_sqrt_mu_max'), s.lv('newton_step_parameters') / ('f', 'inv_sqrt_mu'), s.lv('ydata')

    def havoc(self, ex, s):
        g = self.g
        mx, k, y = self.lvs(ex, s)
        s['i'] = i = ex.int('i')
        n = ex.int('done')
        ex.store(g.stats / ('f', 'num_iter'), n)
        mu = ex.real('last_mu')
        ex.store(g.mu, mu)
        ys = ex.vec('last_y', g.S)
        ex.store(g.y, ys)
        ex.store(g.arr, Vec(ex.rv(g.arr).n, lambda q: T.ite(B(cmpi('==', q, n - 1)), mu, var('recorded', q)), 'double'))
        ex.store(g.bs, ex.real('bs'))
        ex.store(g.cs, ex.real('cs'))
        ex.store(g.ys[0], T.ite(B(cmpi('>=', n, 1)), ex.real('bs'), ZERO))
        ex.store(g.ys[1], T.ite(B(cmpi('>=', n, 1)), ex.real('cs'), ZERO))
        ex.store(g.skipped, ex.bool('skipped'))
        ex.store(g.factored, ex.bool('factored'))
        ex.store(mx, T.ite(B(cmpi('==', i, 0)), g.M, g.lim()))
        ex.store(k, T.ite(B(cmpi('>=', n, 1)), mu, ZERO))
        # 1/0 is infinity
        kk = ex.rv(k)
        ex.assume(z3.Implies(n <= 0, B(R(ex, '>', T.inv(kk) * T.inv(kk), ex.rv(g.cfg).fs['infeasibility_threshold']))))
        # congruence, stated before n is known (the normaliser then still sees both terms)
        ex.assume(z3.Implies(n >= 1, B(R(ex, '==', T.inv(kk) * T.inv(kk), T.inv(mu) * T.inv(mu)))))
        old = ex.rv(y)
        nm = fresh_name('stale')
        ex.store(y, Mat(old.rows, old.cols, lambda a, b: T.ite(B(cmpi('>=', n, 1)), ys.at(a, b), var(nm, a, b)), old.arr))
        self.havocked = True

    def recorded(self, ex, n):
        g = self.g
        x = ex.rv(g.arr).at(self.j)
        lim = g.lim()
        return z3.Implies(z3.And(self.j >= 0, self.j < n, z3.Not(z3.And(self.j == 0, B(ex.rv(g.skipped))))),
                          both(R(ex, '>=', x, g.min), z3.Or(B(R(ex, '<=', x, lim)), B(R(ex, '==', x, g.min)))))

    def props(self, ex, s):
        g = self.g
        i, n = I(s['i']), I(ex.rv(g.stats / ('f', 'num_iter')))
        mx, k, y = self.lvs(ex, s)
        out = [('range', z3.And(i >= 0, i <= I(g.maxit))),
               ('recorded iterations', z3.And(n >= 0, n <= i, z3.Or(n == i, z3.And(i == 1, n == 0, B(ex.rv(g.skipped)))))),
               ('positive scalings', both(R(ex, '>', ex.rv(g.bs), ZERO), R(ex, '>', ex.rv(g.cs), ZERO))),
               ('recorded parameters are within the limits', self.recorded(ex, n))]
        if not self.havocked:
            mu = ex.rv(g.mu)
            one = B(cmpi('>=', n, 1))
            out += [('limit in the units of the iteration', ('eq', ex.rv(mx), T.ite(B(cmpi('==', i, 0)), g.M, g.lim()))),
                    ('current parameter', ('eq', ex.rv(k), T.ite(one, mu, ZERO))),
                    ('scalings of the last iterate: b', ('eq', T.ite(one, ex.rv(g.bs), ZERO), T.ite(one, ex.rv(g.ys[0]), ZERO))),
                    ('scalings of the last iterate: c', ('eq', T.ite(one, ex.rv(g.cs), ZERO), T.ite(one, ex.rv(g.ys[1]), ZERO))),
                    ('last entry is the parameter of the iterate', ('eq', T.ite(one, ex.rv(g.arr).at(isimp(n - 1)), mu), mu)),
                    ('current iterate', ('eq', Mat(g.S, 1, lambda a, b: T.ite(one, ex.rv(y).at(a, b), ZERO)), Mat(g.S, 1, lambda a, b: T.ite(one, ex.rv(g.y).at(a, b), ZERO))))]
        self.havocked = False
        return out


def run_solve(ex, check_iterate, prepare=None, dual=None):
    g = setup(ex)
    g.iterate = None
    callees(ex, g)
    g.prepare, g.dual = prepare, dual
    g.iterate = iterate(g)
    ex.fork_merge = ex.opaque_reductions = True
    j = ex.int('entry')
    g.inv = Iterations(g, j)
    ex.invariants[('Solve', 0)] = g.inv
    g.out0 = Vec(g.m, lambda k: var('x0', k), 'double')
    g.out = ex.new(g.out0, 'primal variable')
    r = ex.run('conex::Solve', [g.prog, g.cfg, Ptr(g.out / ('at', 0), False)], pred=lambda n: cast.sig(n).count(',') == 2)
    ex.oblige('does not throw', r[0] == 'ret')
    return g, r


@contract('C13', 'Solve', [CP], budget=500)
def solve(ex):
    g, r = run_solve(ex, False)
    st = ex.rv(put(ex, g, 'status_'))
    solved = cmpi('!=', iint(st.fs['solved']), 0)
    ret = cmpi('!=', iint(r[1]), 0)
    ex.oblige('the value returned is the solved status', B(ret) == B(solved))
    ex.oblige('solved excludes the infeasibility statuses', z3.Implies(B(solved), both(eqi(iint(st.fs['primal_infeasible']), 0), eqi(iint(st.fs['dual_infeasible']), 0))))
    c = ex.rv(g.cfg).fs
    ex.oblige('quadratic costs without line search or with rescaling: refused', z3.Implies(
        z3.And(g.quad, z3.Or(B(eqi(c['enable_line_search'], 0)), B(cmpi('!=', c['enable_rescaling'], 0)))), z3.Not(B(solved))))
    ex.oblige('no constraints: not solved', z3.Implies(B(eqi(g.N, 0)), z3.Not(B(solved))))
    n = I(ex.rv(g.stats / ('f', 'num_iter')))
    if g.initialised:
        ex.oblige('number of recorded iterations is at most the configured maximum', z3.And(n >= 0, n <= I(g.maxit)))
        ex.oblige('recorded parameters are within the limits', g.inv.recorded(ex, n))
    ex.oblige('a solved program has at least one iteration', z3.Implies(B(solved), z3.And(g.initialised, n >= 1)))
    ex.oblige('solved: the reported number of iterations is the recorded one', z3.Implies(B(solved), B(eqi(st.fs['num_iterations'], n))))


def iint(v):
    return (1 if v else 0) if isinstance(v, bool) else z3.If(v, 1, 0) if is_bool(v) else v


@contract('C13', 'Initialize', [CP])
def initialize(ex):
    """after Initialize the statistics can hold the configured number of iterations; scalings are 1 after a cold start (or a first solve in the program's own memory) and kept otherwise"""
    N = ex.int('N', 0)
    where, oldw = [], z3.Function('old workspace', z3.IntSort(), z3.IntSort())
    man, L, cl, S = manager(ex, N, extra=lambda i: {'supernodal_assembler': Struct('conex::SupernodalAssembler', {
        'workspace_': Ptr(where[0] / ('f', 'kkt_system_manager_') / ('f', 'eqs') / ('at', isimp(oldw(I(i)))) / ('f', 'constraint'), False), 'submatrix_data_': Opaque('s'), 'id': isimp(I(i)), 'resets': 0})})
    cfg = fresh_struct(ex, 'conex::SolverConfiguration', 'config')
    maxit, mode = cfg.fs['max_iterations'], cfg.fs['initialization_mode']
    ex.assume(I(maxit) >= 0)
    was = ex.choose('initialized before')
    nws = ex.int('number of workspaces', 0)
    bs, cs = ex.new(ex.real('b_scaling'), 'old b_scaling'), ex.new(ex.real('c_scaling'), 'old c_scaling')
    rec = ex.find_rec('conex::WorkspaceStats')
    fs = {f: Opaque(f) for f, _, _ in ex.rec_fields(rec)}
    old_max = ex.int('max_iter', 0)
    fs.update(b_scaling_=Ptr(bs, False), c_scaling_=Ptr(cs, False), num_iter=ex.int('num_iter0', 0), max_iter_=old_max, initialized=True)
    stats = ex.new(Struct(rec['qual'], fs), 'stats')
    sysv = fresh_struct(ex, 'conex::WorkspaceSchurComplement', 'sys', G=ex.mat('G', S, S), AW=ex.vec('AW', S), AQc=ex.vec('AQc', S), m_=ex.int('m_', 0),
                        residual_only_=ex.bool('ro'), initialized=True, inner_product_of_w_and_c=ex.real('wc'), inner_product_of_c_and_Qc=ex.real('cqc'))
    prog = program(ex, N, is_initialized=was, workspaces=Vec(nws, lambda k: Opaque('workspace')), constraints_=Vec(N, lambda k: Opaque('constraint'), 'conex::Constraint *'),
                   solver=Ptr(ex.new(Opaque('solver'), 'old solver'), True), sys=sysv, stats=Ptr(stats, not was), kkt=Vec(ex.int('stale', 0), lambda k: Opaque('a'), 'conex::SupernodalAssemblerBase *'))
    where.append(prog)
    ex.store(prog / ('f', 'kkt_system_manager_'), ex.load(man))
    log = []
    own = ex.choose("the program's own memory")
    ex.store(prog / ('f', 'workspace_data_'), Ptr(prog / ('f', 'memory_') if own else ex.new(ex.vec('external', ex.int('ext', 0)), 'memory'), False))
    mem = ex.new(ex.real('undefined b'), 'b scaling in the memory'), ex.new(ex.real('undefined c'), 'c scaling in the memory')
    size = ex.int('size of the system', 0)
    ex.contracts['SizeOfKKTSystem'] = lambda ex_, this, args: size

    def workspace(ex_, this, args):
        """C04: every workspace is given its storage"""
        p = ex.rv(prog / ('f', 'stats'))
        ex.store(p.lv / ('f', 'b_scaling_'), Ptr(mem[0], False))
        ex.store(p.lv / ('f', 'c_scaling_'), Ptr(mem[1], False))
        ex.store(p.lv / ('f', 'initialized'), True)
        log.append('workspace')
        ex.oblige('dimension of the global system', cmpi('==', ex.rv(prog / ('f', 'sys') / ('f', 'm_')), size))
    ex.contracts['Program::InitializeWorkspace'] = workspace

    def identity(ex_, this, args):
        log.append('identity')
    ex.contracts['conex::SetIdentity'] = identity

    def make(ex_, this, args):
        log.append('solver')
        v = value(ex, args[0])
        ex.oblige("one clique per constraint", cmpi('==', v.n, N))
        k, j = ex.int('k', 0), ex.int('j', 0)
        ex.assume(z3.And(k < I(N), j < L(k)))
        ex.oblige("the solver is made from the constraints' cliques", land(cmpi('==', v.at(k).n, L(k)), cmpi('==', v.at(k).at(j), cl(I(k), I(j)))))
        return Struct('conex::SupernodalKKTSolver', {'made': True})
    ex.contracts['ctor conex::SupernodalKKTSolver'] = make

    def bind(ex_, this, args):
        log.append('bind')
        v = value(ex, args[0])
        k = ex.int('k', 0)
        ex.oblige('as many assemblers as constraints are bound', cmpi('==', v.n, N))
        ex.assume(cmpi('<', k, N))
        a = v.at(k)
        x = ex.rv(a.lv)
        ex.oblige("assembler k is bound", cmpi('==', x.fs['id'], k))
        w = x.fs['workspace_']
        ex.oblige("assembler k uses constraint k", isinstance(w, Ptr) and cmpi('==', ex.rv(w.lv).fs['id'], k))
        ex.oblige('assembler k was reset', cmpi('==', x.fs['resets'], 1))
    ex.contracts['SupernodalKKTSolver::Bind'] = bind

    def reset(ex_, this, args):
        ex.store(this / ('f', 'resets'), iadd(ex.rv(this / ('f', 'resets')), 1))
    ex.contracts['SupernodalAssemblerBase::Reset'] = reset
    ex.contracts['SupernodalAssembler::Reset'] = reset
    r = ex.run('conex::Initialize', [prog, ex.new(cfg, 'config')], pred=lambda n: 'Program' in cast.sig(n))
    ex.oblige('does not throw', r[0] == 'ret')
    p = ex.rv(prog / ('f', 'stats'))
    s = ex.rv(p.lv)
    ex.oblige('storage for the configured number of iterations', cmpi('>=', s.fs['max_iter_'], maxit))
    cold = B(eqi(mode, 0))
    reset = z3.Or(cold, I(nws) != 2 * I(N) + 2) if was else z3.Or(cold, z3.BoolVal(own))
    ident = 'identity' in log
    if log:
        ex.oblige('everything is set up, in order', [x for x in log if x != 'identity'] == ['workspace', 'solver', 'bind'] and
                  (not ident or log.index('identity') > 0))
    else:
        ex.oblige('a cold start, new constraints or a first call set everything up', was and z3.Not(reset))
    ex.oblige('a cold start, new constraints or memory without workspaces start from the identity', z3.Implies(reset, z3.BoolVal(ident)))
    ex.oblige('a warm start keeps the point', z3.Implies(z3.Not(reset), z3.BoolVal(not ident)))
    for nm, f, o, un in (('b_scaling', 'b_scaling_', 'b_scaling', 'undefined b'), ('c_scaling', 'c_scaling_', 'c_scaling', 'undefined c')):
        ex.oblige_eq(nm + ': 1 after a cold start, kept otherwise', ex.rv(s.fs[f].lv), T.ite(reset, ONE, var(o if was else un)))


@contract('C13', 'Solve with a cost vector', [CP])
def solve_cost(ex):
    """the linear cost is replaced by -b, then the program is solved"""
    prog, b = with_cost(ex)
    log = []

    def slv(ex_, this, args):
        if len(args) != 3:
            return NotImplemented
        log.append('solve')
        ex.oblige('the program', same_object(ex, args[0], prog))
        ex.oblige('the configuration', same_object(ex, args[1], cfg))
        q = args[2] if isinstance(args[2], Ptr) else ex.rv(args[2])
        ex.oblige('the result array', q.lv.key() == out.key())
        ex.oblige_eq('the linear cost is -b', ex.rv(prog / ('f', 'linear_cost_')), Mat(b.rows, 1, lambda i, j: -b.at(i, j)))
        return u
    u = ex.bool('solved')
    ex.contracts['conex::Solve'] = slv
    cfg = ex.new(fresh_struct(ex, 'conex::SolverConfiguration', 'config'), 'config')
    out = ex.new(Vec(b.rows, lambda k: var('x0', k), 'double'), 'out') / ('at', 0)
    r = ex.run('conex::Solve', [ex.new(b, 'b'), prog, cfg, Ptr(out, False)], pred=lambda n: cast.sig(n).count(',') == 3)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('one solve', log == ['solve'])
    ex.oblige('the status of the solve is returned', B(cmpi('!=', iint(r[1]), 0)) == u)


def with_cost(ex):
    m = ex.int('m', 0)
    b = ex.mat('b', m, 1)
    prog = program(ex, ex.int('N', 0), linear_cost_=ex.vec('cost', m))
    ex.contracts['Program::GetNumberOfVariables'] = lambda ex_, this, args: m
    return prog, b


def same_object(ex, a, lv):
    for _ in range(6):
        if isinstance(a, Ptr):
            a = a.lv
        if not isinstance(a, LV):
            return False
        if a.key() == lv.key():
            return True
        a = ex.load(a)
    return False


share('C13', 'C12', 'CONEX_Solve|CONEX_Maximize|CONEX_GetIterationStats')
share('C13', 'C07', 'ApplyLimits')
