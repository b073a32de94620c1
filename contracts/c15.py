"""C15: primal, dual and cost data in the user's units."""
from common import *
from api import share
from values import mentions
import c13
from c13 import run_solve, put, R, both, iint, eqi
from c12 import memory
from c04 import by_type

ASSUMPTIONS = ['callees of Solve by contract: Initialize (positive scalings), assembly, factorisation (any outcome), line search and divergence bound (any value), step (any norms)',
               'precondition of GetDualVariable: at least one recorded iteration; of CONEX_GetDualVariable: xr * xc is the size reported']


# ---- primal variables
@contract('C15', 'Solve', [CP], budget=500)
def solve(ex):
    """the result is the last iterate, divided by exactly the parameter and the scaling of the cost under which it was computed; the cost is minus the sum of the linear costs"""
    seen = []

    def dual(g, rhs, v):
        """dual variables: affine step for the right-hand side k b b_scaling - AW"""
        sysv = ex.rv(put(ex, g, 'sys'))
        k, bs = ex.rv(g.mu), ex.rv(g.ys[0])
        n = I(ex.rv(g.stats / ('f', 'num_iter')))
        one = B(cmpi('>=', n, 1))
        b = lambda i: T.ite(B(cmpi('<', i, g.m)), -var('cost', i), ZERO)
        ex.oblige_eq('right-hand side of the dual variables', Mat(g.S, 1, lambda i, j: T.ite(one, rhs.at(i, j), ZERO)),
                     Mat(g.S, 1, lambda i, j: T.ite(one, k * b(i) * bs - sysv.fs['AW'].at(i, j), ZERO)))
        seen.append(v)

    def prepare(g, args):
        o = args[1] if isinstance(args[1], Struct) else ex.rv(args[1])
        a = o.fs['affine']
        if a is False:
            return
        if a is True or not seen:
            ex.oblige('the affine step uses the solution', a is True and len(seen) == 1)
            ex.oblige_eq('the affine step uses the solution: y', ex.rv(args[2]), seen[0])
            ex.oblige_eq('the affine step: weight of the identity', o.fs['e_weight'], ZERO)
            ex.oblige_eq('the affine step: weight of the cost', o.fs['c_weight'], ZERO)
            g.prepared = True
    g, r = run_solve(ex, True, prepare, dual)
    st = ex.rv(put(ex, g, 'status_'))
    c = ex.rv(g.cfg).fs
    n = I(ex.rv(g.stats / ('f', 'num_iter')))
    if not ex.decide(cmpi('>=', st.fs['num_iterations'], 1)):
        return
    mu, y, cs = ex.rv(g.mu), ex.rv(g.y), ex.rv(g.ys[1])
    if ex.decide(cmpi('!=', c['prepare_dual_variables'], 0)):
        ex.oblige('dual variables are prepared when requested', bool(seen) and getattr(g, 'prepared', False))
    fin = B(R(ex, '<=', T.inv(mu) * T.inv(mu), c['infeasibility_threshold']))
    k = ex.int('component', 0)
    ex.assume(k < g.m)
    got = ex.rv(g.out).at(k)
    want = y.at(k, I(0))
    ok = ex.decide(fin)
    ex.oblige_eq('iterate divided by its parameter and the scaling of the cost' if ok else 'the ray itself when no solution is found', got, want * T.inv(mu) * T.inv(cs) if ok else want)
    if ok:
        ex.oblige('a scaled point is not reported as a ray', both(eqi(iint(st.fs['primal_infeasible']), 0), eqi(iint(st.fs['dual_infeasible']), 0)))
    ex.oblige_eq('the last recorded parameter is that of the iterate', ex.rv(g.arr).at(isimp(n - 1)), mu)
    ex.oblige_eq('the scalings kept are those of the iterate', ex.rv(g.bs), ex.rv(g.ys[0]))


# ---- dual variables
def raw_out(ex, n, name='x0'):
    return ex.new(Vec(n, lambda k: var(name, k), 'double'), 'memory')


def dual(t, cols, ws, specs=(CAPI, CP)):
    @contract('C15', 'dual variable of ' + t, list(specs))
    def p(ex):
        """through the type erasure: the entries of the constraint's own W, column by column; its size is the number of entries"""
        n = ex.int('n', 0)
        c = {'n': n, '1': 1, '0': 0}[cols]
        rows = n if cols != '0' else 0
        size = imul(rows, c)
        mem, b = raw_out(ex, ex.int('memory', 0), 'w'), ex.int('offset', 0)
        ex.assume(b + I(size) <= I(ex.rv(mem).n))
        W = MapVal(mem / ('at', b), rows, c)
        o = ex.new(fresh_struct(ex, 'conex::' + t, 'o', workspace_=fresh_struct(ex, 'conex::' + ws, 'ws', W=W)), 'o')
        model = ex.new(Struct('conex::Constraint::Model<conex::%s>' % t, {'data': ptr(o)}), 'model')
        con = ex.new(Struct('conex::Constraint', {'model': ptr(model)}), 'c')
        r = ex.run('conex::Constraint::dual_variable_size', [], this=con)
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('size: number of entries', cmpi('==', r[1], size))
        N, a = ex.int('length of the array', 0), ex.int('start', 0)
        ex.assume(a + I(size) <= I(N))
        out = raw_out(ex, N)
        r = ex.run('conex::Constraint::get_dual_variable', [Ptr(out / ('at', a), False)], this=con)
        ex.oblige('does not throw', r[0] == 'ret')
        k = ex.int('k', 0)
        ex.assume(k < N)
        v = ex.rv(out).at(k)
        inside = z3.And(k >= a, k < a + I(size))
        ex.oblige_eq('the entries of W, nothing else', v, T.ite(inside, var('w', isimp(k - a + b)), var('x0', k)))


dual('LinearConstraint', '1', 'WorkspaceLinear')
dual('DenseLMIConstraint', 'n', 'WorkspaceDensePSD')
for _t in ('<>', '<conex::MatrixAlgebra<2>>', '<conex::MatrixAlgebra<4>>'):
    dual('HermitianPsdConstraint' + _t, 'n', 'WorkspaceDenseHermitian')
dual('EqualityConstraints', '0', 'WorkspaceEqualityConstraints')


import c06
from hyper import opaque_products
from c05 import herm_fn


def herm_dual(N):
    for name, affine in (('PrepareStep', True), ('TakeStep', False)):
        @contract('C15', 'HermitianPsd<%d>: the dual variable is the real part of W after %s' % (N, 'the affine step' if affine else 'a step'), [c06.HERM, c06.JORDAN])
        def p(ex, name=name, affine=affine):
            n, m, o, y, W, S = c06.setup(ex, N)
            c06.hslack(ex, N, n, m)
            E = c06.comp('E', N)
            opaque_products(ex, N, n, {'W': W, 'S': S, 'E': E})
            ex.contracts['conex::ExponentialMap'] = lambda ex_, this, args: ex.store(c06.deref(ex, args[1]), ex.rv(c06.hvec(ex, c06.hm(E, n))))
            ex.abstract = True
            old = ex.new(ex.vec('old', imul(n, n)), 'other memory') / ('at', 0)
            ex.store(o / ('f', 'workspace_') / ('f', 'W'), MapVal((o / ('f', 'W') / ('at', 0)) if ex.choose('redirected before') else old, n, n))
            a = [ptr(o), c06.options(ex, affine)] + ([y, ptr(c06.info(ex))] if affine else [])
            r = ex.run(herm_fn(ex, N, '::' + name), a)
            ex.oblige('does not throw', r[0] == 'ret')
            v = ex.load(o / ('f', 'workspace_') / ('f', 'W'))
            ex.oblige_eq('entries', ex.rv(o / ('f', 'workspace_') / ('f', 'W')), ex.rv(o / ('f', 'W') / ('at', 0)))


for _n in (1, 2, 4):
    herm_dual(_n)


def dual_program(ex):
    """program with N constraints; constraint i has a dual variable of size sz(i) with entries d(i, .)"""
    N = ex.int('N', 0)
    sz = z3.Function('size of dual variable', z3.IntSort(), z3.IntSort())
    k = z3.Int('?s')
    ex.ctx.add(z3.ForAll([k], sz(k) >= 0))
    status = fresh_struct(ex, 'conex::ConexStatus', 'status')
    n = ex.int('num_iter', 1)
    mi = ex.int('max_iter', 1)
    ex.assume(n <= mi)
    arr = ex.new(Vec(mi, lambda k: var('sqrt_inv_mu', k), 'double'), 'sqrt_inv_mu')
    bs, cs = ex.new(ex.real('b_scaling'), 'b_scaling'), ex.new(ex.real('c_scaling'), 'c_scaling')
    rec = ex.find_rec('conex::WorkspaceStats')
    fs = {f: Opaque(f) for f, _, _ in ex.rec_fields(rec)}
    fs.update(sqrt_inv_mu=Ptr(arr / ('at', 0), False), b_scaling_=Ptr(bs, False), c_scaling_=Ptr(cs, False), num_iter=n, max_iter_=mi, initialized=True)
    stats = ex.new(Struct(rec['qual'], fs), 'stats')
    prog = program(ex, N, status_=status, stats=Ptr(stats, False))

    def get(ex_, this, args):
        i = constraint_id(ex, this)
        p = args[0] if isinstance(args[0], Ptr) else ex.rv(args[0])
        lv = p.lv
        while lv.path and lv.path[-1][0] in ('lin', 'at', 'map'):
            off, lv = lv.path[-1], LV(lv.loc, lv.path[:-1])
            ex.oblige('the whole array is written', off[0] == 'map' or ikey(off[1]) == '0')
        v = ex.rv(lv)
        s = isimp(sz(I(i)))
        ex.oblige('the array can hold the dual variable', cmpi('<=', s, v.n if isinstance(v, Vec) else imul(v.rows, v.cols)))
        if not isinstance(v, Vec):
            raise Unsupported('dual variable written to %r' % (v,))
        ex.store(lv, Vec(v.n, lambda k: T.ite(cmpi('<', k, s), var('d', i, k), v.at(k)), 'double'))
    ex.contracts['conex::Constraint::get_dual_variable'] = get
    ex.contracts['conex::Constraint::dual_variable_size'] = lambda ex_, this, args: isimp(sz(I(constraint_id(ex, this))))
    return prog, N, sz, n


@contract('C15', 'GetDualVariable', [CAPI])
def get_dual(ex):
    """dual variable i, divided by the parameter of the last iterate and the scaling of b; a ray is returned as it is"""
    prog, N, sz, n = dual_program(ex)
    i = ex.int('constraint')
    r, c = ex.int('rows', 0), ex.int('cols', 0)
    valid = ex.decide(z3.And(i >= 0, i < N))
    if valid:
        ex.assume(cmpi('==', imul(r, c), sz(i)))
    out = raw_out(ex, imul(r, c))
    xi = ex.new(MapVal(out / ('at', 0), r, c), 'xi')
    q = ex.run('conex::Program::GetDualVariable', [i, ptr(xi)], this=prog)
    ex.oblige('does not throw', q[0] == 'ret')
    dual_result(ex, prog, valid, i, n, out, r, c)


def dual_result(ex, prog, valid, i, n, out, r, c):
    v = ex.rv(out)
    if not valid:
        ex.oblige_eq('invalid constraint: nothing is written', v, Vec(v.n, lambda k: var('x0', k), 'double'))
        return
    ray = ex.decide(cmpi('!=', iint(ex.rv(prog / ('f', 'status_')).fs['primal_infeasible']), 0))
    scale = ONE if ray else T.inv(var('sqrt_inv_mu', isimp(n - 1))) * T.inv(var('b_scaling'))
    # column-major: entry (a, b) is element a + r b
    a, b = ex.int('a', 0), ex.int('b', 0)
    ex.assume(z3.And(a < r, b < c))
    k = iadd(a, imul(r, b))
    ex.assume(land(cmpi('<', k, imul(r, c)), cmpi('==', isimp(I(k) % I(r)), a), cmpi('==', isimp(I(k) / I(r)), b)))
    ex.oblige_eq('ray of an infeasible program' if ray else 'divided by the parameter and the scaling of b', v.at(k), var('d', i, k) * scale)


@contract('C15', 'GetDualVariableSize', [CAPI])
def dual_size(ex):
    prog, N, sz, n = dual_program(ex)
    i = ex.int('constraint')
    q = ex.run('conex::Program::GetDualVariableSize', [i], this=prog)
    if ex.decide(z3.And(i >= 0, i < N)):
        ex.oblige("the constraint's own size", q[0] == 'ret' and cmpi('==', q[1], sz(i)))


@contract('C15', 'CONEX_GetDualVariable', [CAPI])
def capi_dual(ex):
    prog, N, sz, n = dual_program(ex)
    i = ex.int('constraint')
    r, c = ex.int('rows', 0), ex.int('cols', 0)
    ex.assume(z3.And(i >= 0, i < N))
    ex.assume(cmpi('==', imul(r, c), sz(i)))
    out = raw_out(ex, imul(r, c))
    q = ex.run('CONEX_GetDualVariable', [ptr(prog), i, Ptr(out / ('at', 0), False), r, c])
    ex.oblige('does not throw', q[0] == 'ret')
    dual_result(ex, prog, True, i, n, out, r, c)
    q = ex.run('CONEX_GetDualVariableSize', [ptr(prog), i])
    ex.oblige('the size reported', q[0] == 'ret' and cmpi('==', q[1], sz(i)))


# ---- linear costs
@contract('C15', 'AddLinearCost', [CP])
def add_cost(ex):
    """the costs added since the last clearing are summed"""
    m, k = ex.int('m', 0), ex.int('rows', 0)
    prog = program(ex, ex.int('N', 0), linear_cost_=ex.vec('cost', m))
    ex.store(prog / ('f', 'kkt_system_manager_') / ('f', 'max_number_of_variables_'), m)
    b = ex.new(ex.vec('b', k), 'b')
    r = ex.run('conex::Program::AddLinearCost', [b], this=prog)
    ok = ex.decide(cmpi('==', k, m))
    ex.oblige('does not throw', r[0] == 'ret')
    v = ex.rv(prog / ('f', 'linear_cost_'))
    ex.oblige_eq('sum' if ok else 'wrong dimension: unchanged', v, Mat(m, 1, lambda i, j: var('cost', i) + (var('b', i) if ok else ZERO)))


@contract('C15', 'ClearLinearCosts', [CP])
def clear_cost(ex):
    m = ex.int('m', 0)
    prog = program(ex, ex.int('N', 0), linear_cost_=ex.vec('cost', m))
    r = ex.run('conex::Program::ClearLinearCosts', [], this=prog)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('zero', ex.rv(prog / ('f', 'linear_cost_')), Mat(m, 1, lambda i, j: ZERO))


share('C15', 'C13', 'Solve with a cost vector')
share('C15', 'C12', 'CONEX_Solve|CONEX_Maximize')
share('C15', 'C06', 'HermitianPsd.*affine|Psd.affine|Linear.affine')
