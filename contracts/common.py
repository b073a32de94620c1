"""Symbolic inputs shared by the contracts."""
import os
import sys
import z3
from api import contract
import cast
from exec import *
import terms as T

LC = 'conex/linear_constraint.cc'
SOC = 'conex/soc_constraint.cc'
QC = 'conex/quadratic_cone_constraint.cc'
LMI = 'conex/dense_lmi_constraint.cc'
PSD = 'conex/psd_constraint.cc'
HERM = 'conex/hermitian_psd.cc'
JORDAN = 'conex/jordan_matrix_algebra.cc'
EQ = 'conex/equality_constraint.cc'
COST = 'conex/quadratic_cost.cc'
CP = 'conex/cone_program.cc'
SA = 'conex/supernodal_assembler.cc'
CAPI = ('interfaces/conex.cc', ('conex+CONEX',))


def by_type(name):
    """select the overload whose signature mentions a type"""
    return lambda n: name in cast.sig(n)


def ptr(lv):
    return Ptr(lv, False)


def fresh_struct(ex, t, name, **over):
    """arbitrary object of a class of the code; over: fixed fields"""
    rec = ex.find_rec(t)
    if rec is None:
        raise cast.ExtractError('no class %s' % t)
    d = {}
    for f, ft, _ in ex.rec_fields(rec):
        d[f] = over.pop(f) if f in over else ex.fresh_of(ft, name + '.' + f)
    if over:
        raise cast.ExtractError('class %s has no member %s' % (t, sorted(over)))
    return Struct(rec['qual'], d)


def schur_sys(ex, M, name='sys'):
    v = fresh_struct(ex, 'conex::WorkspaceSchurComplement', name, G=ex.mat('G0', M, M), AW=ex.vec('AW0', M),
                     AQc=ex.vec('AQc0', M), m_=M, residual_only_=False, initialized=True,
                     inner_product_of_w_and_c=ex.real('wc0'), inner_product_of_c_and_Qc=ex.real('cqc0'))
    return ex.new(v, name)


def check_schur(ex, z, M, m, init, G, AW, AQc, wc, cqc, lower=False, dims=True):
    """the Newton coefficients: overwritten (init) or added to the previous contents.
    G(i,j), AW(i), AQc(i) on the leading m; entries beyond m: zero / unchanged"""
    i0 = init if isinstance(init, bool) else ex.quick_entails(init)
    acc = (lambda new, old: new) if i0 else (lambda new, old: new + old)
    tag = 'overwrite' if i0 else 'accumulate'
    Gz, AWz, AQz = ex.rv(z / ('f', 'G')), ex.rv(z / ('f', 'AW')), ex.rv(z / ('f', 'AQc'))
    ex.oblige('%s: system dimensions unchanged' % tag, land(cmpi('==', Gz.rows, M), cmpi('==', Gz.cols, M),
                                                           cmpi('==', AWz.rows, M), cmpi('==', AQz.rows, M)))
    rng = (lambda i, j: B(cmpi('>=', i, j))) if lower else None
    full = M is m

    def ext(f, old):
        def g(*ix):
            core = acc(const(f(*ix)), old(*ix))
            if full:
                return core
            inside = land(*[cmpi('<', x, m) for x in ix])
            return T.ite(inside, core, acc(ZERO, old(*ix)))
        return g
    ex.oblige_eq('%s: G = A^T Q(w) A' % tag, Gz, Mat(M, M, ext(G, lambda i, j: var('G0', i, j))), rng=rng)
    ex.oblige_eq('%s: AW = A^T w' % tag, AWz, Mat(M, 1, lambda i, j: ext(AW, lambda a: var('AW0', a))(i)))
    ex.oblige_eq('%s: AQc = A^T Q(w) c' % tag, AQz, Mat(M, 1, lambda i, j: ext(AQc, lambda a: var('AQc0', a))(i)))
    if wc is not None:
        ex.oblige_eq('%s: <w,c>' % tag, ex.rv(z / ('f', 'inner_product_of_w_and_c')), acc(const(wc), var('wc0')))
    if cqc is not None:
        ex.oblige_eq('%s: <c,Q(w)c>' % tag, ex.rv(z / ('f', 'inner_product_of_c_and_Qc')), acc(const(cqc), var('cqc0')))


# ---- constraints
def linear(ex, n, m):
    ws = fresh_struct(ex, 'conex::WorkspaceLinear', 'ws', W=ex.vec('w', n), temp_1=ex.vec('t1', n), temp_2=ex.vec('t2', n),
                      weighted_constraints=ex.mat('wcs', n, m), n_=n, num_vars_=m)
    return ex.new(fresh_struct(ex, 'conex::LinearConstraint', 'o', workspace_=ws,
                               constraint_matrix_=ex.mat('A', n, m), constraint_affine_=ex.vec('c', n)), 'o')


def soc(ex, n, m, W0=None, W1=None, **over):
    """constraint in R^(n+1): A is (n+1) x m"""
    w0 = ex.new(W0 if W0 is not None else ex.real('w0'), 'W0')
    ws = fresh_struct(ex, 'conex::WorkspaceSOC', 'ws', W0=Ptr(w0, False), W1=W1 if W1 is not None else ex.vec('w1', n),
                      temp1_1=ex.vec('t1', n), temp2_1=ex.vec('t2', n), temp3_1=ex.vec('t3', n), n_=n,
                      W=ex.vec('Wd', iadd(n, 1)), **over)
    o = ex.new(fresh_struct(ex, 'conex::SOCConstraint', 'o', workspace_=ws, n_=n,
                            constraint_matrix_=ex.mat('A', iadd(n, 1), m), constraint_affine_=ex.vec('c', iadd(n, 1))), 'o')
    return o, w0


def psd_ws(ex, n):
    return fresh_struct(ex, 'conex::WorkspaceDensePSD', 'ws', W=symmetric(ex, 'w', n), temp_1=ex.mat('t1', n, n),
                        temp_2=ex.mat('t2', n, n), n_=n)


def symmetric(ex, name, n):
    """symmetric matrix: entries of the lower triangle"""
    return Mat(n, n, lambda i, j: T.ite(cmpi('>=', i, j), var(name, i, j), var(name, j, i)))


def lmi(ex, n, m):
    mats = Vec(m, lambda k: Mat(n, n, lambda i, j: var('A', k, i, j)), 'Eigen::Matrix<double, -1, -1>')
    vect = Mat(imul(n, n), m, lambda r, k: var('A', k, isimp(I(r) % I(n)), isimp(I(r) / I(n))),
               pair=(n, n, lambda a, b, k: var('A', k, a, b)))
    return ex.new(fresh_struct(ex, 'conex::DenseLMIConstraint', 'o', workspace_=psd_ws(ex, n), num_dual_constraints_=m,
                               constraint_matrices_=mats, constraint_matrices_vect_=vect,
                               constraint_affine_=ex.mat('c', n, n)), 'o')


def value(ex, a):
    """the value behind (references to) an argument"""
    for _ in range(8):
        b = a.lv if isinstance(a, Ptr) else ex.rv(a)
        if b is a:
            return b
        a = b
    return a


def manager(ex, N, cliques=True, extra=None):
    """ConstraintManager with N constraints; clique k has L(k) entries cl(k, j) in [0, S)"""
    L = z3.Function('L', z3.IntSort(), z3.IntSort())
    cl = z3.Function('cl', z3.IntSort(), z3.IntSort(), z3.IntSort())
    S = ex.int('S', 0)
    k, j = z3.Ints('?k ?j')
    ex.ctx.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(N)), L(k) >= 0)))
    ex.ctx.add(z3.ForAll([k, j], z3.Implies(z3.And(0 <= k, k < I(N), 0 <= j, j < L(k)), z3.And(0 <= cl(k, j), cl(k, j) < S))))

    def box(i):
        d = {'constraint': Struct('conex::Constraint', {'model': Opaque('model'), 'id': isimp(I(i))}), 'obj': Opaque('any')}
        if extra:
            d.update(extra(i))
        return Struct('conex::Container', d)
    man = Struct('conex::ConstraintManager<conex::Container>', {
        'eqs': Vec(N, box, 'conex::Container'),
        'cliques': Vec(N, lambda i: Vec(isimp(L(I(i))), lambda j: isimp(cl(I(i), I(j))), 'int'), 'std::vector<int>'),
        'dual_vars': Opaque('dual_vars'), 'max_number_of_variables_': ex.int('nv', 0), 'dual_variable_start_': ex.int('dvs', 0)})
    return ex.new(man, 'man'), L, cl, S


def constraint_id(ex, a):
    """the index of the constraint an argument points to; None for other types"""
    v = a
    for _ in range(6):
        if isinstance(v, Ptr):
            v = v.lv
        w = ex.load(v) if isinstance(v, LV) else v
        if isinstance(w, Struct):
            return w.fs.get('id')
        if w is v:
            return None
        v = w
    return None


def program(ex, N, **over):
    """a Program with N constraints (see manager)"""
    man, L, cl, S = manager(ex, N)
    rec = ex.find_rec('conex::Program')
    if rec is None:
        raise cast.ExtractError('no class Program')
    fs = {f: over.pop(f) if f in over else Opaque(f) for f, _, _ in ex.rec_fields(rec)}
    fs['kkt_system_manager_'] = ex.load(man)
    if over:
        raise cast.ExtractError('class Program has no member %s' % sorted(over))
    return ex.new(Struct(rec['qual'], fs), 'prog')
