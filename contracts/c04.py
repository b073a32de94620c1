"""C04: workspace memory regions are disjoint, in bounds and aligned."""
from common import *
from ctors import INST


ASSUMPTIONS = ['sizes are non-negative and their products fit an int (machine arithmetic treated as mathematical)',
               'mathematical lemma (induction): consecutive regions [p(i), p(i)+size(i)) with p(i+1) = p(i)+size(i), size >= 0, are pairwise disjoint and end at p(0)+sum of sizes',
               'a TriangularMatrixWorkspace is initialised once (its only use, the constructor of SparseTriangularMatrix)']


def raw(ex, name='memory'):
    """a block of doubles and a pointer somewhere into it"""
    b = ex.int('base', 0)
    m = ex.new(Vec(ex.int('total', 0), lambda k: var(name, k), 'double'), name)
    return m, b, Ptr(m / ('at', b), False)


def regions(ex, o):
    """(name, start, rows, cols) of every view and pointer among the members of an object"""
    out = []
    v = ex.rv(o)
    for f, x in v.fs.items():
        if isinstance(x, MapVal):
            if x.lv.loc.startswith('null'):
                continue
            if not x.lv.path or x.lv.path[-1][0] != 'at':
                raise Unsupported('view %s' % f)
            out.append((f, x.lv.loc, x.lv.path[-1][1], x.rows, x.cols))
        elif isinstance(x, Ptr) and x.lv is not None and x.lv.path and x.lv.path[-1][0] == 'at':
            out.append((f, x.lv.loc, x.lv.path[-1][1], 1, 1))
    return out


def layout(ex, o, loc, base, size, want, align=4):
    """views inside [base, base+size), disjoint, aligned, of the expected dimensions"""
    got = {f: r for f, *r in regions(ex, o)}
    ex.oblige('every view is placed', sorted(got) == sorted(want))
    ex.oblige('the size is not negative', cmpi('>=', size, 0))
    rs = sorted(set(got) & set(want))
    ln = {}
    for f in rs:
        l, a, r, c = got[f]
        wr, wc = want[f][:2]
        ex.oblige('%s: its dimensions' % f, land(cmpi('==', r, wr), cmpi('==', c, wc)))
        n = ln[f] = want[f][2] if len(want[f]) > 2 else imul(wr, wc)
        ex.oblige('%s: in the memory given' % f, l == loc)
        ex.oblige('%s: inside the region' % f, land(cmpi('>=', a, base), cmpi('<=', iadd(a, n), iadd(base, size))))
        if align:
            ex.oblige('%s: aligned' % f, isimp((I(a) - I(base)) % align) == 0)
    for i, f in enumerate(rs):
        for g in rs[:i]:
            a, b = got[f][1], got[g][1]
            ex.oblige('%s and %s do not overlap' % (g, f), lor(cmpi('<=', iadd(a, ln[f]), b), cmpi('<=', iadd(b, ln[g]), a)))


def sizeof(ex, o, t):
    r = ex.run('conex::SizeOf', [o], pred=by_type('const %s &' % t))
    ex.oblige('SizeOf does not throw', r[0] == 'ret')
    return r[1]


def workspace(t, dims, want, align=4, spec=CAPI):
    @contract('C04', t, [spec])
    def p(ex):
        ds = {k: ex.int(k, 0) for k in dims}
        o = ex.new(fresh_struct(ex, 'conex::' + t, 'o', **ds), 'o')
        d = {k.rstrip('_'): v for k, v in ds.items()}
        before = {k: ex.rv(o).fs[k] for k in dims}
        s = sizeof(ex, o, t)
        m, b, q = raw(ex)
        r = ex.run('conex::Initialize', [ptr(o), q], pred=by_type('(%s *' % t))
        ex.oblige('does not throw', r[0] == 'ret')
        layout(ex, o, m.loc, b, s, want(d), align)
        ex.oblige('sizes unchanged', all(ex.rv(o).fs[k] is before[k] for k in dims))


vecs = lambda n, *fs: {f: (n, 1) for f in fs}
workspace('WorkspaceLinear', ['n_', 'num_vars_'], lambda d: dict(vecs(d['n'], 'W', 'temp_1', 'temp_2'), weighted_constraints=(d['n'], d['num_vars'])))
workspace('WorkspaceSOC', ['n_'], lambda d: dict(vecs(d['n'], 'W1', 'temp1_1', 'temp2_1', 'temp3_1'), W0=(1, 1)))
square = lambda d: {f: (d['n'], d['n']) for f in ('W', 'temp_1', 'temp_2')}
workspace('WorkspaceDensePSD', ['n_'], square)
workspace('WorkspaceDenseHermitian', ['n_'], square)


@contract('C04', 'WorkspaceSchurComplement', [CAPI])
def schur(ex):
    ro = ex.choose('residual only')
    m = ex.int('m', 0)
    o = ex.new(fresh_struct(ex, 'conex::WorkspaceSchurComplement', 'o', m_=m, residual_only_=ro, G=MapVal(LV('null#'), 0, 0)), 'o')
    s = sizeof(ex, o, 'WorkspaceSchurComplement')
    mem, b, q = raw(ex)
    r = ex.run('conex::Initialize', [ptr(o), q], pred=by_type('(WorkspaceSchurComplement *'))
    ex.oblige('does not throw', r[0] == 'ret')
    want = vecs(m, 'AW', 'AQc')
    if not ro:
        want['G'] = (m, m)
    layout(ex, o, mem.loc, b, s, want)
    ex.oblige('marked as initialised', B(ex.rv(o).fs['initialized']))


@contract('C04', 'WorkspaceStats', [CAPI])
def stats(ex):
    k = ex.int('max_iter', 0)
    o = ex.new(fresh_struct(ex, 'conex::WorkspaceStats', 'o', max_iter_=k), 'o')
    s = sizeof(ex, o, 'WorkspaceStats')
    mem, b, q = raw(ex)
    r = ex.run('conex::Initialize', [ptr(o), q], pred=by_type('(WorkspaceStats *'))
    ex.oblige('does not throw', r[0] == 'ret')
    layout(ex, o, mem.loc, b, s, {'sqrt_inv_mu': (1, 1, k), 'norm_inf_d': (1, 1, k), 'c_scaling_': (1, 1), 'b_scaling_': (1, 1)}, 0)
    ex.oblige('its size is even (16-byte alignment of what follows)', isimp(I(s) % 2) == 0)
    ex.oblige('marked as initialised', B(ex.rv(o).fs['initialized']))


def sizes(ex, n, name='sz'):
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    k = z3.Int('?k')
    ex.ctx.add(z3.ForAll([k], f(k) >= 0))
    return f


def ident(ex, a):
    v = value(ex, a)
    return v.fs.get('id') if isinstance(v, Struct) else None


@contract('C04', 'vector of workspaces: consecutive regions', [CAPI])
def vector(ex):
    n = ex.int('n', 0)
    sz = sizes(ex, n)
    mem, b, q = raw(ex)
    ws = ex.new(Vec(n, lambda k: Struct('conex::Workspace', {'model': Opaque('model'), 'id': isimp(I(k))}), 'conex::Workspace'), 'x')
    placed = ex.new(Vec(n, lambda k: -1, 'int'), 'placed')

    def size_of(ex, this, args):
        i = ident(ex, args[0])
        return NotImplemented if i is None else isimp(sz(I(i)))

    def init(ex, this, args):
        i = ident(ex, args[0])
        if i is None:
            return NotImplemented
        p = args[1] if isinstance(args[1], Ptr) else ex.rv(args[1])
        ex.oblige('regions in the memory given', p.lv.loc == mem.loc)
        ex.store(placed / ('at', i), p.lv.path[-1][1])
    ex.contracts['conex::SizeOf'] = size_of
    ex.contracts['conex::Initialize'] = init
    pred = by_type('std::vector<Workspace>')
    r = ex.run('conex::SizeOf', [ws], pred=pred)
    ex.oblige('SizeOf: the sum of the sizes', ex.is_prefix_sum(r[1], 0, n, lambda k: sz(I(k))))
    r = ex.run('conex::Initialize', [ptr(ws), q], pred=pred)
    ex.oblige('Initialize does not throw', r[0] == 'ret')
    k = ex.int('k', 0)
    ex.assume(cmpi('<', k, n))
    at = ex.rv(placed).at(k)
    ex.oblige('workspace k starts after the sizes of those before it', ex.is_prefix_sum(isubt(at, b), 0, k, lambda k: sz(I(k))))


def erased(t, specs):
    @contract('C04', 'workspace of ' + t, specs)
    def p(ex):
        """a constraint's workspace is its own member, also behind the type erasure"""
        o = ex.new(fresh_struct(ex, 'conex::' + t, 'o'), 'o')
        mt = 'conex::Constraint::Model<conex::%s>' % t
        model = ex.new(Struct(mt, {'data': ptr(o)}), 'model')
        c = ex.new(Struct('conex::Constraint', {'model': ptr(model)}), 'c')
        r = ex.run('conex::Constraint::workspace', [], this=c)
        ex.oblige('does not throw', r[0] == 'ret')
        w = ex.new(ex.rv(r[1]), 'w')
        same = lambda a: isinstance(a, Ptr) and a.lv is not None and (a.lv.loc, a.lv.path) == (o.loc, (('f', 'workspace_'),)) or \
            isinstance(a, LV) and (a.loc, a.path) == (o.loc, (('f', 'workspace_'),))
        size = ex.int('size', 0)
        mem, b, q = raw(ex)
        calls = ex.new(0, 'calls')

        def size_of(ex, this, args):
            a = args[0]
            if isinstance(a, LV) and isinstance(ex.load(a), Struct) and ex.load(a).t.endswith('::Workspace'):
                return NotImplemented
            ex.oblige('the size of its own workspace', same(a))
            return size

        def init(ex, this, args):
            a = args[0] if isinstance(args[0], Ptr) else ex.rv(args[0])
            if ex.load(a.lv).t.endswith('::Workspace'):
                return NotImplemented
            ex.oblige('its own workspace is initialised', same(a))
            p = args[1] if isinstance(args[1], Ptr) else ex.rv(args[1])
            ex.oblige('at the address given', p.lv.loc == mem.loc and cmpi('==', p.lv.path[-1][1], b))
            ex.store(calls, iadd(ex.rv(calls), 1))
        ex.contracts['conex::SizeOf'] = size_of
        ex.contracts['conex::Initialize'] = init
        r = ex.run('conex::SizeOf', [w], pred=by_type('const Workspace &'))
        ex.oblige('its size', r[0] == 'ret' and cmpi('==', r[1], size))
        r = ex.run('conex::Initialize', [ptr(w), q], pred=by_type('(Workspace *'))
        ex.oblige('initialised once', r[0] == 'ret' and cmpi('==', ex.rv(calls), 1))


for _t in ('LinearConstraint', 'SOCConstraint', 'DenseLMIConstraint', 'EqualityConstraints', 'HermitianPsdConstraint<>',
           'HermitianPsdConstraint<conex::MatrixAlgebra<2>>', 'HermitianPsdConstraint<conex::MatrixAlgebra<4>>',
           'HermitianPsdConstraint<conex::MatrixAlgebra<>>'):
    erased(_t, [CAPI, CP])
erased('QuadraticConstraintBase', [INST, CP])
erased('(anonymous namespace)::QuadraticFunction', [COST])


@contract('C04', 'Program.InitializeWorkspace', [CAPI])
def init_workspace(ex):
    """every constraint's workspace, every submatrix, the statistics and the global system get their regions from a block that is large enough"""
    n = ex.int('n', 0)
    man, L, cl, S = manager(ex, n, extra=lambda i: {'supernodal_assembler': Struct('conex::SupernodalAssembler', {
        'submatrix_data_': Struct('conex::WorkspaceSchurComplement', {'id': isimp(I(i))})})})
    rec = ex.find_rec('conex::Program')
    fs = {f: Opaque(f) for f, _, _ in ex.rec_fields(rec)}
    before = ex.int('entries before', 0)
    old = ex.int('memory before', 0)
    data = ex.new(ex.vec('data', old), 'memory')
    stats = ex.new(Struct('conex::WorkspaceStats', {'max_iter_': ex.int('mi', 0)}), 'stats')
    fs.update(kkt_system_manager_=ex.load(man), workspaces=Vec(before, lambda k: Struct('conex::Workspace', {'kind': 9, 'id': isimp(I(k))}), 'conex::Workspace'),
              stats=ptr(stats), sys=Struct('conex::WorkspaceSchurComplement', {'id': -1}), workspace_data_=ptr(data), is_initialized=ex.bool('ini'))
    o = ex.new(Struct(rec['qual'], fs), 'prog')
    W = lambda kind, i: Struct('conex::Workspace', {'kind': kind, 'id': i})
    need = ex.int('size', 0)
    calls = ex.new(0, 'calls')
    seen = {}

    def ctor(ex, this, args):
        a = args[0]
        v = value(ex, a)
        if v.t == 'conex::Workspace':
            return v
        if v.t == 'conex::WorkspaceStats':
            return W(2, 0)
        if v.t == 'conex::WorkspaceSchurComplement':
            return W(3, 0) if isinstance(v.fs['id'], int) and v.fs['id'] == -1 else W(1, v.fs['id'])
        raise Unsupported('workspace of ' + v.t)
    ex.contracts['ctor conex::Workspace'] = ctor
    ex.contracts['conex::Constraint::workspace'] = lambda ex, this, args: W(0, ex.load(this).fs['id'])

    def size_of(ex, this, args):
        v = value(ex, args[0])
        if not isinstance(v, Vec):
            return NotImplemented
        seen['sized'] = v
        return need

    def init(ex, this, args):
        v = value(ex, args[0])
        if not isinstance(v, Vec):
            return NotImplemented
        p = args[1] if isinstance(args[1], Ptr) else ex.rv(args[1])
        ex.oblige('in the memory of the program', p.lv.loc == data.loc)
        ex.oblige('from its start', cmpi('==', p.lv.path[-1][1], 0))
        ex.oblige('the memory is large enough', cmpi('>=', ex.rv(data).rows, need))
        seen['placed'] = v
        ex.store(calls, iadd(ex.rv(calls), 1))
    ex.contracts['conex::SizeOf'] = size_of
    ex.contracts['conex::Initialize'] = init
    r = ex.run('conex::Program::InitializeWorkspace', [], this=o)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('initialised once', cmpi('==', ex.rv(calls), 1))
    ex.oblige('marked as initialised', B(ex.rv(o / ('f', 'is_initialized'))))
    ws = ex.rv(o / ('f', 'workspaces'))
    ex.oblige('number of workspaces', cmpi('==', ws.n, iadd(imul(2, n), 2)))
    k = ex.int('k', 0)
    ex.assume(cmpi('<', k, n))
    for what, at, kind, i in (("constraint k's workspace", imul(2, k), 0, k), ("constraint k's submatrix", iadd(imul(2, k), 1), 1, k),
                              ('the statistics', imul(2, n), 2, 0), ('the global system', iadd(imul(2, n), 1), 3, 0)):
        for nm, v in (('kept', ws), ('sized', seen.get('sized')), ('placed', seen.get('placed'))):
            x = v.at(at) if v is not None else W(9, 0)
            ex.oblige('%s: %s' % (what, nm), land(cmpi('==', x.fs['kind'], kind), cmpi('==', x.fs['id'], i)))


from ctors import constructors  # noqa: E402
constructors('C04')


TRI = 'conex/triangular_matrix_workspace.cc'


@contract('C04', 'TriangularMatrixWorkspace', [TRI])
def triangular(ex):
    """blocks of the sparse matrix: consecutive regions, one diagonal and one off-diagonal block per supernode"""
    n = ex.int('n', 0)
    s, q = sizes(ex, n, 's'), sizes(ex, n, 'sep')
    ints = lambda f: lambda k: Vec(isimp(f(I(k))), lambda j: ex.fresh_of('int', 'v'), 'int')
    o = ex.new(fresh_struct(
        ex, 'conex::TriangularMatrixWorkspace', 'o', supernode_size=Vec(n, lambda k: isimp(s(I(k))), 'int'),
        snodes=Vec(n, ints(s), 'std::vector<int>'), separators=Vec(n, ints(q), 'std::vector<int>'),
        diagonal=Vec(0, lambda k: Uninit(), 'Eigen::Map<Eigen::Matrix<double, -1, -1>, 16>'),
        off_diagonal=Vec(0, lambda k: Uninit(), 'Eigen::Map<Eigen::Matrix<double, -1, -1>, 16>'),
        seperator_diagonal=Vec(0, lambda k: Uninit(), 'std::vector<double *>'), llts=Opaque('llts'),
        temporaries=Vec(0, lambda k: Uninit(), 'Eigen::Matrix<double, -1, 1>')), 'o')
    ex.contracts['TriangularMatrixWorkspace::S_S'] = lambda ex, this, args: None    # writes only the list of pointers
    up = lambda x: isimp(4 * ((I(x) + 3) / 4))
    dg, od = lambda k: up(s(I(k)) * s(I(k))), lambda k: up(s(I(k)) * q(I(k)))
    r = ex.run('conex::SizeOf', [o], pred=by_type('TriangularMatrixWorkspace'))
    ex.oblige('SizeOf does not throw', r[0] == 'ret')
    ex.oblige('SizeOf: the sum of the sizes', ex.is_prefix_sum(r[1], 0, n, lambda k: dg(k) + od(k)))
    mem, b, p = raw(ex)
    r = ex.run('conex::Initialize', [ptr(o), p], pred=by_type('TriangularMatrixWorkspace'))
    ex.oblige('Initialize does not throw', r[0] == 'ret')
    v = ex.rv(o)
    D, O = v.fs['diagonal'], v.fs['off_diagonal']
    ex.oblige('one block of each kind per supernode', land(cmpi('==', D.n, n), cmpi('==', O.n, n)))
    k = ex.int('k', 0)
    ex.assume(cmpi('<', k, n))
    d, f = D.at(k), O.at(k)
    for w, x, c in (('diagonal', d, s(I(k))), ('off-diagonal', f, q(I(k)))):
        ex.oblige(w + ': in the memory given', x.lv.loc == mem.loc)
        ex.oblige(w + ': its dimensions', land(cmpi('==', x.rows, isimp(s(I(k)))), cmpi('==', x.cols, isimp(c))))
    ds, fs = [isubt(x.lv.path[-1][1], b) for x in (d, f)]
    both = lambda k: dg(k) + od(k)
    D2, F2 = isimp(s(I(k)) * s(I(k))), isimp(s(I(k)) * q(I(k)))

    def region(first, second, n1, n2):
        """the pair's region starts after the sizes of the pairs before it; both blocks are in it, disjoint, aligned"""
        return ex.is_prefix_sum(first, 0, k, both) and ex.ctx.entails(z3.And(
            I(second) >= I(first) + I(n1), I(second) + I(n2) <= I(first) + both(k), (I(second) - I(first)) % 4 == 0))
    ex.oblige('the blocks of a supernode follow the blocks of those before it, in bounds, disjoint, aligned',
              bool(region(ds, fs, D2, F2) or region(fs, ds, F2, D2)))
    kk = ex.int('kk', 0)
    ex.oblige('sizes are multiples of 4 and cover the blocks', land(
        isimp(both(kk) % 4) == 0, cmpi('>=', isimp(dg(kk)), isimp(s(I(kk)) * s(I(kk)))), cmpi('>=', isimp(od(kk)), isimp(s(I(kk)) * q(I(kk))))))
    ex.oblige('one list of pointers and one temporary per supernode', land(
        cmpi('==', v.fs['seperator_diagonal'].n, n), cmpi('==', v.fs['temporaries'].n, n)))
    ex.oblige('temporaries: the size of the separator', cmpi('==', v.fs['temporaries'].at(k).rows, isimp(q(I(k)))))


@contract('C04', 'SparseTriangularMatrix', ['conex/supernodal_solver.cc'])
def sparse_matrix(ex):
    """the matrix owns a block as large as the size of its blocks, and they are placed from its start; copies have their own"""
    n = ex.int('n', 0)
    need = ex.int('need', 0)
    seen = {}

    def ctor(ex, this, args):
        return fresh_struct(ex, 'conex::TriangularMatrixWorkspace', 'w', supernode_size=ex.ivec('ss', n))
    ex.contracts['ctor conex::TriangularMatrixWorkspace'] = ctor

    def size_of(ex, this, args):
        return need if isinstance(value(ex, args[0]), Struct) else NotImplemented
    ex.contracts['conex::SizeOf'] = size_of

    def init(ex, this, args):
        a = args[0] if isinstance(args[0], Ptr) else ex.rv(args[0])
        p = args[1] if isinstance(args[1], Ptr) else ex.rv(args[1])
        seen.setdefault('calls', []).append((a.lv, p.lv))
    ex.contracts['conex::Initialize'] = init
    t = 'conex::SparseTriangularMatrix'
    from ctors import construct
    d = ex.new(fresh_struct(ex, 'conex::MatrixData', 'data'), 'data')
    o = construct(ex, t, [d], '(const MatrixData &')
    for copy in (0, 1):
        if copy:
            o2 = construct(ex, t, [o], '(const SparseTriangularMatrix &')
            o = o2
        v = ex.rv(o)
        ex.oblige('initialised once', len(seen.get('calls', [])) == 1)
        for a, p in seen.pop('calls', []):
            mem = v.fs['memory_']
            ex.oblige('in a block of the size needed', cmpi('>=', mem.rows, need))
            ex.oblige('its own workspace', a.path[-1:] == (('f', 'workspace_'),))
            ex.oblige('in its own memory, from the start', a.loc == p.loc and ('f', 'memory_') in p.path and cmpi('==', p.path[-1][1], 0))
