"""P20: the constrained problem is lowered completely and faithfully."""
from .problib import *
from .allib import ALC, ALS, CV, cv, CONES
from .p09 import fresh

ASSUME = ASSUME_P + ['the problem handed over is fully defined (checked by the solver, decided in P14)',
                     'user models and costs are non-null and their dimensions are positive']
AL = 'altro::augmented_lagrangian::'
KEY = {'eq': 'Equality', 'ineq': 'Inequality'}


def run(job):
    alcost(job)
    build(job)
    copy_from(job)
    initialise(job)
    construct(job)
    num_constraints(job)
    from .p07 import init
    init(job)


def fully_defined(X, P, this, k):
    """the part of completeness that concerns knot point k"""
    raw = lambda w: X.load(LV(P.vk[w][0] + '[]', this.idx + (k,), 'std::shared_ptr<int>'))
    X.assume(z3.And(raw('cost') > 0, raw('dyn') > 0, U_sdim(raw('dyn')) > 0, U_cdim(raw('dyn')) > 0))
    return raw('cost'), raw('dyn')


def alcost(job):
    """the augmented cost of one knot point"""
    prog = job.prog
    X = new_interp(prog)
    P = Prob(X)
    cls = ALC.cls
    f = ctor(prog, cls, lambda g: len(g['params']) == 2 and 'Problem' in g['params'][0]['t'])
    k = z3.Int('k')
    X.trigger_odim = True

    def setup(X):
        p = P.make()
        X.assume(z3.And(k >= 0, k <= P.hor(p.idx)))
        fully_defined(X, P, p, k)
        this = fresh(X, cls)
        return this, [p, X.temp('int', k)]

    def conval(X, this, kind, i):
        fs = [g for g in prog.recs[cls]['fields'] if strip(g['t']).startswith('std::vector<') and CONES[kind] in g['t']]
        if len(fs) != 1:
            raise Unsupported('constraint list of ' + cls)
        lst = X.fieldof(this, fs[0]['n'])
        n = X.load(lst.sub('.#', 'int'))
        return n, (X.load(lst.sub('[]', X.T.elem(strip(lst.typ)), i)) if i is not None else None)

    def post(c):
        X, this, p = c.X, c.this, c.vals[0]
        g = call(X, cls, 'GetCostFunction', this)
        c.eq("the knot point's own cost", P.val(g), c.old(lambda: P.cost(p, k)))
        for kind in ('eq', 'ineq'):
            n0 = c.old(lambda: P.ncon(p, kind, k))
            n, _ = conval(X, this, kind, None)
            c.eq(f'all {kind} constraints', n, n0)
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < n0))
            con = c.old(lambda: P.con(p, kind, k, i))
            _, ref = conval(X, this, kind, i)
            o = LV('H:' + cv(kind), (ref,), cv(kind))
            acc = lambda nm: call(X, cv(kind), nm, o, const=False)
            c.eq(f'{kind} constraint i is the problem\'s constraint i', P.val(acc('GetConstraint')), con)
            e = X.fresh('e', I)
            X.assume(z3.And(e >= 0, e < U_odim(con)))
            z = z3.IntVal(0)
            c.eq(f'{kind} multipliers start at zero', M.elem(X.mget(acc('GetDuals')), e, z), z3.RealVal(0))
            c.eq(f'{kind} penalties start at one', M.elem(X.mget(acc('GetPenalty')), e, z), z3.RealVal(1))
            c.eq(f'{kind} default scaling', P.val(call(X, cv(kind), 'GetPenaltyScaling', o)), z3.RealVal(10))
            m = c.old(lambda: X.load(LV(P.vk['dyn'][0] + '[]', p.idx + (k,), 'std::shared_ptr<int>')))
        storage(c, this)
        from .p14 import unchanged
        unchanged(c, P, p)
    verify(job, X, f, setup, post, 'ALCost(problem, k)')


def storage(c, this):
    """the sizes that the contracts of the augmented cost (P08, P11) take as its class invariant"""
    X, prog, cls = c.X, c.X.prog, ALC.cls
    A = ALC(new_interp(prog))
    inv = A.inv
    n, m = (call(X, cls, w, this) for w in ('StateDimension', 'ControlDimension'))
    names = {path: (key, lt) for key, path, lt in field_leaves(X, LV('H:' + cls, (), cls), True)}
    same = []
    for path, (r, cc) in sorted(inv.mats.items()):
        key, lt = names[path]
        r1, c1 = M.dims(X.load(LV(key, this.idx, lt)))
        sub = lambda v: z3.substitute(v, (inv.n, X.load(n) if isinstance(n, LV) else n), (inv.m, X.load(m) if isinstance(m, LV) else m))
        same += [r1 == sub(r), c1 == sub(cc)]
    c.holds('scratch storage has the sizes of state and control', z3.And(*same))
    for path in sorted(A.tmp):
        kind = 'ineq' if 'ineq' in path else 'eq'
        key, lt = names[path]
        cnt = X.load(LV(A.vecs[kind] + '.#', this.idx, 'int'))
        c.eq(f'one scratch entry per {kind} constraint', M.rows(X.load(LV(key, this.idx, lt))), cnt)


def alcost_contract(X, P):
    """ALCost(problem, k) by contract: an object that belongs to (problem, k)"""
    gk = {nm: f'H:{ALC.cls}.!{nm}' for nm in ('problem', 'index')}
    read = lambda nm: lambda ref: X.load(LV(gk[nm], (ref,), 'int'))
    own, at = read('problem'), read('index')
    f = ctor(X.prog, ALC.cls, lambda g: len(g['params']) == 2 and 'Problem' in g['params'][0]['t'])

    def build(X, this, vals, g):
        k = X.load(vals[1]) if isinstance(vals[1], LV) else vals[1]
        X.store(LV(gk['problem'], this.idx, 'int'), vals[0].idx[0])
        X.store(LV(gk['index'], this.idx, 'int'), k)
        return None
    X.contracts[f['q']] = [(lambda g: len(g['params']) == 2 and 'Problem' in g['params'][0]['t'], build)]
    return own, at


def build(job):
    prog = job.prog
    c0 = [g for g in prog.by_q.get(AL + 'BuildAugLagProblem', []) if g.get('body') is not None]
    if len(c0) != 1:
        raise Unsupported('BuildAugLagProblem')
    f = c0[0]
    for withlist in (True, False):
        X = new_interp(prog)
        P = Prob(X)
        own, at = alcost_contract(X, P)
        LT = f'std::vector<std::shared_ptr<{ALC.cls}>>'

        def setup(X, withlist=withlist):
            p = P.make()
            raw = P.vk['dyn'][0] + '[]'
            X.nonnull[raw] = X.nonnull[P.vk['cost'][0] + '[]'] = lambda idx: True
            X.ptrfacts[raw] = lambda t, idx: z3.And(U_sdim(t) > 0, U_cdim(t) > 0)
            lst = LV('H:costlist', (z3.Int('costlist'),), LT)
            return None, [p, PtrVal(lst) if withlist else z3.IntVal(0)]

        def post(c, withlist=withlist):
            X, p = c.X, c.vals[0]
            r = c.ret
            N = c.old(lambda: P.N(p))
            c.eq('horizon', P.N(r), N)
            j = X.fresh('j', I)
            X.assume(z3.And(j >= 0, j < N))
            c.eq('dynamics of each knot point', P.dyn(r, j), c.old(lambda: P.dyn(p, j)))
            k = X.fresh('k', I)
            X.assume(z3.And(k >= 0, k <= N))
            a = P.cost(r, k)
            c.holds('every knot point, the terminal one included, has a cost', a != 0)
            c.eq('built from this problem', own(a), p.idx[0])
            c.eq('built from its own knot point', at(a), k)
            t = P.dyn(r, N)
            tl = LV('H:altro::problem::IdentityDynamics', (t,), 'altro::problem::IdentityDynamics')
            last = c.old(lambda: P.dyn(p, N - 1))
            for what, u in (('StateDimension', U_sdim), ('ControlDimension', U_cdim)):
                c.eq(f'terminal {what}', call(X, tl.typ, what, tl), u(last))
            for kind in ('eq', 'ineq'):
                c.eq(f'no {kind} constraints left in the lowered problem', P.ncon(r, kind, k), z3.IntVal(0))
            c.eq('shares the initial state', P.val(call(X, PROB, 'GetInitialStatePointer', r)),
                 c.old(lambda: P.val(call(X, PROB, 'GetInitialStatePointer', p))))
            if withlist:
                lst = LV('H:costlist', (z3.Int('costlist'),), LT)
                n0 = c.old(lambda: X.load(lst.sub('.#', 'int')))
                c.eq('one list entry per knot point', X.load(lst.sub('.#', 'int')), n0 + N + 1)
                c.eq('list entry k is the cost of knot point k', X.load(lst.sub('[]', X.T.elem(LT), n0 + k)), a)
            from .p14 import unchanged
            unchanged(c, P, p)
        verify(job, X, f, setup, post, 'BuildAugLagProblem' + ('' if withlist else ' (no list)'))


def ptr_positive(X, P):
    """a fully defined problem: every model and cost is there and has positive dimensions"""
    raw = P.vk['dyn'][0] + '[]'
    X.nonnull[raw] = X.nonnull[P.vk['cost'][0] + '[]'] = lambda idx: True
    X.ptrfacts[raw] = lambda t, idx: z3.And(U_sdim(t) > 0, U_cdim(t) > 0)


def solver_obj(X, name='solver', cls=None):
    this = obj(X, cls or ilqr('-1, -1'), name)
    return this


def copy_from(job):
    """the inner solver takes the model and cost of each knot point, in order, and the initial state"""
    prog = job.prog
    cls = ilqr('-1, -1')
    kcls = KPF.cls if hasattr(KPF, 'cls') else cls_of('-1, -1')
    X = new_interp(prog)
    P = Prob(X)
    ptr_positive(X, P)
    full = z3.Bool('fully_defined')
    X.contracts[PROB + '::IsFullyDefined'] = [(lambda g: True, lambda X, this, vals, g: full)]
    fs = [g for g in prog.by_q.get(cls + '::CopyFromProblem', []) if g.get('body') is not None]
    if len(fs) != 1:
        raise Unsupported('CopyFromProblem')
    a, b, c0 = z3.Ints('k_start k_stop count0')

    def setup(X):
        p = P.make()
        this = solver_obj(X)
        N = call(X, cls, 'NumSegments', this)
        X.assume(z3.And(N == P.hor(p.idx), c0 >= 0, a <= b))
        kv = one_field(X, this, lambda f: strip(f['t']).startswith('std::vector<') and 'KnotPointFunctions' in f['t'], 'knot point functions')
        X.store(kv.sub('.#', 'int'), c0)
        return this, [p, X.temp('int', a), X.temp('int', b)]

    def post(c):
        X, this, p = c.X, c.this, c.vals[0]
        N = c.old(lambda: P.N(p))
        c.holds('accepts only indices of the problem and complete problems', z3.And(a >= 0, a <= N, b >= 0, b <= N + 1, full))
        kv = one_field(X, this, lambda f: strip(f['t']).startswith('std::vector<') and 'KnotPointFunctions' in f['t'], 'knot point functions')
        c.eq('one knot point function per index', X.load(kv.sub('.#', 'int')), c0 + b - a)
        k = X.fresh('k', I)
        X.assume(z3.And(k >= a, k < b))
        ref = X.load(kv.sub('[]', X.T.elem(strip(kv.typ)), c0 + k - a))
        o = LV('H:' + kcls, (ref,), kcls)
        c.holds('exists', ref != 0)
        g = lambda nm: P.val(call(X, kcls, nm, o, const=False))
        model = c.old(lambda: P.dyn(p, k))
        c.eq("the knot point's own dynamics", g('GetModelPtr'), model)
        c.eq("the knot point's own cost", g('GetCostFunPtr'), c.old(lambda: P.cost(p, k)))
        c.eq('state dimension of the model', call(X, kcls, 'StateDimension', o), U_sdim(model))
        c.eq('control dimension of the model', call(X, kcls, 'ControlDimension', o), U_cdim(model))
        j = X.fresh('j', I)
        X.assume(z3.And(j >= a, j < b, j != k))
        c.holds('knot points are separate objects', X.load(kv.sub('[]', X.T.elem(strip(kv.typ)), c0 + j - a)) != ref)
        i = X.fresh('i', I)
        X.assume(z3.And(i >= 0, i < c0))
        old = lambda: X.load(kv.sub('[]', X.T.elem(strip(kv.typ)), i))
        c.eq('earlier knot point functions kept', old(), c.old(old))
        c.eq('shares the initial state', P.val(call(X, cls, 'GetInitialState', this)), c.old(lambda: P.val(call(X, PROB, 'GetInitialStatePointer', p))))
        from .p14 import unchanged
        unchanged(c, P, p)

    def rejected(c, ab):
        N = c.old(lambda: P.N(c.vals[0]))
        c.holds('rejects only bad indices or incomplete problems', z3.Or(a < 0, a > N, b < 0, b > N + 1, z3.Not(full)))
    verify(job, X, fs[0], setup, post, 'iLQR::CopyFromProblem', on_abort=rejected)

    # the inner solver's own entry point copies the whole problem
    X = new_interp(prog)
    P = Prob(X)
    GS, GE, GC = [LV('G:' + v, (), 'int') for v in ('start', 'stop', 'copies')]

    def cp(X, this, vals, g):
        X.store(GS, P.val(vals[1]))
        X.store(GE, P.val(vals[2]))
        X.store(GC, X.load(GC) + 1)
    X.contracts[cls + '::CopyFromProblem'] = [(lambda g: True, cp)]
    X.contracts[cls + '::ResetInternalVariables'] = [(lambda g: True, lambda X, this, vals, g: None)]
    f = [g for g in prog.by_q.get(cls + '::InitializeFromProblem', []) if g.get('body') is not None]
    if len(f) != 1:
        raise Unsupported('InitializeFromProblem')

    def setup2(X):
        p = P.make()
        X.store(GC, z3.IntVal(0))
        return solver_obj(X), [p]

    def post2(c):
        N = P.N(c.vals[0])
        c.eq('horizons agree', call(X, cls, 'NumSegments', c.this), N)
        c.eq('copies once', X.load(GC), z3.IntVal(1))
        c.eq('from the first knot point', X.load(GS), z3.IntVal(0))
        c.eq('through the terminal one', X.load(GE), N + 1)

    def rej2(c, ab):
        c.holds('rejects only a different horizon', call(X, cls, 'NumSegments', c.this) != P.N(c.vals[0]))
    verify(job, X, f[0], setup2, post2, 'iLQR::InitializeFromProblem', on_abort=rej2)


def initialise(job):
    """the constrained solver hands the lowered problem to the inner solver and keeps the augmented costs"""
    prog = job.prog
    X = new_interp(prog)
    P = Prob(X)
    ptr_positive(X, P)
    own, at = alcost_contract(X, P)
    cls, icls = ALS.cls, ALS.icls
    kk = z3.Int('kk')
    G = {v: LV('G:' + v, (), 'int') for v in ('start', 'stop', 'copies', 'dyn', 'cost', 'hor', 'x0', 'cb')}

    def cp(X, this, vals, g):
        p = vals[0]
        X.store(G['start'], P.val(vals[1]))
        X.store(G['stop'], P.val(vals[2]))
        X.store(G['copies'], X.load(G['copies']) + 1)
        X.store(G['dyn'], P.dyn(p, kk))
        X.store(G['cost'], P.cost(p, kk))
        X.store(G['hor'], P.N(p))
        X.store(G['x0'], P.val(call(X, PROB, 'GetInitialStatePointer', p)))
    X.contracts[icls + '::CopyFromProblem'] = [(lambda g: True, cp)]
    f = [g for g in prog.by_q.get(cls + '::InitializeFromProblem', []) if g.get('body') is not None]
    if len(f) != 1:
        raise Unsupported('InitializeFromProblem')
    vec = one_field(X, LV('H:' + cls, (z3.Int('alsolver'),), cls), lambda f: strip(f['t']).startswith('std::vector<') and 'ALCost' in f['t'], 'augmented costs')
    cnt0 = z3.Int('count0')
    X.contracts[cls + '::GetMaxViolation'] = [(lambda g: True, lambda X, this, vals, g: U_solverviol(this.idx[0]))]

    def setup(X):
        p = P.make()
        X.assume(z3.And(kk >= 0, kk <= P.hor(p.idx), cnt0 >= 0))
        this = obj(X, cls, 'alsolver')
        X.store(vec.sub('.#', 'int'), cnt0)
        X.store(G['copies'], z3.IntVal(0))
        return this, [p]

    def post(c):
        X, this, p = c.X, c.this, c.vals[0]
        N = c.old(lambda: P.N(p))
        c.holds('only a solver without costs is initialised', cnt0 == 0)
        c.eq('one augmented cost per knot point', X.load(vec.sub('.#', 'int')), N + 1)
        a = P.val(call(X, cls, 'GetALCost', this, kk))
        c.eq('augmented cost k is built from this problem', own(a), p.idx[0])
        c.eq('augmented cost k is built from knot point k', at(a), kk)
        c.eq('the inner problem is handed over once', X.load(G['copies']), z3.IntVal(1))
        c.eq('from its first knot point', X.load(G['start']), z3.IntVal(0))
        c.eq('through its terminal one', X.load(G['stop']), N + 1)
        c.eq('inner horizon', X.load(G['hor']), N)
        c.eq('the inner cost of knot point k is the augmented cost k', X.load(G['cost']), a)
        if X.choose(kk < N):
            c.eq('the inner dynamics of knot point k are the user\'s', X.load(G['dyn']), c.old(lambda: P.dyn(p, kk)))
        c.eq('the initial state is shared', X.load(G['x0']), c.old(lambda: P.val(call(X, PROB, 'GetInitialStatePointer', p))))
        from .p14 import unchanged
        unchanged(c, P, p)
        own_violation(c, this)
        for g in prog.recs[cls]['fields']:
            if strip(g['t']) == VEC:
                c.eq('room for the violation of every knot point', M.rows(X.mget(X.fieldof(this, g['n']))), N + 1)
    verify(job, X, f[0], setup, post, 'AL InitializeFromProblem', on_abort=lambda c, a: c.holds('rejects only a solver that already has costs', cnt0 != 0))


U_solverviol = z3.Function('violation_of_solver', I, R)


def inner(X, this):
    return one_field(X, this, lambda f: strip(f['t']).startswith('altro::ilqr::iLQR<'), 'inner solver')


def own_violation(c, this):
    """the violation the inner solver logs is that of the constrained solver it belongs to"""
    X = c.X
    cb = X.load(one_field(X, inner(X, this), lambda f: 'std::function<double' in f['t'], 'violation callback'))
    if not isinstance(cb, Closure):
        return c.holds('the inner solver logs the violation of this solver', z3.BoolVal(False))
    c.eq('the inner solver logs the violation of this solver', zr(X.call_closure(cb, [])), U_solverviol(this.idx[0]))


def construct(job):
    """construction from a problem initialises from it, over its horizon; a moved-to solver logs its own violation; the trajectory goes to
    the inner solver"""
    prog = job.prog
    cls, icls = ALS.cls, ALS.icls
    name = cls + '::' + 'AugmentedLagrangianiLQR'
    X = new_interp(prog)
    P = Prob(X)
    ptr_positive(X, P)
    G = {v: LV('G:' + v, (), 'int') for v in ('inits', 'from', 'sets', 'traj')}

    def init(X, this, vals, g):
        X.store(G['inits'], X.load(G['inits']) + 1)
        X.store(G['from'], vals[0].idx[0])
    X.contracts[cls + '::InitializeFromProblem'] = [(lambda g: True, init)]
    X.contracts[cls + '::GetMaxViolation'] = [(lambda g: True, lambda X, this, vals, g: U_solverviol(this.idx[0]))]

    # construction and moves of the statistics are decided in P18; what a solve starts from in P03, P05 and P06
    X.contracts[icls + '::ResetInternalVariables'] = [(lambda g: True, lambda X, this, vals, g: None)]
    X.contracts['altro::SolverStats::SolverStats'] = [(lambda g: True, lambda X, this, vals, g: None)]

    def ctors(pred):
        fs = [g for g in prog.funcs if g.get('cls') == cls and g.get('kind') == 'CXXConstructor' and g.get('body') is not None and pred(g)]
        if len(fs) != 1:
            raise Unsupported('constructor of the constrained solver')
        return fs[0]

    def setup(X):
        p = P.make()
        X.store(G['inits'], z3.IntVal(0))
        return obj(X, cls, 'alsolver'), [p]

    def post(c):
        c.eq('initialised once', X.load(G['inits']), z3.IntVal(1))
        c.eq('from the given problem', X.load(G['from']), c.vals[0].idx[0])
        c.eq('over its horizon', call(X, cls, 'NumSegments', c.this), c.old(lambda: P.N(c.vals[0])))
    verify(job, X, ctors(lambda g: len(g['params']) == 1 and 'Problem' in g['params'][0]['t']), setup, post, 'AL constructor')

    def setup2(X):
        src = LV('H:' + cls, (z3.Int('alsolver'),), cls, True)
        X.store(one_field(X, inner(X, src), lambda f: 'std::function<double' in f['t'], 'violation callback'), Opaque('callback of the moved-from solver'))
        return obj(X, cls, 'moved_to'), [LV('H:' + cls, (z3.Int('alsolver'),), cls, True)]
    mv = [g for g in prog.funcs if g.get('cls') == cls and g.get('kind') == 'CXXConstructor' and g.get('body') is not None
          and len(g['params']) == 1 and g['params'][0]['t'].endswith('&&')]
    if mv:
        verify(job, X, mv[0], setup2, lambda c: own_violation(c, c.this), 'AL move constructor')

    def st(X, this, vals, g):
        X.store(G['sets'], X.load(G['sets']) + 1)
        X.store(G['traj'], P.val(vals[0]))
    X.contracts[icls + '::SetTrajectory'] = [(lambda g: True, st)]
    f = [g for g in prog.by_q.get(cls + '::SetTrajectory', []) if g.get('body') is not None]

    def setup3(X):
        X.store(G['sets'], z3.IntVal(0))
        z = X.fresh('traj', I)
        X.assume(z > 0)
        X.usertraj = z
        return obj(X, cls, 'alsolver'), [X.temp('std::shared_ptr<altro::Trajectory<-1, -1, double>>', z)]

    def post3(c):
        c.eq('handed over once', X.load(G['sets']), z3.IntVal(1))
        c.eq('the given trajectory', X.load(G['traj']), X.usertraj)
    verify(job, X, f[0], setup3, post3, 'AL SetTrajectory')


def num_constraints(job):
    """the number of constraints reported per knot point and in total"""
    from ..loops import F_isum
    prog = job.prog
    X = new_interp(prog)
    S = ALC(X)
    f = [g for g in prog.by_q.get(ALC.cls + '::NumConstraints', []) if g.get('body') is not None]
    if len(f) != 1:
        raise Unsupported('ALCost::NumConstraints')
    def post(c):
        j = z3.Int('sk!')
        tot = z3.IntVal(0)
        for kind in ('eq', 'ineq'):
            X.nofork += 1
            try:
                tot = tot + F_isum(z3.IntVal(0), S.cnt[kind], z3.Lambda([j], U_odim(S.con(kind, j))))
            finally:
                X.nofork -= 1
        c.eq('sum over the constraints of both kinds', c.ret, tot)
        c.frame()
    verify(job, X, f[0], lambda X: (S.make(), []), post, 'ALCost::NumConstraints')

    for kind in ('eq', 'ineq'):
        X = new_interp(prog)
        v = CV(X, kind)

        def p0(c, v=v):
            c.eq('that of the constraint', c.ret, U_odim(v.con))
            c.frame()
        verify(job, X, prog.fn(cv(kind) + '::OutputDimension'), lambda X, v=v: (v.make(), []), p0, f'OutputDimension<{kind}>')

    fs = [g for g in prog.by_q.get(ALS.cls + '::NumConstraints', []) if g.get('body') is not None]
    X = new_interp(prog)
    A = ALS(X)
    nc = z3.Function('constraints_of', I, I)
    X.contracts[ALC.cls + '::NumConstraints'] = [(lambda g: True, lambda X, this, vals, g: nc(this.idx[0]))]
    for g in fs:
        if g['params']:
            k = z3.Int('k')

            def p1(c):
                c.holds('valid index', z3.And(k >= 0, k <= A.N))
                c.eq('that of its augmented cost', c.ret, nc(A.cost(k)))
                c.frame()
            verify(job, X, g, lambda X: (A.make(), [X.temp('int', k)]), p1, 'AL NumConstraints(k)',
                   on_abort=lambda c, a: c.holds('rejects only invalid indices', z3.Or(k < 0, k > A.N)))
        else:
            def p2(c):
                j = z3.Int('sk!')
                X.nofork += 1
                try:
                    e = nc(A.cost(j))
                finally:
                    X.nofork -= 1
                c.eq('sum over all knot points', c.ret, F_isum(z3.IntVal(0), A.N + 1, z3.Lambda([j], e)))
                c.frame()
            verify(job, X, g, lambda X: (A.make(), []), p2, 'AL NumConstraints()')


if __name__ == '__main__':
    from ._main import main
    main('P20', run)
