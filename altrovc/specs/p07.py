"""P07: the constrained solver's success means a feasible inner solution."""
from .allib import *
from .allib import ALS
from . import ilqrlib
from .ilqrlib import rollout_contract, solver as ilqr_solver, sizes, ilqr, ilqr as ilqr_cls
from .p05 import anyk

ASSUME = ['the inner solve ends with a verdict and only adds to the iteration counts (P06)',
          'the violation read from the stored constraint values is that of the trajectory at which they were last evaluated (P08, P11)',
          'statistics are compared as real numbers']
VIOL, PEN = z3.Real('violation_now'), z3.Real('penalty_now')


def run(job):
    stats(job)
    done(job)
    init(job)
    loop(job)
    for sz in sizes(job):
        last_evaluation(job, sz)


def istatus(S):
    """status of the inner solver"""
    k = S.X
    from .p15 import call
    return call(k, S.icls, 'GetStatus', S.ilqr)


def istatus_lv(S):
    X = S.X
    fs = [g for g in X.prog.recs[S.icls]['fields'] if strip(g['t']) == 'altro::SolverStatus']
    if len(fs) != 1:
        raise Unsupported('status member of the inner solver')
    return X.fieldof(S.ilqr, fs[0]['n'])


def status_lv(S):
    X = S.X
    fs = [g for g in X.prog.recs[S.cls]['fields'] if strip(g['t']) == 'altro::SolverStatus']
    if len(fs) != 1:
        raise Unsupported('status member')
    return X.fieldof(S.this, fs[0]['n'])


def measure(X, S, viol=VIOL, pen=PEN):
    X.contracts[S.cls + '::GetMaxViolation'] = [(lambda f: True, lambda X, this, vals, f: viol)]
    X.contracts[S.cls + '::GetMaxPenalty'] = [(lambda f: True, lambda X, this, vals, f: pen)]


def stats(job):
    prog = job.prog
    X = new_interp(prog)
    S = ALS(X)
    measure(X, S)

    def setup(X):
        this = S.make()
        X.assume(S.len0 >= 1)
        return this, []

    def post(c):
        c.eq('the outer iteration is counted once', X.load(S.sv('iterations_outer')), c.old(lambda: X.load(S.sv('iterations_outer'))) + 1)
        for f in ('iterations_inner', 'iterations_total'):
            c.eq(f'{f} kept', X.load(S.sv(f)), c.old(lambda: X.load(S.sv(f))))
        c.eq('the recorded violation is the current one', S.hist_last('violations'), VIOL)
        c.eq('the recorded penalty is the current one', S.hist_last('max_penalty'), PEN)
        c.eq('no record is opened', S.hist_len('violations'), S.len0)
        c.eq('status kept', S.status(), c.old(S.status))
        c.eq('inner status kept', istatus(S), c.old(lambda: istatus(S)))
    verify(job, X, prog.fn(S.cls + '::UpdateConvergenceStatistics'), setup, post, 'AL UpdateConvergenceStatistics')


def verdict(S):
    """(status, stop) as the statement prescribes, from the current records"""
    s, X = S.st, S.X
    inner = istatus(S)
    v, p = S.hist_last('violations'), S.hist_last('max_penalty')
    it = lambda f: X.load(S.sv(f))
    cases = [(inner != s('kSolved'), inner), (v < S.opt('constraint_tolerance'), s('kSolved')),
             (p > S.opt('maximum_penalty'), s('kMaxPenalty')),
             (it('iterations_outer') >= S.opt('max_iterations_outer'), s('kMaxOuterIterations')),
             (it('iterations_total') >= S.opt('max_iterations_total'), s('kMaxIterations'))]
    return cases


def done(job):
    prog = job.prog
    X = new_interp(prog)
    S = ALS(X)

    def setup(X):
        this = S.make()
        X.assume(S.len0 >= 1)
        return this, []

    def post(c):
        st0 = c.old(S.status)
        want, stop = st0, z3.BoolVal(False)
        for cond, v in reversed(c.old(lambda: verdict(S))):
            want, stop = z3.If(cond, v, want), z3.Or(cond, stop)
        c.holds('the status is the first condition that applies: inner failure, success, penalty, outer limit, total limit',
                S.status() == want)
        c.holds('stops exactly when one of them applies', c.ret == stop)
        inner, v = c.old(lambda: istatus(S)), c.old(lambda: S.hist_last('violations'))
        c.holds('success only with a successful inner solve and a violation below tolerance',
                z3.Implies(z3.And(c.ret, S.status() == S.st('kSolved')),
                           z3.And(inner == S.st('kSolved'), v < S.opt('constraint_tolerance'))))
        c.frame(allow=[status_lv(S)])
    verify(job, X, prog.fn(S.cls + '::IsDone'), setup, post, 'AL IsDone')


def init(job):
    """a solve starts unsolved, with multipliers and penalties reset as the options ask, and measures the start"""
    prog = job.prog
    X = new_interp(prog)
    S = ALS(X)
    GD, GP, GV = LV('G:duals', (), 'double'), LV('G:penalties', (), 'double'), LV('G:stats', (), 'int')
    RST, SET = z3.Function('after_reset', R, R), z3.Function('after_set', R, R, R)
    U_mv, U_mp = z3.Function('violation_with', R, R, R), z3.Function('maxpenalty_with', R, R)

    def reset(X, this, vals, f):
        X.store(GD, RST(X.load(GD)))

    def setp(X, this, vals, f):
        X.store(GP, SET(X.load(GP), sval(X, vals[0])))
    X.contracts[S.cls + '::ResetDualVariables'] = [(lambda f: True, reset)]
    X.contracts[S.cls + '::SetPenalty'] = [(lambda f: True, setp)]
    X.contracts[S.cls + '::MaxViolation'] = [(lambda f: True, lambda X, this, vals, f: U_mv(X.load(GD), X.load(GP)))]
    X.contracts[S.cls + '::GetMaxPenalty'] = [(lambda f: True, lambda X, this, vals, f: U_mp(X.load(GP)))]

    def clear(X, this, vals, f):
        from .ilqrlib import TRACKED
        for v in TRACKED.values():
            X.store(X.fieldof(this, v).sub('.#', 'int'), z3.IntVal(0))
        for v in ('iterations_inner', 'iterations_outer', 'iterations_total'):
            X.store(X.fieldof(this, v), z3.IntVal(0))

    def setup(X):
        this = S.make()
        X.contracts['altro::SolverStats::Reset'] = [(lambda f: True, clear)]
        return this, []

    def post(c):
        c.eq('starts unsolved', S.status(), S.st('kUnsolved'))
        d0, p0 = c.old(lambda: X.load(GD)), c.old(lambda: X.load(GP))
        o = lambda n: c.old(lambda: S.opt(n))
        r, ip = o('reset_duals'), o('initial_penalty')
        d1 = z3.If(r, RST(d0), d0)
        p1 = z3.If(ip > 0, SET(p0, ip), p0)
        c.eq('multipliers reset exactly when asked for', X.load(GD), d1)
        c.eq('penalties set exactly when asked for', X.load(GP), p1)
        c.eq('one record after clearing', S.hist_len('violations'), z3.IntVal(1))
        for f in ('iterations_inner', 'iterations_outer', 'iterations_total'):
            c.eq(f'{f} starts at zero', X.load(S.sv(f)), z3.IntVal(0))
        c.eq('the first record is the violation at the initial trajectory', S.hist_last('violations'), U_mv(d1, p1))
        c.eq('the first record is the initial penalty', S.hist_last('max_penalty'), U_mp(p1))
    verify(job, X, prog.fn(S.cls + '::Init'), setup, post, 'AL Init')


def loop(job):
    """the outer loop over the contracts of its phases"""
    prog = job.prog
    X = new_interp(prog)
    S = ALS(X)
    PH = LV('G:phase', (), 'int')
    DU, PU, SO = [LV('G:' + n, (), 'int') for n in ('dual_updates', 'penalty_updates', 'inner_solves')]
    bump = lambda g: X.store(g, z3.simplify(X.load(g) + 1))

    def phase(owner, name, steps, fn=None):
        """steps: [(phase before, phase after)]"""
        def go(X, this, vals, f):
            for need, nxt in steps:
                if X.choose(X.load(PH) == need):
                    X.store(PH, z3.IntVal(nxt))
                    return fn(X, this, vals) if fn else None
            raise Abort(f'{name} called out of order', X.line)
        X.contracts[owner + '::' + name] = [(lambda f: True, go)]

    def init_(X, this, vals):
        X.store(status_lv(S), S.st('kUnsolved'))
        for v in ('iterations_inner', 'iterations_outer', 'iterations_total'):
            X.store(S.sv(v), z3.IntVal(0))

    def inner(X, this, vals):
        bump(SO)
        st, it, more = X.fresh('inner_status', I), X.fresh('inner_iters', I), X.load(S.sv('iterations_total'))
        X.assume(z3.And(st != S.st('kUnsolved'), it >= 1))
        X.store(istatus_lv(S), st)
        X.store(S.sv('iterations_total'), z3.simplify(more + it))

    VN, PN = LV('G:viol', (), 'double'), LV('G:pen', (), 'double')

    def update(X, this, vals):
        X.store(S.sv('iterations_outer'), z3.simplify(X.load(S.sv('iterations_outer')) + 1))
        X.store(VN, X.fresh('viol', R))
        X.store(PN, X.fresh('pen', R))

    def isdone(X, this, vals):
        s = S.st
        inner, v, p = istatus(S), X.load(VN), X.load(PN)
        it = lambda f: X.load(S.sv(f))
        st, stop = S.status(), z3.BoolVal(False)
        for cond, w in reversed([(inner != s('kSolved'), inner), (v < S.opt('constraint_tolerance'), s('kSolved')),
                                 (p > S.opt('maximum_penalty'), s('kMaxPenalty')),
                                 (it('iterations_outer') >= S.opt('max_iterations_outer'), s('kMaxOuterIterations')),
                                 (it('iterations_total') >= S.opt('max_iterations_total'), s('kMaxIterations'))]):
            st, stop = z3.If(cond, w, st), z3.Or(cond, stop)
        X.store(status_lv(S), st)
        return stop
    phase(S.cls, 'Init', [(0, 1)], init_)
    phase(S.icls, 'Solve', [(1, 2)], inner)
    # the multipliers do not enter the measurement: these two commute
    phase(S.cls, 'UpdateDuals', [(2, 3), (6, 4)], lambda X, this, vals: bump(DU))
    phase(S.cls, 'UpdateConvergenceStatistics', [(3, 4), (2, 6)], update)
    phase(S.cls, 'IsDone', [(4, 5)], isdone)
    phase(S.cls, 'UpdatePenalties', [(5, 1)], lambda X, this, vals: bump(PU))
    X.contracts['altro::SolverLogger::PrintHeader'] = [(lambda f: True, lambda X, this, vals, f: None)]

    def setup(X):
        this = S.make()
        X.assume(S.opt('max_iterations_outer') >= 1)
        for g in (PH, DU, PU, SO):
            X.store(g, z3.IntVal(0))
        return this, []

    def post(c):
        st, inner = S.status(), istatus(S)
        n = X.load(S.sv('iterations_outer'))
        ts = X.exit_index if X.exit_index is not None else X.exit_T
        if ts is not None:
            X.instantiate(z3.simplify(ts - 1), z3.simplify(ts))
        s = S.st
        c.holds('the solve ends with a verdict', st != s('kUnsolved'))
        c.holds('success exactly with a successful inner solve and a violation below tolerance',
                (st == s('kSolved')) == z3.And(inner == s('kSolved'), X.load(VN) < S.opt('constraint_tolerance')))
        c.holds("an inner failure is reported as is", z3.Implies(inner != s('kSolved'), st == inner))
        c.holds('at most the configured number of outer iterations', n <= S.opt('max_iterations_outer'))
        c.eq('one inner solve per outer iteration', X.load(SO), n)
        c.eq('one dual update per outer iteration', X.load(DU), n)
        c.eq('one penalty update between consecutive outer iterations', X.load(PU), n - 1)
        c.holds('ends right after the check', X.load(PH) == 5)
    verify(job, X, prog.fn(S.cls + '::Solve'), setup, post, 'AL Solve')


def last_evaluation(job, sz):
    """when the inner solver returns from a line search, the cost and constraints were last evaluated at the trajectory it keeps"""
    prog, cls = job.prog, ilqr(sz)
    X, S = ilqr_solver(job, sz)
    rollout_contract(X, S)

    def setup(X):
        this = S.make()
        X.assume(S.status() != S.st('kBackwardPassRegularizationFailed'))
        X.assume(z3.And(S.opt('line_search_decrease_factor') > 0, S.opt('line_search_lower_bound') >= 0))
        return this, []

    def post(c):
        k = anyk(X, S.N, True)
        z = S.point(S.Z(), k)
        from .p05 import unf
        c.eq('knot point last evaluated at the kept trajectory', M.elem(S.costs(), k, z3.IntVal(0)), S.cost(k, z['state'], z['control']))
    verify(job, X, prog.fn(cls + '::ForwardPass'), setup, post, f'ForwardPass<{sz}> (last evaluation)')


if __name__ == '__main__':
    from ._main import main
    main('P07', run)
