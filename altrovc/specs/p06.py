"""P06: the inner solver's termination status is truthful."""
from .ilqrlib import *
from .ilqrlib import ASSUME as _A
from .p05 import anyk, unf

ASSUME = _A + ['the history holds the record of the current iteration and, after the first iteration, of the previous one '
               '(established by ForwardPass and NewIteration, P04 and P18)', 'statistics are compared as real numbers']


def run(job):
    for sz in sizes(job):
        gain(job, sz)
        stats(job, sz)
        done(job, sz)
        loop(job, sz)
        set_up(job, sz)


CALLBACK = Opaque('violation callback')


def inf_gain(S, k):
    """max_i |d_i| / (|u_i| + 1)"""
    d, u = S.kpf(k).mat('GetFeedforwardGain'), S.point(S.Z(), k)['control']
    return M.vmax(M.ew(lambda a, b: M.zabs(a) / (M.zabs(b) + 1), d, u))


def gain(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)

    def post(c):
        r = c.ret
        from ..vc import atoms, dnm
        fs = atoms(z3.simplify(r), lambda t: dnm(t) == 'fsum')
        if len(fs) != 1:
            c.eq('mean over the knot points', r, z3.RealVal(0))
            return
        c.eq('divided by the number of segments', r, fs[0] / z3.ToReal(S.N))
        c.sum_is('sum over every knot point but the terminal one of the normalised feedforward gain', fs[0], S.N, lambda k: inf_gain(S, k))
    verify(job, X, prog.fn(cls + '::NormalizedFeedforwardGain'), lambda X: (S.make(), []), post, f'NormalizedFeedforwardGain<{sz}>')


def stats(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    G, VIOL = z3.Real('gain_now'), z3.Real('violation_now')
    X.contracts[cls + '::NormalizedFeedforwardGain'] = [(lambda f: True, lambda X, this, vals, f: G)]

    def setup(X):
        this = S.make()
        X.assume(S.len0 >= 2)
        cb = one_field(X, this, lambda f: 'std::function<double' in f['t'], 'violation callback')
        X.aliastab[cb.key] = lambda X, idx: CALLBACK
        X.virtual['std::function'] = lambda X, c, vals, n: VIOL
        return this, []

    def post(c):
        it = c.old(lambda: X.load(S.sv('iterations_inner')))
        J = c.old(lambda: S.hist_last('cost'))
        Jp = c.old(lambda: S.hist_last('cost', 1))
        J0 = c.old(lambda: X.load(S.sv('initial_cost')))
        n0 = c.old(lambda: S.hist_len('cost'))
        for nm in ('cost_decrease', 'gradient', 'cost'):
            c.eq(f'a new record is opened in {nm}', S.hist_len(nm), n0 + 1)
        rec = lambda nm: [S.hist_last(nm, 1), S.hist_last(nm)]
        for w, v in zip(('logged', 'carried over'), rec('cost_decrease')):
            c.eq(f'cost decrease is previous minus current cost ({w})', v, z3.If(it == 0, J0 - J, Jp - J))
        for w, v in zip(('logged', 'carried over'), rec('gradient')):
            c.eq(f'gradient is the normalised feedforward gain ({w})', v, G)
        for w, v in zip(('logged', 'carried over'), rec('violations')):
            c.eq(f'violation is that of the callback ({w})', v, VIOL)
        for w, v in zip(('logged', 'carried over'), rec('cost')):
            c.eq(f'cost kept ({w})', v, J)
        for f in ('iterations_inner', 'iterations_total'):
            c.eq(f'{f} grows by exactly one', X.load(S.sv(f)), c.old(lambda: X.load(S.sv(f))) + 1)
        c.eq('status kept', S.status(), c.old(S.status))
    verify(job, X, prog.fn(cls + '::UpdateConvergenceStatistics'), setup, post, f'UpdateConvergenceStatistics<{sz}>')


def done(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)

    def setup(X):
        this = S.make()
        X.assume(S.len0 >= 1)
        return this, []

    def post(c):
        st0, st = c.old(S.status), S.status()
        dJ, g = S.hist_last('cost_decrease'), S.hist_last('gradient')
        ii, it = X.load(S.sv('iterations_inner')), X.load(S.sv('iterations_total'))
        conv = z3.And(dJ < S.opt('cost_tolerance'), g < S.opt('gradient_tolerance'))
        s = S.st
        run_ = st0 == s('kUnsolved')
        inner, total = ii >= S.opt('max_iterations_inner'), it >= S.opt('max_iterations_total')
        c.holds('success only if cost decrease and gradient are below tolerance and nothing failed',
                z3.Implies(z3.And(st == s('kSolved'), st0 != s('kSolved')), z3.And(run_, conv)))
        c.holds('success is reported as soon as it holds', z3.Implies(z3.And(run_, conv), z3.And(st == s('kSolved'), c.ret)))
        c.holds('a failure status is kept and stops', z3.Implies(z3.Not(run_), z3.And(st == st0, c.ret)))
        c.holds('inner limit reported exactly when reached', z3.Implies(z3.And(run_, z3.Not(conv)), (st == s('kMaxInnerIterations')) == inner))
        c.holds('total limit reported exactly when reached', z3.Implies(z3.And(run_, z3.Not(conv), z3.Not(inner)), (st == s('kMaxIterations')) == total))
        c.holds('goes on only while unsolved and below every limit', z3.Implies(z3.Not(c.ret), z3.And(
            st == s('kUnsolved'), run_, z3.Not(conv), z3.Not(inner), z3.Not(total))))
        c.holds('stops only with a verdict', z3.Implies(c.ret, st != s('kUnsolved')))
        c.frame(allow=[LV(S._key('GetStatus'), c.this.idx, 'altro::SolverStatus')])
    verify(job, X, prog.fn(cls + '::IsDone'), setup, post, f'IsDone<{sz}>')


def loop(job, sz):
    """the solve loop over the contracts of its phases (each proved on the real code: P03-P05, P16 and above)"""
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    PH, J = LV('G:phase', (), 'int'), LV('G:cost', (), 'double')
    status = lambda this: LV(S._key('GetStatus'), this.idx, 'altro::SolverStatus')
    start_cost = z3.Real('cost_of_initial_rollout')

    def order(what, need, nxt):
        if not X.choose(X.load(PH) == need):
            raise Abort(f'{what} called out of order', X.line)
        X.store(PH, z3.IntVal(nxt))

    def phase(name, need, nxt, fn=None, pred=lambda f: True):
        def go(X, this, vals, f):
            order(name, need, nxt)
            return fn(X, this, vals) if fn else None
        X.contracts[cls + '::' + name] = [(pred, go)]

    def set_up(X, this, vals):
        X.store(status(this), S.st('kUnsolved'))
        X.store(S.sv('iterations_inner'), z3.IntVal(0))

    def rollout(X, this, vals):
        X.store(J, start_cost)

    def backward(X, this, vals):
        X.store(status(this), z3.If(X.fresh('bp_failed', B), S.st('kBackwardPassRegularizationFailed'), S.st('kUnsolved')))

    def forward(X, this, vals):
        acc, new, bad = X.fresh('accepted', B), X.fresh('new_cost', R), X.fresh('raised', I)
        J0 = X.load(J)
        X.assume(z3.Implies(acc, new < J0))
        st = X.load(status(this))
        failed = st == S.st('kBackwardPassRegularizationFailed')
        X.assume(z3.And(z3.Implies(failed, z3.Not(acc)), z3.Or(*[bad == S.st(q) for q in
                 ('kUnsolved', 'kStateLimit', 'kControlLimit', 'kCostIncrease')])))
        X.store(J, z3.If(acc, new, J0))
        X.store(status(this), z3.If(failed, st, z3.If(acc, S.st('kUnsolved'), bad)))

    def update(X, this, vals):
        for f in ('iterations_inner', 'iterations_total'):
            X.store(S.sv(f), z3.simplify(X.load(S.sv(f)) + 1))

    def isdone(X, this, vals):
        st, conv = X.load(status(this)), X.fresh('converged', B)
        new = z3.If(st != S.st('kUnsolved'), st, z3.If(conv, S.st('kSolved'), z3.If(
            X.load(S.sv('iterations_inner')) >= S.opt('max_iterations_inner'), S.st('kMaxInnerIterations'), z3.If(
                X.load(S.sv('iterations_total')) >= S.opt('max_iterations_total'), S.st('kMaxIterations'), S.st('kUnsolved')))))
        X.store(status(this), new)
        return new != S.st('kUnsolved')

    phase('SolveSetup', 0, 1, set_up)
    phase('Rollout', 1, 2, rollout)
    phase('UpdateExpansions', 3, 4)
    phase('BackwardPass', 4, 5, backward)
    phase('ForwardPass', 5, 6, forward)
    phase('UpdateConvergenceStatistics', 6, 7, update)
    phase('IsDone', 7, 3, isdone)

    def cost(X, this, vals, f):
        if X.choose(X.load(PH) == 2):
            X.store(PH, z3.IntVal(3))
        return X.load(J)
    X.contracts[cls + '::Cost'] = [(lambda f: not f['params'], cost)]

    def setup(X):
        this = S.make()
        X.assume(S.opt('max_iterations_inner') >= 1)
        X.store(PH, z3.IntVal(0))
        for f in fields(prog, cls, lambda f: strip(f['t']) == 'bool' and 'initial_state' in f['n']):
            X.aliastab[X.fieldof(this, f['n']).key] = lambda X, idx: z3.BoolVal(True)
        return this, []

    def post(c):
        ii, it = X.load(S.sv('iterations_inner')), X.load(S.sv('iterations_total'))
        t0 = c.old(lambda: X.load(S.sv('iterations_total')))
        st = S.status()
        c.holds('at most the configured number of inner iterations', ii <= S.opt('max_iterations_inner'))
        c.eq('the total count grows by the inner count', it, t0 + ii)
        ts = X.exit_index if X.exit_index is not None else X.exit_T
        if ts is not None:
            X.instantiate(z3.simplify(ts - 1), z3.simplify(ts))
            for u in list(X.univ):
                cell = getattr(u, 'cell', None)
                if cell is not None and cell[2].eq(ts) and cell[1].sort() == R:
                    k = X.fresh('it', I)
                    X.assume(z3.And(k >= 0, z3.Implies(ts > 0, k < ts)))
                    X.instantiate(k)
                    if X.implied(z3.Implies(k < ts, cell[0](z3.simplify(k + 1)) <= cell[0](k))):
                        X.assume(cell[0](ts) <= cell[1])       # by induction on the number of iterations
        c.holds('the solve ends with a verdict', st != S.st('kUnsolved'))
        c.holds('the iteration limit is reported only when reached',
                z3.Implies(st == S.st('kMaxInnerIterations'), ii == S.opt('max_iterations_inner')))
        c.holds('the total limit is reported only when reached',
                z3.Implies(st == S.st('kMaxIterations'), it >= S.opt('max_iterations_total')))
        c.holds('never continues past the total limit', z3.Or(ii <= 1, it <= S.opt('max_iterations_total')))
        c.eq('the initial cost is the cost of the initial rollout', X.load(S.sv('initial_cost')), start_cost)
        c.holds('the returned trajectory never costs more than the initial rollout', X.load(J) <= start_cost)
    verify(job, X, prog.fn(cls + '::Solve'), setup, post, f'Solve<{sz}>')


def set_up(job, sz):
    """discharges what the loop above assumes of SolveSetup"""
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    launch_contract(X, S)

    def post(c):
        c.eq('a solve starts without verdict', S.status(), S.st('kUnsolved'))
        c.eq('a solve starts at inner iteration 0', X.load(S.sv('iterations_inner')), z3.IntVal(0))
        it = lambda: X.load(S.sv('iterations_total'))
        c.eq('the total count carries on', it(), c.old(it))
    verify(job, X, prog.fn(cls + '::SolveSetup'), lambda X: (S.make(), []), post, f'SolveSetup<{sz}>')


if __name__ == '__main__':
    from ._main import main
    main('P06', run)
