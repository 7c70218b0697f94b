"""P02: the backward pass is one complete Riccati sweep per accepted policy."""
from .ilqrlib import *
from .ilqrlib import ASSUME as _A
from . import p01
from ..builtins import F_posdef

ASSUME = _A + list(getattr(p01, 'ASSUME', []))
TRUST = list(getattr(p01, 'TRUST', []))


def run(job):
    p01.run(job)
    for sz in sizes(job):
        sweep(job, sz)


def unf(X, t):
    """the defining expression of a value that a loop computes recursively"""
    return X.unfold(t) if t.decl().name() in X.lfcells else t


def sweep(job, sz):
    prog = job.prog
    cls = ilqr(sz)
    X, S = solver(job, sz)
    step_contracts(X, S)
    from .p01 import deltas

    def setup(X):
        this = S.make()
        X.assume(S.opt('bp_reg_fail_threshold') >= 1)
        return this, []

    def post(c):
        N = S.N
        st = S.status()
        fail = S.st('kBackwardPassRegularizationFailed')
        if not X.choose(st == fail):
            c.holds('an accepted sweep leaves the solver running', st == S.st('kUnsolved'))
            kN = S.kpf(N)
            LN = kN.exp('GetCostExpansion')
            c.eq('terminal cost-to-go Hessian is that of the terminal cost', kN.mat('GetCostToGoHessian'), LN['dxdx'])
            c.eq('terminal cost-to-go gradient is that of the terminal cost', kN.mat('GetCostToGoGradient'), LN['dx'])
            rho = S.hist_last('regularization')

            def stage(k):
                v, nx = S.kpf(k), S.kpf(z3.simplify(k + 1))
                A, Bm = v.AB()
                W = step_q(v.exp('GetCostExpansion'), A, Bm, nx.mat('GetCostToGoHessian'), nx.mat('GetCostToGoGradient'))
                reg, K, d = step_gain(W, rho, S.m)
                return v, W, reg, K, d, step_value(W, K, d)
            k = X.fresh('k', I)
            X.assume(z3.And(k >= 0, k < N))
            v, W, reg, K, d, (Sm, s, d1, d2) = stage(k)
            Q = v.exp('GetActionValueExpansion')
            for nm in sorted(W):
                c.eq(f'action-value expansion {nm} of stage k uses the cost-to-go of stage k+1', unf(X, Q[nm]), W[nm])
            c.eq('feedback gain of stage k from the regularised step', unf(X, v.mat('GetFeedbackGain')), K)
            c.eq('feedforward gain of stage k from the regularised step', unf(X, v.mat('GetFeedforwardGain')), d)
            c.eq('cost-to-go Hessian of stage k', unf(X, v.mat('GetCostToGoHessian')), Sm)
            c.eq('cost-to-go gradient of stage k', unf(X, v.mat('GetCostToGoGradient')), s)
            for i in (0, 1):
                c.sum_is(f'expected decrease, order {i + 1}, sums over the stages of this sweep only', S.dV()[i], N,
                         lambda kk, i=i: stage(kk)[5][2 + i])
            X.instantiate(z3.simplify(N - 1 - k), k)
            c.holds('every factorisation of the accepted sweep succeeded', F_posdef(reg))
        limit(c, X, S, st, fail)
    verify(job, X, prog.fn(cls + '::BackwardPass'), setup, post, f'BackwardPass<{sz}>')


def limit(c, X, S, st, fail):
    """the pass gives up exactly when maximum regularisation has been reached the configured number of times"""
    ts = X.exit_index
    if ts is None:
        c.holds('no sweep, no failure', st != fail)
        return
    hi, thr = S.opt('bp_reg_max'), S.opt('bp_reg_fail_threshold')
    used = S.hist_last('regularization')
    cells = [u.cell for u in X.univ if getattr(u, 'cell', None) is not None and u.cell[2].eq(ts)]
    rho = [x for x in cells if x[1].eq(c.old(S.rho))]
    G = z3.Function('capped', I, I)        # number of the first j sweeps after which the regularisation was at its maximum
    if len(rho) != 1:
        X.assume(G(ts) == 0)
        c.holds('one sweep, at most one failure', z3.BoolVal(False) if rho else z3.BoolVal(True))
        return
    R_ = rho[0][0]
    step = lambda k: z3.If(R_(z3.simplify(k + 1)) >= hi, 1, 0)
    for at, x0, _ in cells:
        if not z3.is_int(x0):
            continue
        k = X.fresh('sw', I)
        c.X.assume(z3.And(k >= 0, z3.Implies(ts > 0, k < ts)))
        X.instantiate(k)
        if X.implied(x0 == 0) and X.implied(z3.Implies(k < ts, at(z3.simplify(k + 1)) == at(k) + step(k))):
            X.assume(at(ts) == G(ts))      # by induction on the number of sweeps
    X.instantiate(z3.simplify(ts - 1))
    X.assume(z3.And(z3.Implies(ts == 0, G(ts) == 0)))
    if X.choose(st == fail):
        c.holds('gives up exactly when the maximum was reached the configured number of times',
                G(ts) + z3.If(used >= hi, 1, 0) == thr)
        c.holds('gives up only at the maximum', used >= hi)
    else:
        c.holds('goes on while the maximum was reached fewer times', G(ts) < thr)


if __name__ == '__main__':
    from ._main import main
    main('P02', run)
