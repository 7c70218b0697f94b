"""P04: the line search never accepts a worse trajectory."""
from .ilqrlib import *
from .ilqrlib import ASSUME as _A
from ..loops import F_geo
from . import p05
from .p05 import anyk, unf

ASSUME = _A + ['the line-search decrease factor is positive and the accepted ratio interval does not reach below zero (its default is 1e-8)',
               'costs are compared as real numbers']


def run(job):
    p05.run(job)
    for sz in sizes(job):
        forward(job, sz)


def forward(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    rollout_contract(X, S)

    def setup(X):
        this = S.make()
        X.assume(z3.And(S.opt('line_search_decrease_factor') > 0, S.opt('line_search_lower_bound') >= 0))
        mi, mx, f = S.opt('bp_reg_min'), S.opt('bp_reg_max'), S.opt('bp_reg_increase_factor')
        X.assume(z3.And(mi >= 0, mi <= mx, f >= 1, S.rho() >= 0))
        return this, []

    def total(Z):
        return M.FSUM(z3.IntVal(0), z3.simplify(S.N + 1), z3.Lambda([z3.Int('sk!')], Z(z3.Int('sk!'))))

    def post(c):
        N = S.N
        J0 = c.old(lambda: M.vsum(S.costs()))
        rx, ru = (lambda a: lambda k: ROLL_X(a, k)), (lambda a: lambda k: ROLL_U(a, k))
        logged = S.hist_last('cost')
        st, unsolved, worse = S.status(), S.st('kUnsolved'), S.st('kCostIncrease')
        k = anyk(X, N, True)
        z, old = S.point(S.Z(), k), c.old(lambda: S.point(S.Z(), k))
        cost_at = lambda k: S.cost(k, S.point(S.Z(), k)['state'], S.point(S.Z(), k)['control'])
        c.eq('the trajectory keeps its time', z['time'], c.old(lambda: S.point(S.Zbar(), k))['time'] if accepted(c, k) else old['time'])
        if c.old(S.status).eq(S.st('kBackwardPassRegularizationFailed')) or \
                X.choose(c.old(S.status) == S.st('kBackwardPassRegularizationFailed')):
            c.eq('after a failed backward pass no step is taken (state)', z['state'], old['state'])
            c.eq('after a failed backward pass no step is taken (control)', z['control'], old['control'])
            c.eq('the failure status is kept', st, c.old(S.status))
            c.eq('the logged cost is that of the kept trajectory', logged, J0)
            return
        if accepted(c, k):
            a = S.hist_last('alpha')
            ratio = S.hist_last('improvement_ratio')
            c.eq('accepted: state is the rollout at the logged step length', z['state'], ROLL_X(a, k))
            c.eq('accepted: control is the rollout at the logged step length', z['control'], ROLL_U(a, k))
            c.holds('accepted: the rollout itself was accepted', ROLL_OK(a))
            j = X.exit_index if X.exit_index is not None else z3.IntVal(0)
            c.holds('accepted: within the allowed number of tries', z3.And(j >= 0, j < S.opt('line_search_max_iterations')))
            fac = S.opt('line_search_decrease_factor')
            X.assume(F_geo(M.rnorm(1 / fac), z3.IntVal(0)) == 1)       # definition of geo
            c.eq('accepted: the step length started at 1 and shrank by the configured factor', a,
                 z3.If(j == 0, z3.RealVal(1), F_geo(M.rnorm(1 / fac), j)) if M.ival(j) != 0 else z3.RealVal(1))
            c.sum_is('accepted: logged cost is the total cost of the new trajectory', logged, z3.simplify(N + 1), cost_at)
            c.holds('accepted: cost strictly decreases', logged < J0)
            d = c.old(S.dV)
            exp = -a * (d[0] + a * d[1])
            lo, hi = S.opt('line_search_lower_bound'), S.opt('line_search_upper_bound')
            c.holds('accepted: ratio within its bounds', z3.And(lo <= ratio, ratio <= hi))
            c.holds('accepted: the expected decrease is positive', exp > 0)
            c.eq('accepted: ratio is actual over expected decrease', ratio, (J0 - logged) / exp)
            c.holds('accepted: status left running', st == unsolved)
            c.eq('accepted: regularisation kept', S.rho(), c.old(S.rho))
        else:
            c.eq('rejected: state kept', z['state'], old['state'])
            c.eq('rejected: control kept', z['control'], old['control'])
            c.eq('rejected: step kept', z['step'], old['step'])
            r0, r1 = c.old(S.rho), S.rho()
            mx = S.opt('bp_reg_max')
            c.holds('rejected: regularisation increased', z3.Or(r1 == mx, r1 >= r0 * S.opt('bp_reg_increase_factor')))
            c.sum_is('rejected: logged cost is that of the kept trajectory', logged, z3.simplify(N + 1), cost_at)
            c.holds('a higher cost is reported as cost increase', z3.Implies(logged > J0, st == worse))
            c.holds('cost increase is reported only for a higher cost', z3.Implies(st == worse, z3.Or(logged > J0, c.old(S.status) == worse)))
        c.holds('no increase in cost is reported as progress', z3.Or(logged <= J0, st == worse))

    def accepted(c, k):
        """did this path replace the trajectory?"""
        z, old = S.point(S.Z(), k), c.old(lambda: S.point(S.Z(), k))
        return not (z['state'].eq(old['state']) and z['control'].eq(old['control']))
    verify(job, X, prog.fn(cls + '::ForwardPass'), setup, post, f'ForwardPass<{sz}>')


if __name__ == '__main__':
    from ._main import main
    main('P04', lambda j: [forward(j, sz) for sz in sizes(j)])
