"""P03: regularisation stays within its bounds and moves in the right direction."""
from .ilqrlib import *
from .ilqrlib import ASSUME as _A
from . import p04

ASSUME = _A + p04.ASSUME + ['0 <= min <= max, increase factor >= 1, a starting regularisation >= 0, a failure threshold of at least one']

SZ = SIZES


def run(job):
    for sz in SZ:
        tag = f'<{sz}>'
        updates(job, sz, tag)
    for sz in sizes(job):
        start(job, sz)
        sweep(job, sz)
        p04.forward(job, sz)


def start(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    launch_contract(X, S)

    def post(c):
        c.eq('a solve starts at the initial regularisation', S.rho(), S.opt('bp_reg_initial'))
        c.eq('a solve starts without damping', X.load(S.drho_lv()), z3.RealVal(0))
        for i in (0, 1):
            c.eq('a solve starts without expected decrease', S.dV()[i], z3.RealVal(0))
        c.eq('a solve starts running', S.status(), S.st('kUnsolved'))
    verify(job, X, prog.fn(cls + '::SolveSetup'), lambda X: (S.make(), []), post, f'SolveSetup<{sz}>')


def sweep(job, sz):
    """the backward pass: one increase per failed factorisation, one decrease at the end"""
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    step_contracts(X, S)
    opts = lambda: (S.opt('bp_reg_min'), S.opt('bp_reg_max'), S.opt('bp_reg_increase_factor'))

    def setup(X):
        this = S.make()
        lo, hi, f = opts()
        X.assume(z3.And(lo >= 0, lo <= hi, f >= 1, S.rho() >= 0, S.opt('bp_reg_fail_threshold') >= 1))
        return this, []

    def post(c):
        lo, hi, f = opts()
        clamp = lambda v: M.zmin(M.zmax(v, lo), hi)
        used, end, dr = S.hist_last('regularization'), S.rho(), X.load(S.drho_lv())
        c.holds('the pass ends inside the bounds', z3.And(end >= lo, end <= hi))
        c.eq('the pass ends with exactly one decrease of the value it used', end, clamp(used * dr))
        c.holds('the final decrease divides at least by the factor', dr * f <= 1)
        ts = X.exit_index
        failed = X.choose(S.status() == S.st('kBackwardPassRegularizationFailed'))
        if failed:
            if ts is not None:
                X.instantiate(z3.simplify(ts - 1))
            c.holds('the pass fails only at maximum regularisation', used >= hi)
            return
        if ts is None or not atoms_of(used, ts):
            c.holds('the sweep used the value the pass started with', z3.Or(used == c.old(S.rho)))
            return
        r = lambda k: z3.simplify(z3.substitute(used, (ts, k)))
        k = X.fresh('sweep', I)
        X.assume(z3.And(k >= 0, k < ts))
        X.instantiate(k, z3.simplify(k - 1))
        r0, r1 = r(k), r(k + 1)
        c.eq('the first sweep uses the value the pass started with', r(z3.IntVal(0)), c.old(S.rho))
        c.holds('sweep value non-negative', r0 >= 0)
        c.holds('a failed factorisation never lowers the regularisation unless capped', z3.Or(r1 >= r0, r1 == hi))
        c.holds('a failed factorisation raises the regularisation by the factor up to the cap', z3.Or(r1 >= r0 * f, r1 == hi))
        c.holds('sweep value within bounds', z3.And(r1 >= lo, r1 <= hi))
    verify(job, X, prog.fn(cls + '::BackwardPass'), setup, post, f'BackwardPass<{sz}>')


def atoms_of(t, x):
    from ..vc import atoms
    return atoms(t, lambda q: q.eq(x))


def updates(job, sz, tag):
    prog = job.prog
    cls = ilqr(sz)
    X, S = solver(job, sz)

    def setup(X):
        this = S.make()
        f = S.opt('bp_reg_increase_factor')
        X.assume(z3.And(f > 0, S.opt('bp_reg_min') >= 0, S.opt('bp_reg_min') <= S.opt('bp_reg_max')))
        return this, []

    def common(c):
        r0 = c.old(S.rho)
        r1 = S.rho()
        lo, hi, f = S.opt('bp_reg_min'), S.opt('bp_reg_max'), S.opt('bp_reg_increase_factor')
        c.holds('regularisation stays in [min, max]', z3.And(r1 >= lo, r1 <= hi))
        return r0, r1, lo, hi, f

    def inc(c):
        r0, r1, lo, hi, f = common(c)
        d1 = c.X.load(S.drho_lv())
        c.holds('growth factor at least the increase factor', d1 >= f)
        c.holds('never lowers unless capped', z3.Implies(z3.And(f >= 1, r0 >= 0), z3.Or(r1 >= r0, r1 == hi)))
        c.holds('grows at least by the factor, up to the cap', z3.Implies(r0 >= 0, z3.Or(r1 >= r0 * f, r1 == hi)))
        c.frame(allow=[S.rho_lv(), S.drho_lv()])

    def dec(c):
        r0, r1, lo, hi, f = common(c)
        d1 = c.X.load(S.drho_lv())
        c.holds('never raises except up to the minimum', z3.Implies(z3.And(f > 1, r0 >= 0), z3.Or(r1 <= r0, r1 == lo)))
        c.holds('shrink factor at most the inverse factor', d1 * f <= 1)
        c.frame(allow=[S.rho_lv(), S.drho_lv()])
    verify(job, X, prog.fn(cls + '::IncreaseRegularization'), setup, inc, 'IncreaseRegularization' + tag)
    verify(job, X, prog.fn(cls + '::DecreaseRegularization'), setup, dec, 'DecreaseRegularization' + tag)


if __name__ == '__main__':
    from ._main import main
    main('P03', run)
