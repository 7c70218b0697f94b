"""P05: every returned trajectory is dynamically feasible."""
from .ilqrlib import *
from .ilqrlib import ASSUME as _A
from ..builtins import *

ASSUME = _A


def run(job):
    for sz in sizes(job):
        rollout(job, sz)
        closed(job, sz)
        times(job, sz)
        settraj(job, sz)


def anyk(X, N, incl=False, name='k'):
    k = X.fresh(name, I)
    X.assume(z3.And(k >= 0, k <= N if incl else k < N))
    return k


def unf(X, t):
    return X.unfold(t) if t.decl().name() in X.lfcells else t


def same_except(c, S, Z, what, k, keys):
    now = S.point(Z(), k)
    old = c.old(lambda: S.point(Z(), k))
    for q in keys:
        c.eq(f'{what} {q}', now[q], old[q])


def rollout(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)

    def post(c):
        N = S.N
        p0 = S.point(S.Z(), z3.IntVal(0))
        c.eq('starts at the initial state', p0['state'], S.x0())
        k = anyk(X, N)
        a, b = S.point(S.Z(), k), S.point(S.Z(), z3.simplify(k + 1))
        c.eq('next state is the dynamics of knot point k', unf(X, b['state']), S.dyn(k, a['state'], a['control'], a['time'], a['step']))
        k = anyk(X, N, True, 'q')
        same_except(c, S, S.Z, 'open-loop rollout keeps the', k, ('control', 'time', 'step'))
        same_except(c, S, S.Zbar, 'open-loop rollout leaves the trial trajectory alone:', k, ('state', 'control', 'time', 'step'))
    verify(job, X, prog.fn(cls + '::Rollout'), lambda X: (S.make(), []), post, f'Rollout<{sz}>')


def closed(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)

    def setup(X):
        return S.make(), [real_arg(X, 'alpha')]

    def post(c):
        N = S.N
        a = z3.Const('alpha', R)
        ok = c.ret
        if isinstance(ok, (LV, ElemLV)):
            ok = X.load(ok)
        j = anyk(X, N, True, 'q')
        same_except(c, S, S.Z, 'trial rollout leaves the trajectory alone:', j, ('state', 'control', 'time', 'step'))
        same_except(c, S, S.Zbar, 'trial rollout keeps its own', j, ('time', 'step'))
        checked = S.opt('check_forwardpass_bounds')
        xm, um = S.opt('state_max'), S.opt('control_max')

        def stage(k):
            z, zb, zn = S.point(S.Z(), k), S.point(S.Zbar(), k), S.point(S.Zbar(), z3.simplify(k + 1))
            v = S.kpf(k)
            K, d = v.mat('GetFeedbackGain'), v.mat('GetFeedforwardGain')
            dx = M.add(zb['state'], M.scale(z3.RealVal(-1), z['state']))
            u = M.add(M.add(z['control'], M.mul(K, dx)), M.scale(a, d))
            return zb, zn, u
        c.eq('starts at the initial state', S.point(S.Zbar(), z3.IntVal(0))['state'], S.x0())
        if X.choose(ok):
            k = anyk(X, N)
            zb, zn, u = stage(k)
            c.eq('control is u + K dx + alpha d', unf(X, zb['control']), u)
            c.eq('next state is the dynamics of knot point k', unf(X, zn['state']), S.dyn(k, zb['state'], zb['control'], zb['time'], zb['step']))
            X.instantiate(k)
            c.holds('accepted: status left running', S.status() == S.st('kUnsolved'))
            c.holds('accepted: no state above its limit', z3.Implies(checked, z3.Not(M.F_norm(unf(X, zn['state'])) > xm)))
            c.holds('accepted: no control above its limit', z3.Implies(checked, z3.Not(M.F_norm(unf(X, zb['control'])) > um)))
        else:
            c.holds('rejected only with bound checking', checked)
            k = X.exit_index
            if k is None:
                c.holds('rejected only inside the rollout', z3.BoolVal(False))
                return
            zb, zn, u = stage(k)
            if X.choose(S.status() == S.st('kStateLimit')):
                c.holds('rejected with the state status: that state is above its limit', M.F_norm(unf(X, zn['state'])) > xm)
            else:
                c.holds('rejected: matching status', S.status() == S.st('kControlLimit'))
                c.holds('rejected with the control status: that control is above its limit', M.F_norm(unf(X, zb['control'])) > um)
            c.eq('rejected: offending control is u + K dx + alpha d', unf(X, zb['control']), u)
            c.eq('rejected: offending state is the dynamics of knot point k', unf(X, zn['state']), S.dyn(k, zb['state'], zb['control'], zb['time'], zb['step']))
    verify(job, X, prog.fn(cls + '::RolloutClosedLoop'), setup, post, f'RolloutClosedLoop<{sz}>')


def times(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    launch_contract(X, S)

    def post(c):
        N = S.N
        k = anyk(X, N, True)
        z, zb = S.point(S.Z(), k), S.point(S.Zbar(), k)
        c.eq('trial trajectory takes the time of every knot point', zb['time'], z['time'])
        if X.choose(k < N):
            c.eq('trial trajectory takes the step of every segment', zb['step'], z['step'])
        same_except(c, S, S.Z, 'the user trajectory keeps its', k, ('state', 'control', 'time', 'step'))
        same_except(c, S, S.Zbar, 'set-up leaves the trial', k, ('state', 'control'))
    verify(job, X, prog.fn(cls + '::SolveSetup'), lambda X: (S.make(), []), post, f'SolveSetup<{sz}>')


def newtraj(X, S, name):
    """a trajectory of the solver's horizon the user hands in"""
    r = z3.Int(name)
    X.assume(z3.And(r > 0, F_kind(r) <= 0, r != S.Zref, r != S.Zbref, r != S.this.idx[0]))
    X.dyn[r.get_id()] = (r, S.tcls)
    old = X.aliastab[f'H:{S.tcls}.{S.tvec}.#']
    X.aliastab[f'H:{S.tcls}.{S.tvec}.#'] = lambda X, idx: S.N + 1 if idx[0].eq(r) else old(X, idx)
    return r


def settraj(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)

    def setup(X):
        this = S.make()
        r = newtraj(X, S, 'given')
        return this, [X.temp(f'std::shared_ptr<{S.tcls}>', r)]

    def ref(c, fld):
        r = X.load(X.fieldof(c.this, fld))
        return LV('H:' + S.tcls, (r,), S.tcls)

    def post(c):
        g = LV('H:' + S.tcls, (z3.Int('given'),), S.tcls)
        z, zb = ref(c, S.zfield), ref(c, S.zbfield)
        c.eq('the given trajectory becomes the current one', z.idx[0], g.idx[0])
        c.holds('the trial trajectory is a different object', zb.idx[0] != g.idx[0])
        c.eq('same horizon', call(X, S.tcls, 'NumSegments', zb), S.N)
        k = anyk(X, S.N, True)
        a, b, old = S.point(z, k), S.point(zb, k), c.old(lambda: S.point(g, k))
        for q in ('time', 'step', 'n', 'm'):
            c.eq('the trial trajectory takes its ' + q, b[q], old[q])
        for q in ('state', 'control', 'time', 'step'):
            c.eq('the given trajectory keeps its ' + q, a[q], old[q])
    verify(job, X, prog.fn(cls + '::SetTrajectory'), setup, post, f'SetTrajectory<{sz}>')


if __name__ == '__main__':
    from ._main import main
    main('P05', run)
