"""P09: dual and penalty updates act exactly once on every constraint."""
from .allib import *
from .allib import ASSUME as _A

ASSUME = [a for a in _A if 'Jacobian' not in a]


def run(job):
    for kind in ('eq', 'ineq'):
        values(job, kind)
    alcost(job)
    solver_level(job)


def values(job, kind):
    """one constraint: the real updates"""
    prog, cls = job.prog, cv(kind)
    X = new_interp(prog)
    v = CV(X, kind)
    obs = {'multipliers': v.duals, 'penalties': v.pen, 'penalty scaling': v.scaling, 'constraint value': v.c}

    def keep(c, *but):
        for nm, f in obs.items():
            if nm not in but:
                c.eq(f'{nm} unchanged', f(), c.old(f))

    def any_i(c, *also):
        i = X.fresh('i', I)
        X.assume(z3.And(i >= 0, i < v.p))
        return i, z3.IntVal(0)

    def post(c):
        i, z = any_i(c)
        lam, pen, cc = [c.old(f) for f in (v.duals, v.pen, v.c)]
        w = M.elem(lam, i, z) - M.elem(pen, i, z) * M.elem(cc, i, z)
        want = w if kind == 'eq' else z3.If(w < 0, w, z3.RealVal(0))
        got = M.elem(v.duals(), i, z)
        c.eq('every multiplier is the dual-cone projection of lambda - rho c', got, want)
        if kind == 'ineq':
            c.holds('inequality multipliers stay non-positive', got <= 0)
        keep(c, 'multipliers')
    verify(job, X, prog.fn(cls + '::UpdateDuals'), lambda X: (v.make(), []), post, f'UpdateDuals<{kind}>')

    def post2(c):
        i, z = any_i(c)
        c.eq('every penalty is multiplied by the scaling', M.elem(v.pen(), i, z), c.old(lambda: M.elem(v.pen(), i, z)) * v.scaling())
        keep(c, 'penalties')
    verify(job, X, prog.fn(cls + '::UpdatePenalties'), lambda X: (v.make(), []), post2, f'UpdatePenalties<{kind}>')

    def post3(c):
        i, z = any_i(c)
        c.eq('every multiplier is zero', M.elem(v.duals(), i, z), z3.RealVal(0))
        keep(c, 'multipliers')
    verify(job, X, prog.fn(cls + '::ResetDualVariables'), lambda X: (v.make(), []), post3, f'ResetDualVariables<{kind}>')

    def setter(fname, lo, what, check):
        val = z3.Real('value')

        def setup(X):
            return v.make(), [X.temp('double', val)]

        def post(c):
            c.holds('accepted only in range', val >= lo)
            check(c, val)
            keep(c, what)

        def rejected(c, a):
            c.holds('rejected only out of range', val < lo)
        verify(job, X, prog.fn(cls + '::' + fname), setup, post, f'{fname}<{kind}>', on_abort=rejected)

    def allpen(c, val):
        i, z = any_i(c)
        c.eq('every penalty of the constraint is set', M.elem(v.pen(), i, z), val)
    setter('SetPenalty', 0, 'penalties', allpen)
    setter('SetPenaltyScaling', 1, 'penalty scaling', lambda c, val: c.eq('scaling is set', v.scaling(), val))

    # the expansion evaluates at the point it is given
    def post4(c):
        x, u = [X.mget(a) for a in c.vals]
        c.eq('constraint value evaluated at the point', v.c(), v.val(x, u))
        keep(c, 'constraint value')
    verify(job, X, prog.fn(cls + '::CalcExpansion'), lambda X: (v.make(), v.point()), post4, f'CalcExpansion<{kind}>')

    # construction: zero multipliers, unit penalties
    def mk(X):
        X.assume(z3.And(v.n > 0, v.m > 0, v.p > 0, v.con > 0))
        this = v.this = fresh(X, cls)
        return this, [X.temp('int', v.n), X.temp('int', v.m), X.temp(strip(v.ctor['params'][2]['t']), v.con)]

    def post5(c):
        i, z = any_i(c)
        c.eq('multipliers start at zero', M.elem(v.duals(), i, z), z3.RealVal(0))
        c.eq('penalties start at one', M.elem(v.pen(), i, z), z3.RealVal(1))
        c.eq('default scaling', v.scaling(), z3.RealVal(10))
        for nm in ('multipliers', 'penalties', 'constraint value'):
            c.eq(f'{nm}: one entry per output', M.rows(obs[nm]()), v.p)
        g = v.acc('GetConstraint')
        c.eq('constraint kept', X.load(g) if isinstance(g, LV) else g, v.con)
    verify(job, X, v.ctor, mk, post5, f'ConstraintValues<{kind}>')


def fresh(X, cls):
    from .p15 import fresh_obj
    return fresh_obj(X, cls, 'newobj')


# ------------------------------------------------------------ one knot point: every constraint exactly once
# ghost state of one constraint-value object: the list of updates it has received, as a term
GH = {k: f'H:{cv(k)}.!updates' for k in ('eq', 'ineq')}
ST = z3.DeclareSort('UpdState')


def ghost(X, kind, ref):
    return LV(GH[kind], (ref,), 'double')


U_ev = {nm: z3.Function('after_' + nm, R, R) for nm in ('UpdateDuals', 'UpdatePenalties', 'ResetDualVariables')}
U_ev1 = {nm: z3.Function('after_' + nm, R, R, R) for nm in ('SetPenalty', 'SetPenaltyScaling')}


def event_contracts(X, owner, ghost):
    """methods by contract: each call turns the abstract state s of the object into after_<method>(s, argument)"""
    for nm, F in U_ev.items():
        def ev(X, this, vals, f, F=F):
            g = ghost(X, this)
            X.store(g, F(X.load(g)))
        X.contracts[owner + '::' + nm] = [(lambda f: True, ev)]
    for nm, F in U_ev1.items():
        def ev1(X, this, vals, f, F=F):
            g = ghost(X, this)
            X.store(g, F(X.load(g), sval(X, vals[0])))
        X.contracts[owner + '::' + nm] = [(lambda f: True, ev1)]


def contype(g):
    """constraint kind a template method is instantiated for"""
    t = ' '.join(map(str, g.get('targs') or [])) or g.get('sig', '')
    return 'ineq' if 'NegativeOrthant' in t else 'eq' if 'ZeroCone' in t else None


def alcost(job):
    prog = job.prog
    X = new_interp(prog)
    A = ALC(X)
    cls = A.cls
    for kind in ('eq', 'ineq'):
        event_contracts(X, cv(kind), lambda X, this, kind=kind: ghost(X, kind, this.idx[0]))

    def state(kind, i):
        return X.load(ghost(X, kind, A.con(kind, i)))

    def each(c, want, skip=None):
        """want(kind, old state) for an arbitrary constraint of each kind"""
        for kind in ('eq', 'ineq'):
            i = X.fresh('ci', I)
            X.assume(z3.And(i >= 0, i < A.cnt[kind]))
            old = c.old(lambda: state(kind, i))
            w = want(kind, i, old)
            c.eq(f'{kind} constraint {"addressed exactly once" if not w.eq(old) else "left alone"}', state(kind, i), w)

    for nm, F in U_ev.items():
        verify(job, X, prog.fn(f'{cls}::{nm}'), lambda X: (A.make(), []),
               lambda c, F=F: each(c, lambda kind, i, s: F(s)), f'ALCost::{nm}')
    val, idx = z3.Real('value'), z3.Int('index')
    for nm, F in U_ev1.items():
        for g in prog.by_q.get(f'{cls}::{nm}', []):
            k = contype(g)
            if g.get('body') is None or k is None:
                continue
            if len(g['params']) == 1:
                verify(job, X, g, lambda X: (A.make(), [X.temp('double', val)]),
                       lambda c, F=F, k=k: each(c, lambda kind, i, s: F(s, val) if kind == k else s), f'ALCost::{nm}<{k}>(value)')
            else:
                def post(c, F=F, k=k):
                    c.holds('accepted only for an existing constraint', z3.And(idx >= 0, idx < A.cnt[k]))
                    each(c, lambda kind, i, s: z3.If(i == idx, F(s, val), s) if kind == k else s)
                verify(job, X, g, lambda X: (A.make(), [X.temp('double', val), X.temp('int', idx)]), post,
                       f'ALCost::{nm}<{k}>(value, index)',
                       on_abort=lambda c, a, k=k: c.holds('rejected only for a missing constraint', z3.Or(idx < 0, idx >= A.cnt[k])))


def solver_level(job):
    """every knot point, the terminal one included, exactly once"""
    prog = job.prog
    X = new_interp(prog)
    S = ALS(X)
    cls = S.cls
    G = lambda X, this: LV(f'H:{ALC.cls}.!updates', this.idx, 'double')
    event_contracts(X, ALC.cls, G)
    F2 = {}
    for nm in U_ev1:
        def ev(X, this, vals, f, nm=nm):
            k = contype(f)
            if k is None or len(vals) != 1:
                raise Unsupported(f'{nm} for an unknown kind of constraint')
            F = z3.Function(f'after_{nm}_{k}', R, R, R)
            g = G(X, this)
            X.store(g, F(X.load(g), sval(X, vals[0])))
        X.contracts[f'{ALC.cls}::{nm}'] = [(lambda f: True, ev)]

    def state(k):
        return X.load(LV(f'H:{ALC.cls}.!updates', (S.cost(k),), 'double'))

    def each(c, want):
        k = X.fresh('k', I)
        X.assume(z3.And(k >= 0, k <= S.N))
        c.eq('every knot point exactly once', state(k), want(c.old(lambda: state(k))))
    for nm, F in U_ev.items():
        verify(job, X, prog.fn(f'{cls}::{nm}'), lambda X: (S.make(), []), lambda c, F=F: each(c, lambda s: F(s)), f'AL solver {nm}')
    val = z3.Real('value')
    for nm in U_ev1:
        Fe, Fi = [z3.Function(f'after_{nm}_{k}', R, R, R) for k in ('eq', 'ineq')]

        def post(c, Fe=Fe, Fi=Fi):
            k = X.fresh('k', I)
            X.assume(z3.And(k >= 0, k <= S.N))
            s = c.old(lambda: state(k))
            got = state(k)
            other = Fe(Fi(s, val), val)
            c.eq('both kinds at every knot point exactly once', got, other if got.eq(other) else Fi(Fe(s, val), val))
        verify(job, X, prog.fn(f'{cls}::{nm}'), lambda X: (S.make(), [X.temp('double', val)]), post, f'AL solver {nm}')


if __name__ == '__main__':
    from ._main import main
    main('P09', run)
