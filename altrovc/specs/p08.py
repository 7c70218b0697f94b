"""P08: the augmented-Lagrangian cost and its derivatives are the exact formulas."""
from .allib import *
from .allib import ASSUME


def run(job):
    for kind in ('eq', 'ineq'):
        values(job, kind)
    alcost(job)


def shifted(v, x, u):
    """lambda - rho c with the constraint's own multipliers and penalty"""
    rho = M.elem(v.pen(), z3.IntVal(0), z3.IntVal(0))
    return M.sub(v.duals(), M.scale(rho, v.val(x, u))), rho


def kept(c, v, x=None, u=None):
    for nm, f in (('multipliers', v.duals), ('penalties', v.pen), ('penalty scaling', v.scaling)):
        c.eq(f'{nm} unchanged', f(), c.old(f))
    c.eq('constraint object unchanged', c.X.load(v.acc('GetConstraint')) if isinstance(v.acc('GetConstraint'), LV) else v.acc('GetConstraint'), v.con)
    if x is not None:
        c.eq('constraint value evaluated at the point', v.c(), v.val(x, u))
    for k in v.pjkey:
        lv = LV(k, c.this.idx, DYN)
        t, t0 = c.X.mget(lv), c.old(lambda: c.X.mget(lv))
        if not t.eq(t0) and M.dn(t)[:3] not in ('PJ_', 'mid', 'mze'):
            c.holds('projection Jacobian buffer stays diagonal', z3.BoolVal(False))


def values(job, kind):
    prog, cls = job.prog, cv(kind)
    X = new_interp(prog)
    v = CV(X, kind)
    dual = DUAL[kind]

    def setup(X):
        this = v.make()
        X.assume(M.elem(v.pen(), z3.IntVal(0), z3.IntVal(0)) > 0)
        return this, v.point()

    def post(c):
        x, u = [X.mget(a) for a in c.vals]
        w, rho = c.old(lambda: shifted(v, x, u))
        want = (M.sqnorm(proj(dual, w)) - M.sqnorm(c.old(v.duals))) / (2 * rho)
        c.eq('(|P(lambda - rho c)|^2 - |lambda|^2) / (2 rho)', zr(c.ret), want)
        kept(c, v, x, u)
    verify(job, X, prog.fn(cls + '::AugLag'), setup, post, f'AugLag<{kind}>')

    def setup2(X):
        this, a = setup(X)
        return this, a + [vec_arg(X, 'dx0', v.n), vec_arg(X, 'du0', v.m)]

    def blocks(c, x, u):
        w, rho = c.old(lambda: shifted(v, x, u))
        J = v.J(x, u)
        P = pjac(dual, w)
        z = z3.IntVal(0)
        C = M.mul(P, J)
        Cx = M.block(J, z, z, v.p, v.n)
        Cu = M.block(J, z, v.n, v.p, v.m)
        return rho, M.mul(P, Cx), M.mul(P, Cu), proj(dual, w)

    def post2(c):
        x, u = [X.mget(a) for a in c.vals[:2]]
        rho, Cx, Cu, pw = blocks(c, x, u)
        c.eq("state gradient is -(P'Cx)' P(lambda - rho c)", X.mget(c.vals[2]), M.neg(M.mul(M.T(Cx), pw)))
        c.eq("control gradient is -(P'Cu)' P(lambda - rho c)", X.mget(c.vals[3]), M.neg(M.mul(M.T(Cu), pw)))
        kept(c, v, x, u)
    verify(job, X, prog.fn(cls + '::AugLagGradient'), setup2, post2, f'AugLagGradient<{kind}>')

    def setup3(X):
        this, a = setup(X)
        return this, a + [mat_arg(X, 'dxdx0', v.n, v.n), mat_arg(X, 'dxdu0', v.n, v.m), mat_arg(X, 'dudu0', v.m, v.m),
                          X.temp('bool', z3.BoolVal(False))]

    def post3(c):
        x, u = [X.mget(a) for a in c.vals[:2]]
        rho, Cx, Cu, pw = blocks(c, x, u)
        for nm, got, l, r in (('dxdx', 2, Cx, Cx), ('dxdu', 3, Cx, Cu), ('dudu', 4, Cu, Cu)):
            c.eq(f"{nm} is rho (P'C)'(P'C)", X.mget(c.vals[got]), M.scale(rho, M.mul(M.T(l), r)))
        kept(c, v, x, u)
    verify(job, X, prog.fn(cls + '::AugLagHessian'), setup3, post3, f'AugLagHessian<{kind}>')


U_al = {k: z3.Function('auglag_' + k, I, Mat, Mat, R) for k in ('eq', 'ineq')}
U_alg = {(k, o): z3.Function(f'auglag_{k}_{o}', I, Mat, Mat, Mat) for k in ('eq', 'ineq') for o in ('dx', 'du', 'dxdx', 'dxdu', 'dudu')}


def msum(n, fn, d):
    k = z3.Int('ms!')
    t = M.FMSUM(z3.IntVal(0), n, z3.Lambda([k], fn(k)))
    M._dims_cache[t.get_id()] = (t, d)
    return t


def alcost(job):
    """sums over the constraint values of one knot point, over the contracts proved above"""
    prog = job.prog
    X = new_interp(prog)
    A = ALC(X)
    cls = A.cls
    dims = {'dx': (A.n, z3.IntVal(1)), 'du': (A.m, z3.IntVal(1)), 'dxdx': (A.n, A.n), 'dxdu': (A.n, A.m), 'dudu': (A.m, A.m)}
    M.KNOWN_DIMS.append(lambda t: dims.get(t.decl().name().rsplit('_', 1)[-1]) if t.decl().name().startswith('auglag_') else None)
    for kind in ('eq', 'ineq'):
        q = cv(kind)

        def val(X, this, vals, f, kind=kind):
            return U_al[kind](this.idx[0], X.mget(vals[0]), X.mget(vals[1]))

        def outs(names, kind=kind):
            def go(X, this, vals, f):
                x, u = X.mget(vals[0]), X.mget(vals[1])
                for nm, o in zip(names, vals[2:]):
                    X.mset(o, U_alg[kind, nm](this.idx[0], x, u))
                if len(vals) > 2 + len(names) and X.choose(X.load(vals[-1]) if isinstance(vals[-1], LV) else vals[-1]):
                    raise Abort('full Newton terms are not supported', X.line)
            return go
        X.contracts[q + '::AugLag'] = [(lambda f: True, val)]
        X.contracts[q + '::AugLagGradient'] = [(lambda f: True, outs(('dx', 'du')))]
        X.contracts[q + '::AugLagHessian'] = [(lambda f: True, outs(('dxdx', 'dxdu', 'dudu')))]
    for g in prog.recs[cls]['fields']:       # the full-Newton flag is false from construction on and written nowhere
        if g['t'] == 'bool':
            X.aliastab[f'H:{cls}.{g["n"]}'] = lambda X, idx: z3.BoolVal(False)

    def setup(X):
        return A.make(), [vec_arg(X, 'x', A.n), vec_arg(X, 'u', A.m)]

    def scratch(c, allow=()):
        X = c.X
        for kind in ('eq', 'ineq'):
            i = X.fresh('ci', I)
            X.assume(z3.And(i >= 0, i < A.cnt[kind]))
            c.eq(f'{kind} constraints kept', A.con(kind, i), c.old(lambda: A.con(kind, i)))

    def post(c):
        x, u = [X.mget(a) for a in c.vals]
        k = [z3.Int('k1!'), z3.Int('k2!')]
        want = U_cost(A.cost, x, u)
        for kind in ('eq', 'ineq'):
            want = want + M.fold_sum(z3.IntVal(0), A.cnt[kind], lambda i, kind=kind: U_al[kind](A.con(kind, i), x, u))
        c.eq('original cost plus one term per constraint', zr(c.ret), want)
        scratch(c)
    verify(job, X, prog.fn(cls + '::Evaluate', pred=lambda g: len(g['params']) == 2), setup, post, 'ALCost::Evaluate')

    def deriv(names, virt, title):
        def setup2(X):
            this, a = setup(X)
            return this, a + [mat_arg(X, nm + '0', *dims[nm]) if len(nm) > 2 else vec_arg(X, nm + '0', dims[nm][0]) for nm in names]

        def post2(c):
            x, u = [X.mget(a) for a in c.vals[:2]]
            for nm, a in zip(names, c.vals[2:]):
                base = virt[nm](A.cost, x, u, norm_prev(c.old(lambda: X.mget(a))))
                for kind in ('eq', 'ineq'):
                    base = M.add(base, msum(A.cnt[kind], lambda i, kind=kind, nm=nm: U_alg[kind, nm](A.con(kind, i), x, u), dims[nm]))
                c.eq(f'{nm}: original derivative plus one term per constraint', X.mget(a), base)
            scratch(c)
        verify(job, X, prog.fn(cls + '::' + title, pred=lambda g: len(g['params']) == 2 + len(names)), setup2, post2, 'ALCost::' + title)
    deriv(('dx', 'du'), {'dx': U_gradx, 'du': U_gradu}, 'Gradient')
    deriv(('dxdx', 'dxdu', 'dudu'), {'dxdx': U_hxx, 'dxdu': U_hxu, 'dudu': U_huu}, 'Hessian')


if __name__ == '__main__':
    from ._main import main
    main('P08', run)
