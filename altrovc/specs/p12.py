"""P12: integrators implement their scheme and its exact Jacobian."""
from .common import *

NS = 'altro::problem::'
ASSUME = ["the user's continuous dynamics and Jacobian are deterministic functions of state, control and time that write their whole output"]
CD = 'std::shared_ptr<altro::problem::ContinuousDynamics>'


def model_virtuals(X):
    def evaluate(X, f, o, vals):
        if len(vals) != 4:
            raise Unsupported('Evaluate')
        x, u, t, out = vals
        wr(X, out, lambda p: U_cdyn(oref(o), X.mget(x), X.mget(u), sval(X, t)))

    def jacobian(X, f, o, vals):
        if len(vals) != 4:
            raise Unsupported('Jacobian')
        x, u, t, out = vals
        wr(X, out, lambda p: U_cjac(oref(o), X.mget(x), X.mget(u), sval(X, t), ZEROBUF))
    X.virtual['Evaluate'], X.virtual['Jacobian'] = evaluate, jacobian


def f_(dyn, n, x, u, t):
    s = U_cdyn(dyn, x, u, t)
    M._dims_cache[s.get_id()] = (s, (z3.simplify(n), z3.IntVal(1)))
    return s


def ab(dyn, n, m, x, u, t):
    J = U_cjac(dyn, x, u, t, ZEROBUF)
    M._dims_cache[J.get_id()] = (J, (z3.simplify(n), z3.simplify(n + m)))
    return M.block(J, 0, 0, n, n), M.block(J, 0, n, n, m)


def rk4(dyn, n, m, x, u, t, h):
    k1 = f_(dyn, n, x, u, t)
    x2 = M.add(x, M.scale(h / 2, k1))
    k2 = f_(dyn, n, x2, u, t + h / 2)
    x3 = M.add(x, M.scale(h / 2, k2))
    k3 = f_(dyn, n, x3, u, t + h / 2)
    x4 = M.add(x, M.scale(h, k3))
    k4 = f_(dyn, n, x4, u, t + h)
    nxt = M.add(x, M.scale(h / 6, M.add(M.add(k1, M.scale(z3.RealVal(2), k2)), M.add(M.scale(z3.RealVal(2), k3), k4))))
    pts = [(x, t), (x2, t + h / 2), (x3, t + h / 2), (x4, t + h)]
    AB = [ab(dyn, n, m, xx, u, tt) for xx, tt in pts]
    In = M.ident(n, n)
    c = [None, h / 2, h / 2, h]
    dx, du = [], []
    for i, (A, Bm) in enumerate(AB):
        if i == 0:
            dx.append(A)
            du.append(Bm)
        else:
            dx.append(M.mul(A, M.add(In, M.scale(c[i], dx[-1]))))
            du.append(M.add(Bm, M.mul(A, M.scale(c[i], du[-1]))))
    w = [1, 2, 2, 1]
    Jx, Ju = In, M.zero(n, m)
    for i in range(4):
        Jx = M.add(Jx, M.scale(h * w[i] / 6, dx[i]))
        Ju = M.add(Ju, M.scale(h * w[i] / 6, du[i]))
    return nxt, Jx, Ju


def euler(dyn, n, m, x, u, t, h):
    A, Bm = ab(dyn, n, m, x, u, t)
    return (M.add(x, M.scale(h, f_(dyn, n, x, u, t))), M.add(M.ident(n, n), M.scale(h, A)), M.scale(h, Bm))


def run(job):
    prog = job.prog
    for cls, scheme, sz in [(NS + 'ExplicitEuler', euler, None), (NS + 'RungeKutta4<-1, -1>', rk4, None),
                            (NS + 'RungeKutta4<4, 2>', rk4, (4, 2))]:
        X = new_interp(prog)
        model_virtuals(X)
        inv = ClassInv(prog, cls, lambda g: len(g['params']) == 2 and not g.get('copy') and not g.get('move'),
                       lambda X, n, m: [X.temp('int', n), X.temp('int', m)]) if sz is None else None
        kn = km = None
        if inv:
            kn, km = inv.register(X, 'H:' + cls, True)

        def args(X, cls=cls, sz=sz, kn=kn, km=km):
            this = obj(X, cls, 'integ')
            if sz:
                n, m = z3.IntVal(sz[0]), z3.IntVal(sz[1])
            else:
                n, m = X.base_read(Base(kn, 'int'), this.idx), X.base_read(Base(km, 'int'), this.idx)
            X.assume(z3.And(n > 0, m > 0))
            dyn = z3.Int('dyn')
            X.assume(z3.And(dyn > 0, U_sdim(dyn) == n, U_cdim(dyn) == m))
            d = X.temp(CD, PtrVal(LV('H:' + NS + 'ContinuousDynamics', (dyn,), NS + 'ContinuousDynamics')))
            return this, n, m, dyn, [d, vec_arg(X, 'x', n), vec_arg(X, 'u', m), real_arg(X, 't'), real_arg(X, 'h')]

        st = {}

        def s1(X):
            this, n, m, dyn, a = args(X)
            st.update(n=n, m=m, dyn=dyn)
            return this, a + [vec_arg(X, 'xn0', n)]

        def spec(c):
            n, m, dyn = st['n'], st['m'], st['dyn']
            x, u = c.old(lambda: c.X.mget(c.vals[1])), c.old(lambda: c.X.mget(c.vals[2]))
            return scheme(dyn, n, m, x, u, z3.Const('t', R), z3.Const('h', R))

        def p1(c):
            c.eq('next state is the scheme', c.X.mget(c.vals[5]), spec(c)[0])
            inputs(c)

        def inputs(c):
            for i in (1, 2):
                c.eq('inputs unchanged', c.X.mget(c.vals[i]), c.old(lambda: c.X.mget(c.vals[i])))
        nm = cls.replace(NS, '')
        verify(job, X, prog.fn(cls + '::Integrate'), s1, p1, nm + '::Integrate')

        def s2(X):
            this, n, m, dyn, a = args(X)
            st.update(n=n, m=m, dyn=dyn)
            return this, a + [mat_arg(X, 'J0', n, n + m)]

        def p2(c):
            n, m = st['n'], st['m']
            J = c.X.mget(c.vals[5])
            _, Jx, Ju = spec(c)
            c.eq('state columns are the derivative of the scheme', M.block(J, 0, 0, n, n), Jx)
            c.eq('control columns are the derivative of the scheme', M.block(J, 0, n, n, m), Ju)
            inputs(c)
        verify(job, X, prog.fn(cls + '::Jacobian'), s2, p2, nm + '::Jacobian')

    discretized(job)


def discretized(job):
    """a discretised model is its integrator applied to its model, time and step"""
    prog = job.prog
    cands = [c for c in prog.by_cls if c.startswith(NS + 'DiscretizedModel<')]
    if not cands:
        raise Unsupported('no DiscretizedModel instantiation')
    cls = cands[0]
    integ = targs(cls)[1]
    X = new_interp(prog)
    model_virtuals(X)
    inv = ClassInv(prog, integ, lambda g: len(g['params']) == 2 and not g.get('copy') and not g.get('move'),
                   lambda X, n, m: [X.temp('int', n), X.temp('int', m)])
    flds = {f['n']: strip(f['t']) for f in prog.recs[cls]['fields']}
    iname = [k for k, t in flds.items() if t == integ]
    mname = [k for k, t in flds.items() if t.startswith('std::shared_ptr<')]
    if len(iname) != 1 or len(mname) != 1:
        raise Unsupported('members of ' + cls)
    ilv = X.field(LV('H:' + cls, (), cls), iname[0], integ, cls)
    kn, km = inv.register(X, ilv.key, False)
    st = {}

    def args(X):
        this = obj(X, cls, 'dm')
        n, m = X.base_read(Base(kn, 'int'), this.idx), X.base_read(Base(km, 'int'), this.idx)
        mp = X.load(X.field(this, mname[0], flds[mname[0]], cls))
        dyn = mp if is_z(mp) else mp.lv.idx[0]
        X.assume(z3.And(n > 0, m > 0, dyn > 0, U_sdim(dyn) == n, U_cdim(dyn) == m, dyn != this.idx[0]))
        st.update(n=n, m=m, dyn=dyn)
        return this, n, m, [vec_arg(X, 'x', n), vec_arg(X, 'u', m), real_arg(X, 't'), real_arg(X, 'h')]

    def spec(c):
        x, u = c.old(lambda: c.X.mget(c.vals[0])), c.old(lambda: c.X.mget(c.vals[1]))
        return rk4(st['dyn'], st['n'], st['m'], x, u, z3.Const('t', R), z3.Const('h', R))

    def s1(X):
        this, n, m, a = args(X)
        return this, a + [vec_arg(X, 'xn0', n)]
    verify(job, X, prog.fn(cls + '::Evaluate', nparams=5), s1,
           lambda c: c.eq('the integrator of the model, time and step', c.X.mget(c.vals[4]), spec(c)[0]), 'DiscretizedModel::Evaluate')

    def s2(X):
        this, n, m, a = args(X)
        return this, a + [mat_arg(X, 'J0', n, n + m)]

    def p2(c):
        n, m = st['n'], st['m']
        J = c.X.mget(c.vals[4])
        _, Jx, Ju = spec(c)
        c.eq('state columns', M.block(J, 0, 0, n, n), Jx)
        c.eq('control columns', M.block(J, 0, n, n, m), Ju)
    verify(job, X, prog.fn(cls + '::Jacobian', nparams=5), s2, p2, 'DiscretizedModel::Jacobian')

    def s3(X):
        return args(X)[0], []
    verify(job, X, prog.fn(cls + '::StateDimension'), s3, lambda c: c.eq('the model dimension', c.ret, U_sdim(st['dyn'])),
           'DiscretizedModel::StateDimension')
    verify(job, X, prog.fn(cls + '::ControlDimension'), s3, lambda c: c.eq('the model dimension', c.ret, U_cdim(st['dyn'])),
           'DiscretizedModel::ControlDimension')
    verify(job, X, prog.fn(cls + '::HasHessian'), s3, lambda c: c.holds('of the model', c.ret == U_hess(st['dyn'])),
           'DiscretizedModel::HasHessian')


if __name__ == '__main__':
    from ._main import main
    main('P12', run)
