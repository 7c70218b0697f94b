"""P17: derivative interfaces are views of one function, and the checkers decide it."""
from fractions import Fraction
from .common import *

NS = 'altro::problem::'
UT = 'altro::utils::'
REFV = 'Eigen::Ref'
ASSUME = ["the user's functions are deterministic functions of their arguments that write their whole output (or update it in a way "
          "determined by its previous content)",
          "real arithmetic: the difference quotients are those of the mathematical function",
          "state and control arguments have the function's state and control dimension"]
TRUST = ['fmt::print and iostream output have no effect on the result']

U_grad3 = z3.Function('grad', I, Mat, Mat, Mat, Mat)
U_hess3 = z3.Function('hess', I, Mat, Mat, Mat, Mat)
U_hessb = z3.Function('hessb', I, Mat, Mat, Mat, Mat, Mat)
U_chess = z3.Function('conthess', I, Mat, Mat, R, Mat, Mat, Mat)
U_dhess = z3.Function('dynhess', I, Mat, Mat, R, R, Mat, Mat, Mat)
U_f = z3.Function('f', Mat, Mat)


def virtuals(X):
    v = X.virtual
    grad4, hess5 = v['Gradient'], v['Hessian']

    def gradient(X, f, o, vals):
        if len(vals) == 4:
            return grad4(X, f, o, vals)
        x, u, g = vals
        xm, um = X.mget(x), X.mget(u)
        wr(X, g, lambda p: U_grad3(oref(o), xm, um, p))
    v['Gradient'] = gradient

    def hessian(X, f, o, vals):
        if f['cls'].endswith('ContinuousDynamics') and len(vals) == 5:
            x, u, t, b, h = vals
            xm, um, bm = X.mget(x), X.mget(u), X.mget(b)
            return wr(X, h, lambda p: U_chess(oref(o), xm, um, sval(X, t), bm, p))
        if len(vals) == 6:
            x, u, t, st, b, h = vals
            xm, um, bm = X.mget(x), X.mget(u), X.mget(b)
            return wr(X, h, lambda p: U_dhess(oref(o), xm, um, sval(X, t), sval(X, st), bm, p))
        if len(vals) == 5:
            return hess5(X, f, o, vals)
        if len(vals) == 4:
            x, u, b, h = vals
            xm, um, bm = X.mget(x), X.mget(u), X.mget(b)
            return wr(X, h, lambda p: U_hessb(oref(o), xm, um, bm, p))
        x, u, h = vals
        xm, um = X.mget(x), X.mget(u)
        return wr(X, h, lambda p: U_hess3(oref(o), xm, um, p))
    v['Hessian'] = hessian


def this_of(X, cls, name='fn'):
    """an object of some class derived from cls: every pure virtual is the user's"""
    ref = z3.Int(name)
    X.assume(ref > 0)
    return LV('H:' + cls, (ref,), cls)


def dimd(t, r, c):
    M._dims_cache[t.get_id()] = (t, (z3.simplify(r), z3.simplify(c)))
    return t


def base(X, cls):
    this = this_of(X, cls)
    o = this.idx[0]
    n, m = U_sdim(o), U_cdim(o)
    X.assume(z3.And(n > 0, m > 0))
    return this, o, n, m


def method(prog, cls, fn, pred=lambda f: True):
    c = [f for f in prog.by_cls.get(cls, []) if f['fn'] == fn and f.get('body') is not None and pred(f)]
    if len(c) != 1:
        raise Unsupported(f'{cls}::{fn}: {len(c)} candidates')
    return c[0]


def np(k):
    return lambda f: len(f['params']) == k


def fld(X, this, cls, getter_name):
    f = method(X.prog, cls, getter_name, np(0))
    return lambda: X.term(lambda: X.call(f, this, []))


def adapters(job):
    prog = job.prog
    for cls, step in ((NS + 'ContinuousDynamics', False), (NS + 'DiscreteDynamics', True)):
        short = cls.replace(NS, '')

        def interp():
            X = new_interp(prog)
            virtuals(X)
            return X

        # stored time and step: what was set is what is read, and setting one leaves the other
        for k, nm in enumerate(['Time', 'Step'] if step else ['Time']):
            X = interp()

            def setup(X):
                this, o, n, m = base(X, cls)
                return this, [X.temp('float', z3.Const('v', R))]

            def post(c, nm=nm):
                X = c.X
                c.eq('read back', X.call(method(prog, cls, 'Get' + nm, np(0)), c.this, []), z3.Const('v', R))
                if step:
                    other = 'Step' if nm == 'Time' else 'Time'
                    g = method(prog, cls, 'Get' + other, np(0))
                    c.eq('the other is unchanged', X.call(g, c.this, []), c.old(lambda: X.call(g, c.this, [])))
            verify(job, X, method(prog, cls, 'Set' + nm, np(1)), setup, post, f'{short}::Set{nm}')

        def tstep(c):
            X = c.X
            out = [X.call(method(prog, cls, 'GetTime', np(0)), c.this, [])]
            if step:
                out.append(X.call(method(prog, cls, 'GetStep', np(0)), c.this, []))
            return out

        # FunctionBase forms
        for fn, nb in (('Evaluate', False), ('Jacobian', False), ('Hessian', True)):
            X = interp()
            st = {}

            def setup(X, fn=fn, nb=nb):
                this, o, n, m = base(X, cls)
                st.update(o=o, n=n, m=m)
                a = [vec_arg(X, 'x', n), vec_arg(X, 'u', m)]
                if nb:
                    a.append(vec_arg(X, 'b', n))
                a.append(vec_arg(X, 'out0', n) if fn == 'Evaluate' else
                         mat_arg(X, 'out0', n if fn == 'Jacobian' else n + m, n + m))
                return this, a

            def post(c, fn=fn, nb=nb):
                o = st['o']
                x, u = c.old(lambda: c.X.mget(c.vals[0])), c.old(lambda: c.X.mget(c.vals[1]))
                ts = tstep(c)
                prev = norm_prev(c.old(lambda: c.X.mget(c.vals[-1])))
                if fn == 'Evaluate':
                    want = (U_dyn if step else U_cdyn)(o, x, u, *ts)
                elif fn == 'Jacobian':
                    want = (U_djac if step else U_cjac)(o, x, u, *ts, prev)
                else:
                    want = (U_dhess if step else U_chess)(o, x, u, *ts, c.old(lambda: c.X.mget(c.vals[2])), prev)
                got = c.X.mget(c.vals[-1])
                r, k = M.dims(got)
                c.eq('time-dependent form at the stored time' + (' and step' if step else ''), got, dimd(want, r, k))
                c.frame()
            verify(job, X, method(prog, cls, fn, lambda f, nb=nb: len(f['params']) == (4 if nb else 3) and f.get('body') is not None and
                                  'void' == f['ret'] and not any(strip(p['t']) == 'float' for p in f['params'])),
                   setup, post, f'{short}::{fn} (time-free)')

        # value-returning forms
        for fn in ('Evaluate', 'operator()'):
            X = interp()
            st = {}

            def setup(X):
                this, o, n, m = base(X, cls)
                st.update(o=o, n=n, m=m)
                a = [vec_arg(X, 'x', n), vec_arg(X, 'u', m), real_arg(X, 't')] + ([real_arg(X, 'h')] if step else [])
                return this, a

            def post(c):
                want = (U_dyn if step else U_cdyn)(st['o'], z3.Const('x', Mat), z3.Const('u', Mat), z3.Const('t', R),
                                                   *([z3.Const('h', R)] if step else []))
                got = c.X.mget(c.ret)
                r, k = M.dims(got)
                c.holds('size is the output dimension', z3.And(r == st['n'], k == 1))
                c.eq('value', got, dimd(want, r, k))
                c.frame()
            verify(job, X, method(prog, cls, fn, lambda f: f['ret'] != 'void'), setup, post, f'{short}::{fn} (returning)')

        X = interp()
        verify(job, X, method(prog, cls, 'OutputDimension'), lambda X: (base(X, cls)[0], []),
               lambda c: c.eq('the state dimension', c.ret, U_sdim(c.this.idx[0])), f'{short}::OutputDimension')

    # scalar functions
    cls = 'altro::ScalarFunction'
    X = new_interp(prog)
    virtuals(X)
    verify(job, X, method(prog, cls, 'OutputDimension'), lambda X: (base(X, cls)[0], []),
           lambda c: c.eq('one', c.ret, z3.IntVal(1)), 'ScalarFunction::OutputDimension')
    st = {}

    def s_eval(X):
        this, o, n, m = base(X, cls)
        st.update(o=o, n=n, m=m)
        return this, [vec_arg(X, 'x', n), vec_arg(X, 'u', m), vec_arg(X, 'out0', z3.IntVal(1))]

    def p_eval(c):
        c.eq('the scalar value', M.elem(c.X.mget(c.vals[2]), 0, 0), U_cost(st['o'], z3.Const('x', Mat), z3.Const('u', Mat)))
        c.frame()
    verify(job, X, method(prog, cls, 'Evaluate', np(3)), s_eval, p_eval, 'ScalarFunction::Evaluate (vector form)')

    def s_jac(X):
        this, o, n, m = base(X, cls)
        st.update(o=o, n=n, m=m)
        return this, [vec_arg(X, 'x', n), vec_arg(X, 'u', m), mat_arg(X, 'out0', z3.IntVal(1), n + m)]

    def p_jac(c):
        prev = c.old(lambda: c.X.mget(c.vals[2]))
        want = dimd(U_grad3(st['o'], z3.Const('x', Mat), z3.Const('u', Mat), norm_prev(M.T(prev))), st['n'] + st['m'], z3.IntVal(1))
        c.eq('the gradient as a row', c.X.mget(c.vals[2]), M.T(want))
        c.frame()
    verify(job, X, method(prog, cls, 'Jacobian', np(3)), s_jac, p_jac, 'ScalarFunction::Jacobian')

    def s_hess(X):
        this, o, n, m = base(X, cls)
        st.update(o=o, n=n, m=m)
        b = vec_arg(X, 'b', z3.IntVal(1))
        X.assume(M.elem(X.mget(b), 0, 0) == 1)
        return this, [vec_arg(X, 'x', n), vec_arg(X, 'u', m), b, mat_arg(X, 'out0', n + m, n + m)]

    def p_hess(c):
        prev = norm_prev(c.old(lambda: c.X.mget(c.vals[3])))
        want = dimd(U_hess3(st['o'], z3.Const('x', Mat), z3.Const('u', Mat), prev), st['n'] + st['m'], st['n'] + st['m'])
        c.eq('the scalar Hessian', c.X.mget(c.vals[3]), want)
        c.frame()
    verify(job, X, method(prog, cls, 'Hessian', np(4)), s_hess, p_hess, 'ScalarFunction::Hessian (b form)')

    # cost functions: joint form assembled from the split form
    cls2 = NS + 'CostFunction'

    def s_grad(X):
        this, o, n, m = base(X, cls2)
        st.update(o=o, n=n, m=m)
        return this, [vec_arg(X, 'x', n), vec_arg(X, 'u', m), vec_arg(X, 'out0', n + m)]

    def p_grad(c):
        o, n, m = st['o'], st['n'], st['m']
        x, u = z3.Const('x', Mat), z3.Const('u', Mat)
        prev = c.old(lambda: c.X.mget(c.vals[2]))
        got = c.X.mget(c.vals[2])
        c.eq('state part first', M.block(got, 0, 0, n, 1), dimd(U_gradx(o, x, u, norm_prev(M.block(prev, 0, 0, n, 1))), n, z3.IntVal(1)))
        c.eq('then the control part', M.block(got, n, 0, m, 1), dimd(U_gradu(o, x, u, norm_prev(M.block(prev, n, 0, m, 1))), m, z3.IntVal(1)))
        c.frame()
    X = new_interp(prog)
    virtuals(X)
    verify(job, X, method(prog, cls2, 'Gradient', np(3)), s_grad, p_grad, 'CostFunction::Gradient (joint)')

    def s_h(X):
        this, o, n, m = base(X, cls2)
        st.update(o=o, n=n, m=m)
        return this, [vec_arg(X, 'x', n), vec_arg(X, 'u', m), mat_arg(X, 'out0', n + m, n + m)]

    def p_h(c):
        o, n, m = st['o'], st['n'], st['m']
        x, u = z3.Const('x', Mat), z3.Const('u', Mat)
        prev = c.old(lambda: c.X.mget(c.vals[2]))
        got = c.X.mget(c.vals[2])
        xu = dimd(U_hxu(o, x, u, norm_prev(M.block(prev, 0, n, n, m))), n, m)
        c.eq('state block', M.block(got, 0, 0, n, n), dimd(U_hxx(o, x, u, norm_prev(M.block(prev, 0, 0, n, n))), n, n))
        c.eq('state-control block', M.block(got, 0, n, n, m), xu)
        c.eq('control block', M.block(got, n, n, m, m), dimd(U_huu(o, x, u, norm_prev(M.block(prev, n, n, m, m))), m, m))
        c.eq('control-state block is the transpose', M.block(got, n, 0, m, n), M.T(xu))
        c.frame()
    verify(job, X, method(prog, cls2, 'Hessian', np(3)), s_h, p_h, 'CostFunction::Hessian (joint)')


# ------------------------------------------------------------------ finite differences
def unit(n, i):
    return M.sel(n, i, 1)


def colform(v):
    """a column vector written element by element, as a sum"""
    if M.dn(v) == 'mset':
        b = colform(v.arg(0))
        r, c = M.dims(v)
        return M.add(b, M.scale(v.arg(3) - M.elem(b, v.arg(1), 0), unit(r, v.arg(1))))
    return v


def column(F, x, n, eps, central, q):
    """column q of the difference quotient of F at x"""
    e = M.scale(eps, unit(n, q))
    up = F(M.add(x, e))
    lo, h = (F(M.sub(x, e)), 2 * eps) if central else (F(x), eps)
    return M.scale(z3.RealVal(1) / h if False else 1 / h, M.sub(up, lo))


def fdjac(F, x, eps, central, p):
    n = M.dims(x)[0]
    return M.mk(p, n, lambda i, q: entry(column(F, x, n, eps, central, q), p, i))


def entry(col, p, i):
    return M.elem(col, 0, 0) if M.ival(p) == 1 else M.elem(col, i, 0)


def ftarget(f):
    """type of the function object"""
    return strip(f['params'][0]['t'])


def fd_core(job):
    prog = job.prog
    fs = [f for f in prog.by_q.get(UT + 'FiniteDiffJacobian', []) if f.get('body') is not None and f['params']]
    if not fs:
        raise Unsupported('no FiniteDiffJacobian')
    for f in fs:
        for central in (False, True):
            X = new_interp(prog)
            st = {}
            ret = strip(f['ret'])
            k = X.T.matdims(ret)[0]      # rows known at compile time, or -1

            def F(v):
                v = colform(v)
                return dimd(U_f(v), st['p'], z3.IntVal(1))

            def callf(X, vals):
                return F(X.mget(vals[-1]))
            tgt = ftarget(f)
            if tgt.startswith('(lambda'):
                farg = callf
            else:
                X.contracts[tgt + '::operator()'] = [(None, lambda X, this, vals, f: callf(X, vals))]
                farg = None

            def setup(X, farg=farg, central=central, tgt=tgt, k=k):
                n = z3.Int('n')
                p = z3.Int('p') if k < 0 else (n if k > 1 else z3.IntVal(k))
                X.assume(z3.And(n > 0, p > 0))
                st.update(n=n, p=p)
                if farg is not None:
                    a = X.temp(tgt)
                    X.store(a, farg)
                else:
                    a = LV('H:' + tgt, (z3.Int('fobj'),), tgt)
                eps = z3.Const('eps', R)
                X.assume(eps > 0)
                return None, [a, vec_arg(X, 'x', n), X.temp('double', eps), X.temp('bool', z3.BoolVal(central))]

            def post(c, central=central):
                X = c.X
                n, p, eps = st['n'], st['p'], z3.Const('eps', R)
                x = z3.Const('x', Mat)
                J = X.mget(c.ret)
                r, k = M.dims(J)
                c.holds('size', z3.And(r == p, k == n))
                q = X.fresh('col', I)
                i = X.fresh('row', I)
                X.assume(z3.And(q >= 0, q < n, i >= 0, i < p))
                X.instantiate(q)
                c.eq('each column is the difference quotient', M.elem(J, i, q), M.elem(column(F, x, n, eps, central, q), i, 0))
            nm = 'ScalarToVec' if 'ScalarToVec' in tgt else 'GradientFunc' if 'GradientFunc' in tgt else 'lambda' if 'lambda' in tgt else 'functor'
            verify(job, X, f, setup, post, f'FiniteDiffJacobian<{nm}> {"central" if central else "forward"}')


def output_dims(X):
    """the user's outputs have the function's dimensions, whatever the point"""
    old = M.KNOWN_DIMS[0]

    def h(t):
        if t.decl().eq(U_con):
            return (U_odim(t.arg(0)), z3.IntVal(1))
        return old(t)
    M.KNOWN_DIMS[:] = [h]


def apply_fn(X, f, lv, tgt, x):
    """the function object of a caller, executed at the point x"""
    arg = X.temp(VEC, x)
    if tgt.startswith('(lambda'):
        c = X.load(lv) if isinstance(lv, LV) else lv
        r = X.call_closure(c, [arg])
    else:
        ops = [g for g in X.prog.by_cls.get(tgt, []) if g['fn'] == 'operator()' and g.get('body') is not None]
        if len(ops) != 1:
            raise Unsupported('call operator of ' + tgt)
        r = X.call(ops[0], lv, [arg])
    return X.mget(r)


def fdj_contract(X, this, vals, f):
    """the contract proved by fd_core, applied to the caller's function object"""
    x = X.mget(vals[1])
    eps = sval(X, vals[2])
    ctr = vals[3]
    ctr = X.load(ctr) if isinstance(ctr, LV) else ctr
    n = M.dims(x)[0]
    if not X.choose(n > 0):
        raise Abort('bounds', 'empty argument of FiniteDiffJacobian')
    if not X.implied(eps > 0):
        raise Abort('contract', 'step of FiniteDiffJacobian not positive')
    central = X.choose(ctr)
    q = X.fresh('fdcol', I)
    X.assume(z3.And(q >= 0, q < n))
    tgt = ftarget(f)
    col = column(lambda v: apply_fn(X, f, vals[0], tgt, v), x, n, eps, central, q)
    p = M.dims(col)[0]
    k = X.T.matdims(strip(f['ret']))[0]
    if k >= 0:
        p = z3.IntVal(k)
    return M.mk(p, n, lambda i, j: entry(M.subst(col, [(q, j)]), p, i))


def lit(v):
    """the double nearest to a decimal literal, as the exporter writes it"""
    return z3.RealVal(str(Fraction('%.29e' % v)))


FD, FD2 = lit(1e-6), lit(1e-4)


def checkers(job):
    prog = job.prog

    def interp():
        X = new_interp(prog)
        virtuals(X)
        output_dims(X)
        X.contracts[UT + 'FiniteDiffJacobian'] = [(None, fdj_contract)]
        return X
    st = {}

    def point(X, this, o, n, m):
        return vec_arg(X, 'x', n), vec_arg(X, 'u', m)

    def common(X, cls):
        this, o, n, m = base(X, cls)
        p = U_odim(o)
        X.assume(p > 0)
        st.update(o=o, n=n, m=m, p=p)
        return this, o, n, m, p

    def split(z):
        n, m = st['n'], st['m']
        return M.block(z, 0, 0, n, 1), M.block(z, n, 0, m, 1)

    def stack(X):
        z = M.zero(st['n'] + st['m'], z3.IntVal(1))
        z = M.setblock(z, 0, 0, st['n'], 1, z3.Const('x', Mat))
        return M.setblock(z, st['n'], 0, st['m'], 1, z3.Const('u', Mat))

    tol = z3.Const('tol', R)

    def verdict(c, what, err):
        """the returned value is 'norm of err below the tolerance'; the norm may be that of -err"""
        from ..vc import atoms
        norms = atoms(c.ret, lambda t: t.decl().name() == 'mnorm')
        for a in norms:
            for e in (err, M.neg(err)):
                scratch = Job(job.pid, job.prog)
                if Prover(c.X, scratch).prove_eq('norm', a.arg(0), e):
                    for b, k in scratch.backends.items():
                        job.record(c.name('error matrix'), True, b)
                    c.X.assume(a == M.F_norm(err))
                    break
            else:
                return c.eq('error matrix', a.arg(0), err)
        c.holds(what, c.ret == (M.F_norm(err) < tol))

    def tail(X):
        return [X.temp('double', tol), X.temp('bool', z3.Const('verbose', B))]

    # Jacobian
    cls = 'altro::FunctionBase'

    def s1(X):
        this, o, n, m, p = common(X, cls)
        return this, list(point(X, this, o, n, m)) + tail(X)

    def p1(c):
        o, n, m, p = (st[k] for k in 'onmp')
        z = stack(c.X)
        F = lambda v: dimd(U_con(o, *split(v)), p, z3.IntVal(1))
        want = fdjac(F, z, FD, False, p)
        J = dimd(U_conjac(o, z3.Const('x', Mat), z3.Const('u', Mat), ZEROBUF), p, n + m)
        verdict(c, 'true exactly when the error against the forward quotient is below the tolerance',
                M.sub(want, J))
        c.frame()
    X = interp()
    verify(job, X, method(prog, cls, 'CheckJacobian', np(4)), s1, p1, 'FunctionBase::CheckJacobian')

    # the point sampled when none is given has the function's dimensions
    def recorder(rec):
        def fn(X, this, vals, f):
            rec['vals'] = [X.mget(v) if X.T.kind(p['t']) == 'mat' else sval_any(X, v) for v, p in zip(vals, f['params'])]
            rec['this'] = this
            r = X.fresh('verdict', B)
            rec['ret'] = r
            return r
        return fn

    def sampled(cls, fn, nvec):
        X = interp()
        rec = {}
        X.contracts[cls + '::' + fn] = [(np(nvec + 2), recorder(rec))]

        def setup(X):
            this, o, n, m, p = common(X, cls)
            if 'Scalar' in cls:
                X.assume(p == 1)
            rec.clear()
            return this, tail(X)

        def post(c):
            if 'ret' not in rec:
                return c.holds('checks at a sampled point', z3.BoolVal(False))
            v = rec['vals']
            c.holds('the verdict is that at the sampled point', c.ret == rec['ret'])
            c.eq('of this function', rec['this'].idx[0], c.this.idx[0])
            for t, d in zip(v, (st['n'], st['m'], st['p'])[:nvec]):
                r, k = M.dims(t)
                c.holds('the sampled point has the dimensions of the function', z3.And(r == d, k == 1))
            if nvec == 3:
                c.holds('the weight of a scalar function is one', z3.Implies(st['p'] == 1, M.elem(v[2], 0, 0) == 1))
            c.eq('tolerance', v[nvec], tol)
            c.frame()
        verify(job, X, method(prog, cls, fn, np(2)), setup, post, f"{cls.replace('altro::', '')}::{fn} (sampled)")

    # Hessian
    def s2(X):
        this, o, n, m, p = common(X, cls)
        return this, list(point(X, this, o, n, m)) + [vec_arg(X, 'b', p)] + tail(X)

    def weighted(v):
        o, p = st['o'], st['p']
        out = dimd(U_con(o, *split(v)), p, z3.IntVal(1))
        return M.const11(M.scalar11(M.mul(M.T(out), z3.Const('b', Mat))))

    def p2(c):
        o, n, m, p = (st[k] for k in 'onmp')
        z = stack(c.X)
        grad = lambda v: M.T(fdjac(weighted, v, FD2, True, z3.IntVal(1)))
        want = fdjac(grad, z, FD2, True, n + m)
        H = dimd(U_hessb(o, z3.Const('x', Mat), z3.Const('u', Mat), z3.Const('b', Mat), ZEROBUF), n + m, n + m)
        verdict(c, 'true exactly when the error against the central quotient is below the tolerance',
                M.sub(want, H))
        c.frame()
    X = interp()
    verify(job, X, method(prog, cls, 'CheckHessian', np(5)), s2, p2, 'FunctionBase::CheckHessian')

    # gradient of a scalar function
    cls_s = 'altro::ScalarFunction'

    def s3(X):
        this, o, n, m, p = common(X, cls_s)
        return this, list(point(X, this, o, n, m)) + tail(X)

    def p3(c):
        o, n, m = (st[k] for k in 'onm')
        z = stack(c.X)
        F = lambda v: M.const11(U_cost(o, *split(v)))
        want = M.T(fdjac(F, z, FD, False, z3.IntVal(1)))
        G = dimd(U_grad3(o, z3.Const('x', Mat), z3.Const('u', Mat), ZEROBUF), n + m, z3.IntVal(1))
        verdict(c, 'true exactly when the error against the forward quotient is below the tolerance',
                M.sub(want, G))
        c.frame()
    X = interp()
    verify(job, X, method(prog, cls_s, 'CheckGradient', np(4)), s3, p3, 'ScalarFunction::CheckGradient')
    sampled(cls, 'CheckJacobian', 2)
    sampled(cls, 'CheckHessian', 3)
    sampled(cls_s, 'CheckGradient', 2)


U_s = z3.Function('fs', Mat, R)


def fd_scalar(job):
    """gradient and Hessian quotients of an arbitrary scalar function, for every step"""
    prog = job.prog
    tgt = 'altro::VScalar'
    for fn in ('FiniteDiffGradient', 'FiniteDiffHessian'):
        fs = [f for f in prog.by_q.get(UT + fn, []) if f.get('body') is not None and ftarget(f) == tgt]
        if len(fs) != 1:
            raise Unsupported(fn)
        for central in (False, True):
            X = new_interp(prog)
            X.contracts[UT + 'FiniteDiffJacobian'] = [(None, fdj_contract)]
            X.contracts[tgt + '::operator()'] = [(None, lambda X, this, vals, f: U_s(colform(X.mget(vals[0]))))]

            def setup(X, central=central):
                n, eps = z3.Int('n'), z3.Const('eps', R)
                X.assume(z3.And(n > 0, eps > 0))
                return None, [LV('H:' + tgt, (z3.Int('fobj'),), tgt), vec_arg(X, 'x', n), X.temp('double', eps),
                              X.temp('bool', z3.BoolVal(central))]

            def post(c, fn=fn, central=central):
                n, eps, x = z3.Int('n'), z3.Const('eps', R), z3.Const('x', Mat)
                F = lambda v: M.const11(U_s(v))
                grad = lambda v: M.T(fdjac(F, v, eps, central, z3.IntVal(1)))
                want = grad(x) if fn.endswith('Gradient') else fdjac(grad, x, eps, central, n)
                c.eq('the stated quotient with the stated step', c.X.mget(c.ret), want)
            verify(job, X, fs[0], setup, post, f'{fn} {"central" if central else "forward"}')


def sval_any(X, v):
    return X.load(v) if isinstance(v, (LV, ElemLV)) else v


def run(job):
    adapters(job)
    fd_core(job)
    fd_scalar(job)
    checkers(job)


if __name__ == '__main__':
    from ._main import main
    main('P17', run)
