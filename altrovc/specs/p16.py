"""P16: expansions and costs are evaluated at the current trajectory, starting from cleared storage."""
from .ilqrlib import *
from .ilqrlib import ASSUME as _A
from .p01 import setup as kpf_setup
from .p05 import anyk, unf
from .p15 import kp, kp_inv, call, observe, fresh_obj, ctor, same, dims_of

ASSUME = _A + ["a user object's Gradient/Hessian/Jacobian writes a value that depends only on the object, its arguments and the "
               'previous content of the output (which the library clears first)']


def run(job):
    for sz in SIZES:
        point(job, sz)
        objects(job, sz)
    for sz in sizes(job):
        block(job, sz)
        costs(job, sz)


def want_cost(c, x, u, Zb=ZEROBUF):
    return {'dx': U_gradx(c, x, u, Zb), 'du': U_gradu(c, x, u, Zb), 'dxdx': U_hxx(c, x, u, Zb), 'dxdu': U_hxu(c, x, u, Zb),
            'dudu': U_huu(c, x, u, Zb)}


def point(job, sz):
    """one knot point's expansions"""
    X, cls, mk = kpf_setup(job, sz)
    prog = job.prog
    for f in fields(prog, cls, lambda f: 'shared_ptr' in f['t']):
        X.nonnull['H:' + cls + '.' + f['n']] = lambda idx: 'CostFunction' in f['t']

    def ptr(c, what):
        fs = fields(prog, cls, lambda f: what in f['t'] and 'shared_ptr' in f['t'])
        return X.load(X.fieldof(c.this, fs[0]['n']))

    def setup(X):
        this, n, m = mk()
        for f in fields(prog, cls, lambda f: 'CostFunction' in f['t'] and 'shared_ptr' in f['t']):
            X.assume(X.load(X.fieldof(this, f['n'])) > 0)
        return this, [vec_arg(X, 'x', n), vec_arg(X, 'u', m)]

    def post(c):
        k = KPF(X, c.this, cls)
        x, u = X.mget(c.vals[0]), X.mget(c.vals[1])
        got = k.exp('GetCostExpansion')
        for nm, w in want_cost(ptr(c, 'CostFunction'), x, u).items():
            c.eq(f'cost expansion {nm} from cleared storage', got[nm], w)
        c.frame(allow=list(k.explv('GetCostExpansion').values()))
    verify(job, X, prog.fn(cls + '::CalcCostExpansion'), setup, post, f'CalcCostExpansion<{sz}>')

    def setup2(X):
        this, a = setup(X)
        return this, a + [real_arg(X, 't'), real_arg(X, 'h')]

    def post2(c):
        k = KPF(X, c.this, cls)
        x, u = X.mget(c.vals[0]), X.mget(c.vals[1])
        t, h = z3.Reals('t h')
        mp = ptr(c, 'DiscreteDynamics')
        J = jac_of(X, cls, c.this)
        if X.choose(mp == 0):
            c.eq('no model: Jacobian kept', X.mget(J), c.old(lambda: X.mget(J)))
        else:
            c.eq('dynamics Jacobian from cleared storage', X.mget(J), U_djac(mp, x, u, t, h, ZEROBUF))
        c.frame(allow=[J])
    verify(job, X, prog.fn(cls + '::CalcDynamicsExpansion'), setup2, post2, f'CalcDynamicsExpansion<{sz}>')


BLOCKS = ('dxdx', 'dxdu', 'dudu', 'dx', 'du')


def objects(job, sz):
    """the expansion objects themselves: cleared when made, reproduced by copies and moves, filled from the object given"""
    prog = job.prog
    tag = f'<{sz}>'
    ccls, dcls, kcls = f'altro::ilqr::CostExpansion<{sz}>', f'altro::ilqr::DynamicsExpansion<{sz}>', kp(sz)
    X = new_interp(prog)
    known_dims(X)
    for cls in (ccls, dcls):
        ClassInv(prog, cls, lambda g: len(g['params']) == 2, lambda X, n, m: [X.temp('int', n), X.temp('int', m)]).register(X, 'H:' + cls, True)
    kp_inv(prog, sz).register(X, 'H:' + kcls, True)

    def sized(X, cls, nm):
        this = obj(X, cls, nm)
        n, m = call(X, cls, 'StateDimension', this), call(X, cls, 'ControlDimension', this)
        X.assume(z3.And(n > 0, m > 0))
        if sz != '-1, -1':
            a, b = dims_of(X, sz)
            X.assume(z3.And(n == a, m == b))
        return this

    def look(cls, this, const=True):
        d = {'n': call(X, cls, 'StateDimension', this), 'm': call(X, cls, 'ControlDimension', this)}
        for b in BLOCKS if cls == ccls else ('GetA', 'GetB'):
            d[b] = X.mget(call(X, cls, b, this, const=const if cls == ccls else None))
        return d

    for cls in (ccls, dcls):
        nm = cls[13:].split('<')[0] + tag
        acc = BLOCKS if cls == ccls else ('GetA', 'GetB')

        def s1(X):
            n, m = dims_of(X, sz)
            return fresh_obj(X, cls, 'expn'), [X.temp('int', n), X.temp('int', m)]

        def p1(c):
            n, m = dims_of(X, sz)
            got = look(cls, c.this)
            shape = {'dxdx': (n, n), 'dxdu': (n, m), 'dudu': (m, m), 'dx': (n, 1), 'du': (m, 1), 'GetA': (n, n), 'GetB': (n, m)}
            c.eq('dimensions: n', got['n'], n)
            c.eq('dimensions: m', got['m'], m)
            for b in acc:
                r, k = shape[b]
                c.eq(b + ' starts at zero', got[b], M.zero(r, k if z3.is_expr(k) else z3.IntVal(k)))
        verify(job, X, ctor(prog, cls, lambda g: len(g['params']) == 2), s1, p1, nm + '(n,m)')

        def p2(c):
            got, old = look(cls, c.this), c.old(lambda: look(cls, c.this))
            for b in acc:
                c.eq('cleared: ' + b, got[b], M.zero(*M.dims(old[b])))
        verify(job, X, prog.fn(cls + '::SetZero'), lambda X: (sized(X, cls, 'expo'), []), p2, nm + '::SetZero')

        def pc(c, keep):
            src = c.old(lambda: look(cls, c.vals[0]))
            same(c, look(cls, c.this), src)
            if keep:
                same(c, look(cls, c.vals[0]), src, 'source unchanged: ')

        def s3(X):
            return fresh_obj(X, cls, 'expn'), [sized(X, cls, 'src')]

        def s4(X):
            a, b = sized(X, cls, 'dst'), sized(X, cls, 'src')
            X.assume(a.idx[0] != b.idx[0])
            return a, [b]
        for f in prog.by_cls.get(cls, []):
            if f.get('body') is None or f.get('defaulted') or f.get('deleted'):
                continue        # those the compiler writes are memberwise
            if f['kind'] == 'CXXConstructor' and (f.get('copy') or f.get('move')):
                verify(job, X, f, s3, lambda c: pc(c, bool(f.get('copy'))), f'{nm} {"copy" if f.get("copy") else "move"}')
            elif f.get('copyassign') or f.get('moveassign'):
                verify(job, X, f, s4, lambda c: pc(c, bool(f.get('copyassign'))), f'{nm} {"copy" if f.get("copyassign") else "move"} assignment')

    for f in prog.by_q.get(ccls + '::CalcExpansion', []) + prog.by_q.get(dcls + '::CalcExpansion', []):
        if f.get('body') is None or 'Continuous' in f['params'][0]['t']:
            continue
        cls = ccls if 'CostFunction' in f['params'][0]['t'] else dcls
        direct = len(f['params']) > 2

        def s5(X):
            this = sized(X, cls, 'expo')
            call(X, cls, 'SetZero', this)
            n, m = call(X, cls, 'StateDimension', this), call(X, cls, 'ControlDimension', this)
            p = z3.Int('userobj')
            X.assume(p > 0)
            vals = [X.temp(strip(f['params'][0]['t']), p)]
            if direct:
                vals += [vec_arg(X, 'x', n), vec_arg(X, 'u', m)] + ([real_arg(X, 't'), real_arg(X, 'h')] if cls == dcls else [])
            else:
                z = sized(X, kcls, 'kpt')
                X.assume(z3.And(call(X, kcls, 'StateDimension', z) == n, call(X, kcls, 'ControlDimension', z) == m))
                vals.append(z)
            return this, vals

        def p5(c):
            if direct:
                x, u = X.mget(c.vals[1]), X.mget(c.vals[2])
                t, h = z3.Reals('t h')
            else:
                z = c.old(lambda: observe(X, kcls, c.vals[1]))
                x, u, t, h = z['state'], z['control'], z['time'], z['step']
            p = z3.Int('userobj')
            if cls == ccls:
                got = look(cls, c.this)
                for b, w in want_cost(p, x, u).items():
                    c.eq('the given cost function at the given point: ' + b, got[b], w)
            else:
                J = X.mget(call(X, cls, 'GetJacobian', c.this))
                c.eq('the Jacobian of the given model at the given point, time and step', J, U_djac(p, x, u, t, h, ZEROBUF))
        verify(job, X, f, s5, p5, f'{cls[13:]}::CalcExpansion({"values" if direct else "knot point"})')


def jac_of(X, cls, this):
    k = KPF(X, this, cls)
    de = k.acc('GetDynamicsExpansion')
    return k.acc('GetJacobian', de, cls.replace('KnotPointFunctions', 'DynamicsExpansion'))


def kpf_state(S, k):
    """all evaluation results stored at knot point k"""
    X = S.X
    v = S.kpf(k)
    d = {'cost expansion ' + a: b for a, b in v.exp('GetCostExpansion').items()}
    d['dynamics Jacobian'] = X.mget(jac_of(X, S.kcls, v.this))
    d['knot point cost'] = M.elem(S.costs(), k, z3.IntVal(0))
    return d


def kpf_want(S, k, p):
    d = {'cost expansion ' + a: b for a, b in want_cost(S.costfun(k), p['state'], p['control']).items()}
    d['dynamics Jacobian'] = U_djac(S.model(k), p['state'], p['control'], p['time'], p['step'], ZEROBUF)
    d['knot point cost'] = S.cost(k, p['state'], p['control'])
    return d


def block(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)

    def setup(X):
        this = S.make()
        a, b = z3.Ints('start stop')
        X.assume(z3.And(a >= 0, a <= b, b <= S.N + 1))
        return this, [X.temp('int', a), X.temp('int', b)]

    def post(c):
        a, b = z3.Ints('start stop')
        k = anyk(X, S.N, True)
        p = S.point(S.Z(), k)
        inside = X.choose(z3.And(k >= a, k < b))
        got = kpf_state(S, k)
        want = kpf_want(S, k, p) if inside else c.old(lambda: kpf_state(S, k))
        for nm in want:
            c.eq(('evaluated at the current point of that knot point: ' if inside else 'outside the block untouched: ') + nm,
                 unf(X, got[nm]), want[nm])
        now, old = S.point(S.Z(), k), c.old(lambda: S.point(S.Z(), k))
        for q in ('state', 'control', 'time', 'step'):
            c.eq('trajectory untouched: ' + q, now[q], old[q])
    verify(job, X, prog.fn(cls + '::UpdateExpansionsBlock'), setup, post, f'UpdateExpansionsBlock<{sz}>')


def costs(job, sz):
    prog, cls = job.prog, ilqr(sz)

    def total(c, S, Z):
        X = S.X
        c.sum_is('total cost is the sum over all knot points of the given trajectory', c.ret, z3.simplify(S.N + 1),
                 lambda k: S.cost(k, S.point(Z, k)['state'], S.point(Z, k)['control']))
        k = anyk(X, S.N, True)
        p = S.point(Z, k)
        c.eq('stored knot point cost', M.elem(S.costs(), k, z3.IntVal(0)), S.cost(k, p['state'], p['control']))
    for f in prog.by_q.get(cls + '::Cost', []):
        if f.get('body') is None:
            continue
        X, S = solver(job, sz)

        def setup(X):
            this = S.make()
            return this, [S.Zbar()] if f['params'] else []

        def post(c):
            total(c, S, S.Zbar() if f['params'] else S.Z())
            c.frame(allow=[LV(S._key('GetCosts'), c.this.idx, 'Eigen::Matrix<double, -1, 1, 0, -1, 1>')], ignore=IGN)
        verify(job, X, f, setup, post, f'Cost({"trajectory" if f["params"] else ""})<{sz}>')


IGN = ('GetTimer',)


if __name__ == '__main__':
    from ._main import main
    main('P16', run)
