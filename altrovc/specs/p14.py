"""P14: a problem stores what it was given and reports completeness truthfully."""
from .problib import *

ASSUME = ASSUME_P


def run(job):
    setters(job)
    lists(job)
    counts(job)
    complete(job)
    construct(job)
    copies(job)


def fns(prog, name, pred=lambda g: True):
    return [g for g in prog.by_q.get(f'{PROB}::{name}', []) if g.get('body') is not None and pred(g)]


def one_fn(prog, name, pred=lambda g: True):
    c = fns(prog, name, pred)
    if len(c) != 1:
        raise Unsupported(f'Problem::{name}: {len(c)} candidates')
    return c[0]


def in_range(X, name, hi):
    k = X.fresh(name, I)
    X.assume(z3.And(k >= 0, k <= hi))
    return k


def unchanged(c, P, this, but=(), N=None):
    """every entry of every list, and the initial state, is as before (except the lists named in `but`)"""
    X = c.X
    N = N if N is not None else c.old(lambda: P.N(this))
    c.eq('horizon unchanged', P.N(this), N)
    j = in_range(X, 'j', N)
    if 'cost' not in but:
        c.eq('costs unchanged', P.cost(this, j), c.old(lambda: P.cost(this, j)))
    if 'dyn' not in but:
        c.eq('dynamics unchanged', P.dyn(this, j), c.old(lambda: P.dyn(this, j)))
    for kind in ('eq', 'ineq'):
        if kind not in but:
            n0 = c.old(lambda: P.ncon(this, kind, j))
            c.eq(f'{kind} constraints: number unchanged', P.ncon(this, kind, j), n0)
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < n0))
            c.eq(f'{kind} constraints unchanged', P.con(this, kind, j, i), c.old(lambda: P.con(this, kind, j, i)))
    if 'x0' not in but:
        c.eq('initial state unchanged', P.x0(this), c.old(lambda: P.x0(this)))


def setters(job):
    prog = job.prog
    X = new_interp(prog)
    P = Prob(X)
    k, new = z3.Int('k'), z3.Int('newptr')

    # cost
    def s1(X):
        this = P.make()
        X.assume(new > 0)
        return this, [X.temp(strip(f1['params'][0]['t']), new), X.temp('int', k)]
    f1 = one_fn(prog, 'SetCostFunction', lambda g: 'vector' not in g['params'][0]['t'])

    def p1(c):
        N = c.old(lambda: P.N(c.this))
        c.holds('accepted only for a valid index', z3.And(k >= 0, k <= N))
        c.eq('entry set', P.cost(c.this, k), new)
        j = in_range(c.X, 'j', N)
        c.X.assume(j != k)
        c.eq('other costs unchanged', P.cost(c.this, j), c.old(lambda: P.cost(c.this, j)))
        unchanged(c, P, c.this, ('cost',))

    def r1(c, a):
        N = c.old(lambda: P.N(c.this))
        c.holds('rejected only for an invalid index', z3.Or(k < 0, k > N))
    verify(job, X, f1, s1, p1, 'SetCostFunction(k)', on_abort=r1)

    # dynamics
    f2 = one_fn(prog, 'SetDynamics', lambda g: 'vector' not in g['params'][0]['t'])
    null = z3.Int('modelarg')

    def s2(X):
        this = P.make()
        X.assume(null >= 0)
        X.assume(z3.Implies(null > 0, z3.And(U_sdim(null) > 0, U_cdim(null) > 0)))
        X.assume(F_kind(null) <= 0)
        return this, [X.temp(strip(f2['params'][0]['t']), null), X.temp('int', k)]

    def p2(c):
        X = c.X
        N = c.old(lambda: P.N(c.this))
        c.holds('accepted only for a non-null model at a non-terminal index', z3.And(k >= 0, k < N, null != 0))
        c.eq('entry set', P.dyn(c.this, k), null)
        j = in_range(X, 'j', N)
        X.assume(j != k)
        if X.choose(z3.And(k == N - 1, j == N)):
            t = P.dyn(c.this, N)
            c.holds('terminal entry defined', t != 0)
            for what, u in (('StateDimension', U_sdim), ('ControlDimension', U_cdim)):
                tl = LV('H:altro::problem::IdentityDynamics', (t,), 'altro::problem::IdentityDynamics')
                c.eq(f'terminal entry has the {what} of the last model', call(X, tl.typ, what, tl), u(null))
        else:
            c.eq('other dynamics unchanged', P.dyn(c.this, j), c.old(lambda: P.dyn(c.this, j)))
        unchanged(c, P, c.this, ('dyn',))

    def r2(c, a):
        N = c.old(lambda: P.N(c.this))
        c.holds('rejected only for a null model or an invalid index', z3.Or(k < 0, k >= N, null == 0))
    verify(job, X, f2, s2, p2, 'SetDynamics(k)', on_abort=r2)

    # constraints
    for kind in ('eq', 'ineq'):
        for f3 in fns(prog, 'SetConstraint', lambda g: True):
            t0 = strip(f3['params'][0]['t'])
            cone = CONT[kind][len('altro::constraints::Constraint'):]
            direct = t0 == f'std::shared_ptr<{CONT[kind]}>'
            if not direct and 'VCon' + cone not in t0:
                continue
            oracle = 'SetConstraint<%s>%s' % (kind, '' if direct else ' (derived pointer)')

            def s3(X, t0=t0):
                this = P.make()
                X.assume(z3.And(null >= 0, F_kind(null) <= 0))
                return this, [X.temp(t0, null), X.temp('int', k)]

            def p3(c, kind=kind):
                X = c.X
                N = c.old(lambda: P.N(c.this))
                c.holds('accepted only for a non-null constraint with outputs at a valid index', z3.And(k >= 0, k <= N, null != 0, U_odim(null) > 0))
                n0 = c.old(lambda: P.ncon(c.this, kind, k))
                X.assume(n0 >= 0)
                c.eq('one more constraint', P.ncon(c.this, kind, k), n0 + 1)
                c.eq('appended last', P.con(c.this, kind, k, n0), null)
                i = X.fresh('i', I)
                X.assume(z3.And(i >= 0, i < n0))
                c.eq('earlier constraints kept', P.con(c.this, kind, k, i), c.old(lambda: P.con(c.this, kind, k, i)))
                j = in_range(X, 'j', N)
                X.assume(j != k)
                m0 = c.old(lambda: P.ncon(c.this, kind, j))
                c.eq('other knot points: number', P.ncon(c.this, kind, j), m0)
                X.assume(z3.And(i < m0))
                c.eq('other knot points: constraints', P.con(c.this, kind, j, i), c.old(lambda: P.con(c.this, kind, j, i)))
                unchanged(c, P, c.this, (kind,))

            def r3(c, a):
                N = c.old(lambda: P.N(c.this))
                c.holds('rejected only for an invalid index, a null or an empty constraint', z3.Or(k < 0, k > N, null == 0, U_odim(null) <= 0))
            verify(job, X, f3, s3, p3, oracle, on_abort=r3)

    # initial state
    def s4(X):
        this = P.make()
        n = z3.Int('xn')
        X.assume(n >= 0)
        return this, [vec_arg(X, 'x0', n)]

    def p4(c):
        c.eq('value set', P.x0(c.this), c.X.mget(c.vals[0]))
        unchanged(c, P, c.this, ('x0',))
    verify(job, X, one_fn(prog, 'SetInitialState'), s4, p4, 'SetInitialState')

    # readers reject invalid indices
    for nm, msg in (('GetCostFunction', 'cost'), ('GetDynamics', 'dyn')):
        def p5(c, nm=nm):
            N = P.N(c.this)
            c.holds('answers only for a valid index', z3.And(k >= 0, k <= N))
            if nm == 'GetDynamics':
                c.holds('answers only when defined', c.X.load(c.ret) != 0 if isinstance(c.ret, LV) else c.ret != 0)
            c.frame()
        verify(job, X, one_fn(prog, nm), lambda X: (P.make(), [X.temp('int', k)]), p5, nm, on_abort=lambda c, a: None)


def lists(job):
    """list setters: element i goes to start + i, through the single setter"""
    prog = job.prog
    for nm, which in (('SetCostFunction', 'cost'), ('SetDynamics', 'dyn')):
        X = new_interp(prog)
        P = Prob(X)
        f = one_fn(prog, nm, lambda g: 'vector' in g['params'][0]['t'])
        cnt, start = z3.Int('count'), z3.Int('start')
        single = one_fn(prog, nm, lambda g: 'vector' not in g['params'][0]['t'])
        key = P.vk[which][0]
        LT = strip(f['params'][0]['t'])

        # contract of the single setter (proved above): sets the entry, rejects invalid ones; the terminal dynamics is
        # written only by SetDynamics(N - 1)
        def setter(X, this, vals, g):
            p = X.load(vals[0]) if isinstance(vals[0], LV) else vals[0]
            k = X.load(vals[1]) if isinstance(vals[1], LV) else vals[1]
            N = P.hor(this.idx)
            if not X.nofork and not X.choose(z3.And(k >= 0, k <= N if which == 'cost' else k < N, *([p != 0] if which == 'dyn' else []))):
                raise Abort('rejected entry', X.line)
            if which == 'dyn' and not X.nofork and X.choose(k == N - 1):
                pass
            X.store(LV(key + '[]', this.idx + (k,), 'std::shared_ptr<int>'), p)
            return None
        X.contracts[single['q']] = [(lambda g: 'vector' not in g['params'][0]['t'], setter)]

        def setup(X):
            this = P.make()
            arg = LV('H:given_list', (z3.Int('given_list'),), LT)
            X.store(arg.sub('.#', 'int'), cnt)
            X.assume(z3.And(cnt >= 0, start >= 0, cnt + start <= P.hor(this.idx) + (1 if which == 'cost' else 0)))
            X.nonnull[arg.key + '[]'] = lambda idx: True
            return this, [arg, X.temp('int', start)]

        def post(c, which=which):
            X = c.X
            N = P.hor(c.this.idx)
            k = in_range(X, 'k', N if which == 'cost' else N - 1)
            get = getattr(P, which)
            arg = c.vals[0]
            given = lambda i: X.load(arg.sub('[]', X.T.elem(LT), i))
            inside = z3.And(k >= start, k < start + cnt)
            c.eq('element i at start + i, the rest unchanged', get(c.this, k), z3.If(inside, given(k - start), c.old(lambda: get(c.this, k))))
            unchanged(c, P, c.this, (which,))
        verify(job, X, f, setup, post, nm + '(list)')

        # without a start index the list begins at knot point 0
        X = new_interp(prog)
        P = Prob(X)
        X.contracts[single['q']] = [(lambda g: 'vector' not in g['params'][0]['t'], setter)]
        start = z3.IntVal(0)

        def setup0(X):
            this, vals = setup(X)
            return this, vals[:1]
        verify(job, X, f, setup0, post, nm + '(list), start omitted')


def counts(job):
    prog = job.prog
    X = new_interp(prog)
    P = Prob(X)
    k = z3.Int('k')
    f1 = one_fn(prog, 'NumConstraints', lambda g: len(g['params']) == 1)
    f0 = one_fn(prog, 'NumConstraints', lambda g: len(g['params']) == 0)

    def s1(X):
        this = P.make()
        for kind in ('eq', 'ineq'):
            X.assume(P.ncon(this, kind, k) >= 0)
        return this, [X.temp('int', k)]

    def total(X, this, k):
        from ..loops import F_isum
        i = z3.Int('sk!')
        out = z3.IntVal(0)
        for kind in ('eq', 'ineq'):
            n = P.ncon(this, kind, k)
            out = out + F_isum(z3.IntVal(0), n, z3.Lambda([i], U_odim(P.con(this, kind, k, i))))
        return out

    def p1(c):
        c.holds('valid index', z3.And(k >= 0, k <= P.N(c.this)))
        c.eq('sum of the output dimensions of both kinds', c.ret, total(c.X, c.this, k))
        c.frame()

    def r1(c, a):
        c.holds('rejected only for an invalid index', z3.Or(k < 0, k > P.N(c.this)))
    verify(job, X, f1, s1, p1, 'NumConstraints(k)', on_abort=r1)

    X = new_interp(prog)
    P = Prob(X)
    num = z3.Function('num_constraints_at', I, I)

    def contract(X, this, vals, g):
        kk = X.load(vals[0]) if isinstance(vals[0], LV) else vals[0]
        return num(kk)
    X.contracts[f1['q']] = [(lambda g: len(g['params']) == 1, contract)]

    def p2(c):
        from ..loops import F_isum
        i = z3.Int('sk!')
        c.eq('sum over all knot points', c.ret, F_isum(z3.IntVal(0), P.N(c.this) + 1, z3.Lambda([i], num(i))))
        c.frame()
    verify(job, X, f0, lambda X: (P.make(), []), p2, 'NumConstraints()')


def complete(job):
    prog = job.prog
    X = new_interp(prog)
    P = Prob(X)

    def setup(X):
        this = P.make()
        return this, [X.temp('bool', z3.Bool('verbose'))]

    def want_at(X, this, k, N):
        raw = lambda w: X.load(LV(P.vk[w][0] + '[]', this.idx + (k,), 'std::shared_ptr<int>'))
        return z3.And(raw('cost') != 0, z3.Implies(k < N, raw('dyn') != 0))

    def post(c):
        X, this = c.X, c.this
        N = P.N(this)
        m0 = X.load(LV(P.vk['dyn'][0] + '[]', this.idx + (z3.IntVal(0),), 'std::shared_ptr<int>'))
        n0 = M.rows(P.x0(this))
        first = z3.And(n0 > 0, m0 != 0, U_sdim(m0) == n0)
        k = X.fresh('k', I)
        X.assume(z3.And(k >= 0, k <= N))
        X.instantiate(k)
        c.holds('reported complete only if every knot point is', z3.Implies(c.ret, z3.And(want_at(X, this, k, N), first)))
        q = z3.Int('q!')
        X.nofork += 1
        try:
            allok = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= N), want_at(X, this, q, N)))
        finally:
            X.nofork -= 1
        c.holds('reported incomplete only if some knot point is', z3.Implies(z3.And(allok, first), c.ret))
        c.frame()
    verify(job, X, one_fn(prog, 'IsFullyDefined'), setup, post, 'IsFullyDefined')


def construct(job):
    prog = job.prog
    X = new_interp(prog)
    cls = PROB
    N, xp = z3.Int('N'), z3.Int('x0ptr')
    f = ctor(prog, cls, lambda g: len(g['params']) == 2)
    P = Prob(X, horizon=lambda idx: N)

    def setup(X):
        X.assume(z3.And(N >= 1, xp > 0, F_kind(xp) <= 0))
        return fresh_obj(X, cls, 'newprob'), [X.temp('int', N), X.temp(strip(f['params'][1]['t']), xp)]

    def post(c):
        X, this = c.X, c.this
        c.eq('horizon', P.N(this), N)
        k = in_range(X, 'k', N)
        c.eq('no cost yet', P.cost(this, k), z3.IntVal(0))
        c.eq('no dynamics yet', P.dyn(this, k), z3.IntVal(0))
        for kind in ('eq', 'ineq'):
            c.eq(f'no {kind} constraints yet', P.ncon(this, kind, k), z3.IntVal(0))
        for w, (key, ty) in P.vk.items():
            c.eq(f'{w}: one entry per knot point', X.load(LV(key + '.#', this.idx, 'int')), N + 1)
        c.eq('shares the given initial state', P.val(call(X, cls, 'GetInitialStatePointer', this)), xp)
    verify(job, X, f, setup, post, 'Problem(N, x0)')


def copies(job):
    prog = job.prog
    ops = [(g, 'copy' if g.get('copy') else 'move') for g in prog.by_cls.get(PROB, []) if g['kind'] == 'CXXConstructor' and (g.get('copy') or g.get('move'))]
    ops += [(g, 'move assignment' if '&&' in g['params'][0]['t'] else 'copy assignment')
            for g in prog.by_q.get(PROB + '::operator=', []) if g.get('body') is not None or g.get('defaulted')]
    for g, nm in ops:
        X = new_interp(prog)
        P = Prob(X)

        def setup(X, nm=nm):
            src = P.make('src')
            if 'assignment' in nm:
                this = P.make('dst')
                X.assume(this.idx[0] != src.idx[0])
            else:
                this = fresh_obj(X, PROB, 'newprob')
            return this, [src]

        def post(c, nm=nm):
            X, this, src = c.X, c.this, c.vals[0]
            N = c.old(lambda: P.N(src))
            c.eq('horizon', P.N(this), N)
            j = in_range(X, 'j', N)
            c.eq('costs', P.cost(this, j), c.old(lambda: P.cost(src, j)))
            c.eq('dynamics', P.dyn(this, j), c.old(lambda: P.dyn(src, j)))
            for kind in ('eq', 'ineq'):
                n0 = c.old(lambda: P.ncon(src, kind, j))
                c.eq(f'number of {kind} constraints', P.ncon(this, kind, j), n0)
                i = X.fresh('i', I)
                X.assume(z3.And(i >= 0, i < n0))
                c.eq(f'{kind} constraints', P.con(this, kind, j, i), c.old(lambda: P.con(src, kind, j, i)))
            c.eq('initial state', P.x0(this), c.old(lambda: P.x0(src)))
            if 'copy' in nm:
                c.eq('source horizon unchanged', P.N(src), N)
                c.eq('source costs unchanged', P.cost(src, j), c.old(lambda: P.cost(src, j)))
                c.eq('source dynamics unchanged', P.dyn(src, j), c.old(lambda: P.dyn(src, j)))
        verify(job, X, g, setup, post, f'Problem {nm}')


if __name__ == '__main__':
    from ._main import main
    main('P14', run)
