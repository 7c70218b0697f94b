"""P15: trajectories keep consistent times, sizes and contents."""
from .common import *

ASSUME = ['knot points satisfy their class invariant (vector sizes match the stored dimensions)',
          'a trajectory built from lists has at least one control (N >= 1)',
          'a horizon N >= 0 is requested; times and steps are compared as real numbers']


def kp(sz):
    return f'altro::KnotPoint<{sz}, double>'


def tr(sz):
    return f'altro::Trajectory<{sz}, double>'


def call(X, cls, name, this, *args, const=None, nparams=None):
    """spec-side call of a public accessor"""
    f = None
    for c in X.prog.bases(cls):
        cand = [g for g in X.prog.by_q.get(f'{c}::{name}', []) if g.get('body') is not None and len(g['params']) == len(args)
                and (const is None or bool(g.get('const')) == const)]
        if cand:
            f = cand[0]
            break
    if f is None:
        raise Unsupported(f'{cls}::{name}')
    vals = [a if isinstance(a, (LV, View)) else X.temp('int' if z3.is_int(a) else 'double', a) for a in args]
    return X.call_body(f, this, vals)


def observe(X, cls, lv):
    """the observable content of a knot point"""
    return {'state': X.mget(call(X, cls, 'State', lv)), 'control': X.mget(call(X, cls, 'Control', lv)),
            'time': call(X, cls, 'GetTime', lv), 'step': call(X, cls, 'GetStep', lv),
            'n': call(X, cls, 'StateDimension', lv), 'm': call(X, cls, 'ControlDimension', lv)}


def kp_inv(prog, sz):
    return ClassInv(prog, kp(sz), lambda g: len(g['params']) == 2 and g['params'][0]['t'] == 'int',
                    lambda X, n, m: [X.temp('int', n), X.temp('int', m)])


def fresh_obj(X, cls, name):
    ref = z3.Int(name)
    X.assume(z3.And(ref > 0, F_kind(ref) == 10 ** 9))      # a new object: distinct from every existing one
    X.dyn[ref.get_id()] = (ref, cls)
    return LV('H:' + cls, (ref,), cls)


def ctor(prog, cls, pred):
    c = [g for g in prog.by_cls.get(cls, []) if g['kind'] == 'CXXConstructor' and pred(g)]
    if len(c) != 1:
        raise Unsupported(f'constructor of {cls} ({len(c)} candidates)')
    return c[0]


def same(c, got, want, what=''):
    for k in want:
        c.eq(f'{what}{k}', got[k], want[k])


def run(job):
    for sz in ('-1, -1', '4, 2'):
        knot(job, sz)
        traj(job, sz)


def dims_of(X, sz, pre=''):
    if sz == '-1, -1':
        n, m = z3.Int(pre + 'n'), z3.Int(pre + 'm')
        X.assume(z3.And(n > 0, m > 0))
        return n, m
    a, b = [int(v) for v in sz.split(',')]
    return z3.IntVal(a), z3.IntVal(b)


def knot(job, sz):
    prog = job.prog
    cls = kp(sz)
    tag = '<%s>' % sz
    X = new_interp(prog)
    kp_inv(prog, sz).register(X, 'H:' + cls, True)
    vx = lambda n, nm='x': vec_arg(X, nm, n)

    def s1(X):
        n, m = dims_of(X, sz)
        return fresh_obj(X, cls, 'kpn'), [vec_arg(X, 'x', n), vec_arg(X, 'u', m), real_arg(X, 't'), real_arg(X, 'h')]

    def p1(c):
        n, m = dims_of(c.X, sz)
        same(c, observe(c.X, cls, c.this), {'state': c.X.mget(c.vals[0]), 'control': c.X.mget(c.vals[1]), 'time': z3.Const('t', R),
                                            'step': z3.Const('h', R), 'n': n, 'm': m})
    verify(job, X, ctor(prog, cls, lambda g: len(g['params']) == 4), s1, p1, f'KnotPoint{tag}(x,u,t,h)')

    # time and step are zero when they are not given
    def p1d(c):
        n, m = dims_of(c.X, sz)
        same(c, observe(c.X, cls, c.this), {'state': c.X.mget(c.vals[0]), 'control': c.X.mget(c.vals[1]), 'time': z3.RealVal(0),
                                            'step': z3.RealVal(0), 'n': n, 'm': m})
    verify(job, X, ctor(prog, cls, lambda g: len(g['params']) == 4), lambda X: (lambda r: (r[0], r[1][:2]))(s1(X)), p1d, f'KnotPoint{tag}(x,u)')

    def s2(X):
        n, m = dims_of(X, sz)
        return fresh_obj(X, cls, 'kpn'), [X.temp('int', n), X.temp('int', m)]

    def p2(c):
        n, m = dims_of(c.X, sz)
        same(c, observe(c.X, cls, c.this), {'state': M.zero(n, z3.IntVal(1)), 'control': M.zero(m, z3.IntVal(1)),
                                            'time': z3.RealVal(0), 'step': z3.RealVal(0), 'n': n, 'm': m})
    verify(job, X, ctor(prog, cls, lambda g: len(g['params']) == 2 and g['params'][0]['t'] == 'int'), s2, p2, f'KnotPoint{tag}(n,m)')

    def kobj(X, nm):
        this = obj(X, cls, nm)
        n, m = call(X, cls, 'StateDimension', this), call(X, cls, 'ControlDimension', this)
        X.assume(z3.And(n > 0, m > 0))
        if sz != '-1, -1':
            a, b = dims_of(X, sz)
            X.assume(z3.And(n == a, m == b))
        return this

    def s3(X):
        return fresh_obj(X, cls, 'kpn'), [kobj(X, 'src')]

    def s4(X):
        a, b = kobj(X, 'dst'), kobj(X, 'src')
        X.assume(a.idx[0] != b.idx[0])
        return a, [b]

    def p3(c):
        src = c.old(lambda: observe(c.X, cls, c.vals[0]))
        same(c, observe(c.X, cls, c.this), src)

    def p3c(c):
        p3(c)
        src = c.old(lambda: observe(c.X, cls, c.vals[0]))
        same(c, observe(c.X, cls, c.vals[0]), src, 'source unchanged: ')
    verify(job, X, ctor(prog, cls, lambda g: g.get('copy')), s3, p3c, f'KnotPoint{tag} copy')
    verify(job, X, ctor(prog, cls, lambda g: g.get('move')), s3, p3, f'KnotPoint{tag} move')
    ops = [g for g in prog.by_q.get(cls + '::operator=', []) if g.get('body') is not None or g.get('defaulted')]
    for g in ops:
        mv = '&&' in g['params'][0]['t']
        verify(job, X, g, s4, p3 if mv else p3c, f'KnotPoint{tag} {"move" if mv else "copy"} assignment')

    def s5(X):
        return kobj(X, 'kpo'), []

    def p5(c):
        o = c.old(lambda: observe(c.X, cls, c.this))
        n, m = o['n'], o['m']
        z = c.X.mget(c.ret) if not is_z(c.ret) else c.ret
        r, cc = M.dims(z)
        c.eq('length', r, n + m)
        c.eq('state part', M.block(z, 0, 0, n, 1), o['state'])
        c.eq('control part', M.block(z, n, 0, m, 1), o['control'])
        c.frame()
    verify(job, X, prog.fn(cls + '::GetStateControl'), s5, p5, f'KnotPoint{tag}::GetStateControl')

    def p6(c):
        o = c.old(lambda: observe(c.X, cls, c.this))
        o['control'] = M.zero(o['m'], z3.IntVal(1))
        o['step'] = z3.RealVal(0)
        same(c, observe(c.X, cls, c.this), o)
    verify(job, X, prog.fn(cls + '::SetTerminal'), s5, p6, f'KnotPoint{tag}::SetTerminal')

    def p7(c):
        o = c.old(lambda: observe(c.X, cls, c.this))
        c.holds('true exactly for a zero step', c.ret == (o['step'] == 0))
        c.frame()
    verify(job, X, prog.fn(cls + '::IsTerminal'), s5, p7, f'KnotPoint{tag}::IsTerminal')
    for nm, fld in (('SetTime', 'time'), ('SetStep', 'step')):
        def p8(c, fld=fld):
            o = c.old(lambda: observe(c.X, cls, c.this))
            o[fld] = z3.Const('v', R)
            same(c, observe(c.X, cls, c.this), o)
        verify(job, X, prog.fn(cls + '::' + nm), lambda X: (kobj(X, 'kpo'), [real_arg(X, 'v')]), p8, f'KnotPoint{tag}::{nm}')


def traj_interp(prog, sz):
    """interpreter with the element invariant of Trajectory::traj_"""
    X = new_interp(prog)
    tcls, kcls = tr(sz), kp(sz)
    inv = kp_inv(prog, sz)
    inv.register(X, 'H:' + kcls, True)
    for cls in (tcls,):
        for f in prog.recs[cls]['fields']:
            if strip(f['t']).startswith('std::vector<' + kcls):
                inv.register(X, f'H:{cls}.{f["n"]}[]', False)
    X.kinv = inv
    return X


def nseg(X, tcls, lv):
    return call(X, tcls, 'NumSegments', lv)


def at(X, tcls, lv, k):
    return call(X, tcls, 'GetKnotPoint', lv, k, const=False)


def traj_obj(X, tcls, name):
    this = obj(X, tcls, name)
    N = nseg(X, tcls, this)
    X.assume(N >= 0)
    return this, N


def traj(job, sz):
    prog = job.prog
    tcls, kcls = tr(sz), kp(sz)
    tag = '<%s>' % sz
    X = traj_interp(prog, sz)
    inv = X.kinv
    obs = lambda X, lv, k: observe(X, kcls, at(X, tcls, lv, k))

    def sk(X, N):
        k = X.fresh('k', I)
        X.assume(z3.And(k >= 0, k <= N))
        return k

    # --- dimension constructor
    def s1(X):
        n, m = dims_of(X, sz)
        N = z3.Int('N')
        X.assume(N >= 0)
        return fresh_obj(X, tcls, 'trn'), [X.temp('int', n), X.temp('int', m), X.temp('int', N)]

    def p1(c):
        n, m = dims_of(c.X, sz)
        N = z3.Int('N')
        c.eq('N segments', nseg(c.X, tcls, c.this), N)
        k = sk(c.X, N)
        same(c, obs(c.X, c.this, k), {'state': M.zero(n, z3.IntVal(1)), 'control': M.zero(m, z3.IntVal(1)), 'n': n, 'm': m,
                                      'time': z3.RealVal(0), 'step': z3.RealVal(0)}, 'knot point ')
    verify(job, X, ctor(prog, tcls, lambda g: len(g['params']) == 3 and g['params'][0]['t'] == 'int'), s1, p1, f'Trajectory{tag}(n,m,N)')

    if sz != '-1, -1':
        def s1b(X):
            N = z3.Int('N')
            X.assume(N >= 0)
            return fresh_obj(X, tcls, 'trn'), [X.temp('int', N)]
        verify(job, X, ctor(prog, tcls, lambda g: len(g['params']) == 1 and g['params'][0]['t'] == 'int'), s1b, p1, f'Trajectory{tag}(N)')

    # --- from lists
    f3 = ctor(prog, tcls, lambda g: len(g['params']) == 3 and 'vector' in g['params'][0]['t'])

    def s2(X):
        this = fresh_obj(X, tcls, 'trn')
        out = []
        n, m = dims_of(X, sz)
        for i, p in enumerate(f3['params']):
            lv = LV(f'H:arg{i}', (), strip(p['t']))
            X.baseinfo[f'H:arg{i}[]'] = X.T.elem(p['t'])
            if i < 2:
                X.dimtab[f'H:arg{i}[]'] = (lambda X, idx, d=(n, m)[i]: (d, z3.IntVal(1)))
            out.append(lv)
        sizes = [X.load(lv.sub('.#', 'int')) for lv in out]
        X.assume(sizes[1] >= 1)
        X.assume(sizes[0] >= 0)
        X.assume(sizes[2] >= 0)
        return this, out

    def p2(c):
        X = c.X
        n, m = dims_of(X, sz)
        el = lambda i, k: X.load(LV(f'H:arg{i}[]', (k,), X.T.elem(f3['params'][i]['t'])))
        N = c.old(lambda: X.load(c.vals[1].sub('.#', 'int')))
        c.eq('N segments', nseg(X, tcls, c.this), N)
        k = X.fresh('k', I)
        X.assume(z3.And(k >= 0, k < N))
        same(c, obs(X, c.this, k), {'state': el(0, k), 'control': el(1, k), 'time': el(2, k), 'step': el(2, k + 1) - el(2, k), 'n': n, 'm': m},
             'knot point ')
        same(c, obs(X, c.this, N), {'state': el(0, N), 'control': M.zero(m, z3.IntVal(1)), 'time': el(2, N), 'step': z3.RealVal(0), 'n': n, 'm': m},
             'terminal knot point ')

    def ab2(c, a):
        X = c.X
        sz_ = [X.load(lv.sub('.#', 'int')) for lv in c.vals]
        c.holds('aborts only on inconsistent list lengths', z3.Or(sz_[0] != sz_[1] + 1, sz_[2] != sz_[0]))

    def p2b(c):
        sz_ = c.old(lambda: [c.X.load(lv.sub('.#', 'int')) for lv in c.vals])
        c.holds('inconsistent list lengths are rejected', z3.And(sz_[0] == sz_[1] + 1, sz_[2] == sz_[0]))
        p2(c)
    verify(job, X, f3, s2, p2b, f'Trajectory{tag}(X,U,times)', on_abort=ab2)

    # --- copies
    def eqtraj(c, src):
        X = c.X
        N = c.old(lambda: nseg(X, tcls, src))
        c.eq('same number of segments', nseg(X, tcls, c.this), N)
        k = sk(X, N)
        same(c, obs(X, c.this, k), c.old(lambda: obs(X, src, k)), 'knot point ')

    def s4(X):
        src, N = traj_obj(X, tcls, 'src')
        return fresh_obj(X, tcls, 'trn'), [src]

    def s5(X):
        src, N = traj_obj(X, tcls, 'src')
        dst, N2 = traj_obj(X, tcls, 'dst')
        X.assume(src.idx[0] != dst.idx[0])
        return dst, [src]

    def p4(c):
        eqtraj(c, c.vals[0])

    def p4c(c):
        eqtraj(c, c.vals[0])
        X = c.X
        k = sk(X, c.old(lambda: nseg(X, tcls, c.vals[0])))
        same(c, obs(X, c.vals[0], k), c.old(lambda: obs(X, c.vals[0], k)), 'source unchanged: ')
        c.eq('source length unchanged', nseg(X, tcls, c.vals[0]), c.old(lambda: nseg(X, tcls, c.vals[0])))
    verify(job, X, ctor(prog, tcls, lambda g: g.get('copy')), s4, p4c, f'Trajectory{tag} copy')
    verify(job, X, ctor(prog, tcls, lambda g: g.get('move')), s4, p4, f'Trajectory{tag} move')
    for g in [g for g in prog.by_q.get(tcls + '::operator=', []) if g.get('body') is not None or g.get('defaulted')]:
        mv = '&&' in g['params'][0]['t']
        verify(job, X, g, s5, p4 if mv else p4c, f'Trajectory{tag} {"move" if mv else "copy"} assignment')

    # --- from a list of knot points
    fz = [g for g in prog.by_cls[tcls] if g['kind'] == 'CXXConstructor' and len(g['params']) == 1 and 'vector' in g['params'][0]['t']]
    if fz:
        def s6(X):
            lv = LV('H:argz', (), strip(fz[0]['params'][0]['t']))
            inv.register(X, 'H:argz[]', False)
            X.assume(X.load(lv.sub('.#', 'int')) >= 1)
            return fresh_obj(X, tcls, 'trn'), [lv]

        def p6(c):
            X = c.X
            N = c.old(lambda: X.load(c.vals[0].sub('.#', 'int')))
            c.eq('one knot point per element', nseg(X, tcls, c.this), N - 1)
            k = sk(X, N - 1)
            same(c, obs(X, c.this, k), c.old(lambda: observe(X, kcls, LV('H:argz[]', (k,), kcls))), 'knot point ')
        verify(job, X, fz[0], s6, p6, f'Trajectory{tag}(knot points)')

    # --- mutators
    def st(X):
        return traj_obj(X, tcls, 'tr')[0], []

    def p7(c):
        X = c.X
        N = c.old(lambda: nseg(X, tcls, c.this))
        c.eq('length unchanged', nseg(X, tcls, c.this), N)
        k = sk(X, N)
        o = c.old(lambda: obs(X, c.this, k))
        o['state'], o['control'] = M.zero(o['n'], z3.IntVal(1)), M.zero(o['m'], z3.IntVal(1))
        same(c, obs(X, c.this, k), o, 'knot point ')
    verify(job, X, prog.fn(tcls + '::SetZero'), st, p7, f'Trajectory{tag}::SetZero')

    def p8(c):
        X = c.X
        N = c.old(lambda: nseg(X, tcls, c.this))
        h = z3.Const('h', R)
        c.eq('length unchanged', nseg(X, tcls, c.this), N)
        k = sk(X, N)
        o = c.old(lambda: obs(X, c.this, k))
        o['time'] = z3.ToReal(k) * h
        o['step'] = z3.If(k == N, z3.RealVal(0), h)
        same(c, obs(X, c.this, k), o, 'knot point ')
    verify(job, X, prog.fn(tcls + '::SetUniformStep'), lambda X: (st(X)[0], [real_arg(X, 'h')]), p8, f'Trajectory{tag}::SetUniformStep')

    def p9(c):
        X = c.X
        N = c.old(lambda: nseg(X, tcls, c.this))
        k = X.fresh('k', I)
        X.assume(z3.And(k >= 0, k < N))
        eps = z3.Const('eps', R)
        bad = lambda k: (lambda d: z3.Or(d > eps, -d > eps))(
            obs(X, c.this, k)['step'] - (obs(X, c.this, k + 1)['time'] - obs(X, c.this, k)['time']))
        X.instantiate(k)
        c.holds('true only if every step matches', z3.Implies(c.ret, z3.Not(bad(k))))
        # a false answer comes with a witness step
        if X.choose(z3.Not(c.ret)):
            w = X.exit_index
            kk = z3.Int('kk')
            c.holds('false only if some step mismatches', z3.And(w >= 0, w < N, bad(w)) if w is not None else
                    z3.Exists([kk], z3.And(kk >= 0, kk < N, X.term(lambda: bad(kk)))))
        c.frame()
    verify(job, X, prog.fn(tcls + '::CheckTimeConsistency'),
           lambda X: (st(X)[0], [real_arg(X, 'eps'), X.temp('bool', z3.Const('verbose', B))]), p9, f'Trajectory{tag}::CheckTimeConsistency')

    for nm, fld in (('SetTime', 'time'), ('SetStep', 'step')):
        def s10(X):
            this, N = traj_obj(X, tcls, 'tr')
            k = z3.Int('karg')
            X.assume(z3.And(k >= 0, k <= N))
            return this, [X.temp('int', k), real_arg(X, 'v')]

        def p10(c, fld=fld):
            X = c.X
            N = c.old(lambda: nseg(X, tcls, c.this))
            k = sk(X, N)
            o = c.old(lambda: obs(X, c.this, k))
            o[fld] = z3.If(k == z3.Int('karg'), z3.Const('v', R), o[fld])
            same(c, obs(X, c.this, k), o, 'knot point ')
        verify(job, X, prog.fn(tcls + '::' + nm), s10, p10, f'Trajectory{tag}::{nm}')

    def s11(X):
        this, N = traj_obj(X, tcls, 'tr')
        k = z3.Int('karg')
        X.assume(z3.And(k >= 0, k <= N))
        return this, [X.temp('int', k)]
    for nm, fld in (('GetTime', 'time'), ('GetStep', 'step'), ('StateDimension', 'n'), ('ControlDimension', 'm'),
                    ('State', 'state'), ('Control', 'control')):
        for g in prog.by_q.get(tcls + '::' + nm, []):
            if len(g['params']) != 1:
                continue

            def p11(c, fld=fld):
                o = c.old(lambda: obs(c.X, c.this, z3.Int('karg')))
                r = c.ret if is_z(c.ret) else c.X.mget(c.ret)
                c.eq('reads the knot point', r, o[fld])
                c.frame()
            verify(job, X, g, s11, p11, f'Trajectory{tag}::{nm}')


if __name__ == '__main__':
    from ._main import main
    main('P15', run)
