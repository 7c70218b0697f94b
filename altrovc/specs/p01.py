"""P01: each backward step is the exact regularised LQR step (KnotPointFunctions, CostExpansion, DynamicsExpansion)."""
from .common import *


def cls_of(sz):
    return f'altro::ilqr::KnotPointFunctions<{sz}>'


def kpf_inv(prog, cls):
    return ClassInv(prog, cls, lambda g: len(g['params']) == 3,
                    lambda X, n, m: [X.temp('int', n), X.temp('int', m), X.temp(
                        'std::shared_ptr<altro::problem::CostFunction>', z3.Int('inv_cost'))])


class KPF:
    """spec-side view of a KnotPointFunctions object through its public accessors"""

    def __init__(self, X, this, cls):
        self.X, self.this, self.cls = X, this, cls

    def acc(self, name, this=None, cls=None, const=False):
        X = self.X
        cls = cls or self.cls
        f = X.prog.fn(f'{cls}::{name}', pred=lambda g: bool(g.get('const')) == const)
        return X.call_body(f, this or self.this, [])

    def exp(self, which):
        lv = self.acc(which)
        c = self.cls.replace('KnotPointFunctions', 'CostExpansion')
        return {k: self.X.mget(self.acc(k, lv, c)) for k in ('dxdx', 'dxdu', 'dudu', 'dx', 'du')}

    def explv(self, which):
        lv = self.acc(which)
        c = self.cls.replace('KnotPointFunctions', 'CostExpansion')
        return {k: self.acc(k, lv, c) for k in ('dxdx', 'dxdu', 'dudu', 'dx', 'du')}

    def AB(self):
        lv = self.acc('GetDynamicsExpansion')
        c = self.cls.replace('KnotPointFunctions', 'DynamicsExpansion')
        return self.X.mget(self.acc('GetA', lv, c)), self.X.mget(self.acc('GetB', lv, c))

    def lv(self, name):
        return self.acc(name)

    def mat(self, name):
        return self.X.mget(self.acc(name))


def lqr_q(L, A, Bm, S, s):
    """the action-value expansion of the LQR step"""
    AT, BT = M.T(A), M.T(Bm)
    return {'dxdx': M.add(L['dxdx'], M.mul(AT, M.mul(S, A))),
            'dxdu': M.add(L['dxdu'], M.mul(AT, M.mul(S, Bm))),
            'dudu': M.add(L['dudu'], M.mul(BT, M.mul(S, Bm))),
            'dx': M.add(L['dx'], M.mul(AT, s)),
            'du': M.add(L['du'], M.mul(BT, s))}


def lqr_value(Q, K, d):
    """cost-to-go of the quadratic Q under u = K x + d"""
    KT = M.T(K)
    S = M.add(M.add(Q['dxdx'], M.mul(KT, M.mul(Q['dudu'], K))), M.add(M.mul(KT, M.T(Q['dxdu'])), M.mul(Q['dxdu'], K)))
    s = M.add(M.add(Q['dx'], M.mul(KT, M.mul(Q['dudu'], d))), M.add(M.mul(KT, Q['du']), M.mul(Q['dxdu'], d)))
    d1 = M.dot(d, Q['du'])
    d2 = M.dot(d, M.mul(Q['dudu'], d)) / 2
    return S, s, d1, d2


def setup(job, sz):
    cls = cls_of(sz)
    X = new_interp(job.prog)
    inv = kpf_inv(job.prog, cls)
    known_dims(X)
    kn, km = inv.register(X, 'H:' + cls, True)

    def mk():
        this = obj(X, cls, 'kpf')
        n, m = X.base_read(Base(kn, 'int'), this.idx), X.base_read(Base(km, 'int'), this.idx)
        X.assume(z3.And(n > 0, m > 0))
        if sz != '-1, -1':
            a, b = [int(v) for v in sz.split(',')]
            X.assume(z3.And(n == a, m == b))
            n, m = z3.IntVal(a), z3.IntVal(b)
        return this, n, m
    return X, cls, mk


def deltas(X, k):
    """expected change at step length a, read through GetCostToGoDelta"""
    f = X.prog.fn(k.cls + '::GetCostToGoDelta')
    a = z3.Const('alpha_', R)
    return X.call_body(f, k.this, [X.temp('double', a)]), a


def run(job, sizes=('-1, -1', '4, 2')):
    for sz in sizes:
        X, cls, mk = setup(job, sz)
        prog = job.prog
        tag = '<%s>' % sz

        # --- CalcActionValueExpansion
        def s1(X):
            this, n, m = mk()
            return this, [mat_arg(X, 'S', n, n), mat_arg(X, 's', n, 1)]

        def p1(c):
            k = KPF(c.X, c.this, cls)
            Sm, sv = c.X.mget(c.vals[0]), c.X.mget(c.vals[1])
            A, Bm = c.old(k.AB)
            L = c.old(lambda: k.exp('GetCostExpansion'))
            W = lqr_q(L, A, Bm, Sm, sv)
            got = k.exp('GetActionValueExpansion')
            for key in W:
                c.eq('action-value ' + key, got[key], W[key])
            c.frame(allow=list(k.explv('GetActionValueExpansion').values()))
        verify(job, X, prog.fn(cls + '::CalcActionValueExpansion'), s1, p1, 'CalcActionValueExpansion' + tag)

        # --- RegularizeActionValue
        def s2(X):
            this, n, m = mk()
            return this, [real_arg(X, 'rho'), X.temp('int', z3.IntVal(0))]

        def p2(c):
            k = KPF(c.X, c.this, cls)
            Q = c.old(lambda: k.exp('GetActionValueExpansion'))
            got = k.exp('GetActionValueExpansionRegularized')
            r, cc = M.dims(Q['dudu'])
            W = dict(Q)
            W['dudu'] = M.add(Q['dudu'], M.scale(z3.Const('rho', R), M.ident(r, r)))
            for key in W:
                c.eq('regularised ' + key, got[key], W[key])
            lv = k.acc('GetActionValueExpansionRegularized')
            c.frame(allow=[lv])
        verify(job, X, prog.fn(cls + '::RegularizeActionValue'), s2, p2, 'RegularizeActionValue' + tag)

        # --- CalcGains
        def s3(X):
            this, n, m = mk()
            return this, []

        def p3(c):
            k = KPF(c.X, c.this, cls)
            Q = c.old(lambda: k.exp('GetActionValueExpansionRegularized'))
            ok = c.ret == 0
            from ..builtins import F_posdef
            c.holds('reports success exactly when the factorisation succeeds', ok == F_posdef(Q['dudu']))
            if c.X.choose(ok):
                Kg, d = k.mat('GetFeedbackGain'), k.mat('GetFeedforwardGain')
                # inv(Quu) is the operator the factorisation solves with: Quu * inv(Quu) = I
                c.eq('Quu_reg K = -Qux', M.mul(Q['dudu'], Kg), M.neg(M.T(Q['dxdu'])))
                c.eq('Quu_reg d = -Qu', M.mul(Q['dudu'], d), M.neg(Q['du']))
                c.frame(allow=[k.lv('GetFeedbackGain'), k.lv('GetFeedforwardGain')])
            else:
                c.frame()
        verify(job, X, prog.fn(cls + '::CalcGains'), s3, p3, 'CalcGains' + tag)

        # --- CalcCostToGo
        def p4(c):
            k = KPF(c.X, c.this, cls)
            Q = c.old(lambda: k.exp('GetActionValueExpansion'))
            Kg, d = c.old(lambda: k.mat('GetFeedbackGain')), c.old(lambda: k.mat('GetFeedforwardGain'))
            S, s, d1, d2 = lqr_value(Q, Kg, d)
            c.eq('cost-to-go Hessian', k.mat('GetCostToGoHessian'), S)
            c.eq('cost-to-go gradient', k.mat('GetCostToGoGradient'), s)
            got, a = deltas(c.X, k)
            c.eq('expected change a*d1 + a^2*d2', got, a * d1 + a * a * d2)
            dl = [lv for lv in delta_lvs(c.X, k)]
            c.frame(allow=[k.lv('GetCostToGoHessian'), k.lv('GetCostToGoGradient')] + dl)
        verify(job, X, prog.fn(cls + '::CalcCostToGo'), s3, p4, 'CalcCostToGo' + tag)

        # --- AddCostToGo(array*)
        def s5(X):
            this, n, m = mk()
            arr = X.local('dv', 'std::array<double, 2>')
            for i in range(2):
                X.store(arr.sub('[]', 'double', i), z3.Const(f'dv{i}', R))
            return this, [X.temp('std::array<double, 2> *', PtrVal(arr))]

        def p5(c):
            k = KPF(c.X, c.this, cls)
            got, a = c.old(lambda: deltas(c.X, k))
            arr = c.X.load(c.vals[0]).lv
            n0, n1 = [c.X.load(arr.sub('[]', 'double', i)) for i in range(2)]
            c.eq('adds both expected-change terms', a * (n0 - z3.Const('dv0', R)) + a * a * (n1 - z3.Const('dv1', R)), got)
            # the two terms separately: polynomial identity in the step length
            for v in (0, 1, 2, -1):
                sub = lambda t: z3.substitute(t, (a, z3.RealVal(v)))
                c.eq(f'term split at a={v}', sub(a * (n0 - z3.Const('dv0', R)) + a * a * (n1 - z3.Const('dv1', R))), sub(got))
            c.frame()
        verify(job, X, prog.fn(cls + '::AddCostToGo', pred=lambda g: 'array' in g['params'][0]['t']), s5, p5,
               'AddCostToGo' + tag)

        # --- AddCostToGo(double*)
        ptr = [g for g in prog.by_q.get(cls + '::AddCostToGo', []) if strip(g['params'][0]['t']).startswith('double')]
        pk = 'A:double'

        def s5p(X):
            this, n, m = mk()
            ref = z3.Int('dvp')
            X.assume(ref > 0)
            for i in range(2):
                X.store(LV(pk, (ref, z3.IntVal(i)), 'double'), z3.Const(f'dv{i}', R))
            return this, [X.temp('double *', ref)]

        def p5p(c):
            k = KPF(c.X, c.this, cls)
            got, a = c.old(lambda: deltas(c.X, k))
            d = [c.X.load(LV(pk, (z3.Int('dvp'), z3.IntVal(i)), 'double')) - z3.Const(f'dv{i}', R) for i in range(2)]
            for v in (0, 1, 2, -1):
                sub = lambda t: z3.substitute(t, (a, z3.RealVal(v)))
                c.eq(f'adds both terms, at step {v}', sub(a * d[0] + a * a * d[1]), sub(got))
            c.frame(ignore=(pk,))
        if ptr:
            verify(job, X, ptr[0], s5p, p5p, 'AddCostToGo(double*)' + tag)

        # --- CalcTerminalCostToGo
        def p6(c):
            k = KPF(c.X, c.this, cls)
            L = c.old(lambda: k.exp('GetCostExpansion'))
            c.eq('terminal Hessian', k.mat('GetCostToGoHessian'), L['dxdx'])
            c.eq('terminal gradient', k.mat('GetCostToGoGradient'), L['dx'])
            c.frame(allow=[k.lv('GetCostToGoHessian'), k.lv('GetCostToGoGradient')])
        verify(job, X, prog.fn(cls + '::CalcTerminalCostToGo'), s3, p6, 'CalcTerminalCostToGo' + tag)

        # --- GetCostToGoDelta is quadratic without constant term
        def s7(X):
            this, n, m = mk()
            return this, [real_arg(X, 'a')]

        def p7(c):
            k = KPF(c.X, c.this, cls)
            f = c.X.prog.fn(cls + '::GetCostToGoDelta')
            at = lambda v: c.X.call_body(f, c.this, [c.X.temp('double', z3.RealVal(v))])
            a = z3.Const('a', R)
            v1, vm = at(1), at(-1)
            d1, d2 = (v1 - vm) / 2, (v1 + vm) / 2
            c.eq('a*d1 + a^2*d2', c.ret, a * d1 + a * a * d2)
            c.frame()
        verify(job, X, prog.fn(cls + '::GetCostToGoDelta'), s7, p7, 'GetCostToGoDelta' + tag)

        # --- constructor: everything starts at zero with the declared sizes
        def s8(X):
            ref = z3.Int('newkpf')
            X.assume(ref > 0)
            X.dyn[ref.get_id()] = (ref, cls)
            n, m = z3.Ints('cn cm')
            X.assume(z3.And(n > 0, m > 0))
            if sz != '-1, -1':
                a, b = [int(v) for v in sz.split(',')]
                X.assume(z3.And(n == a, m == b))
            cf = z3.Int('costptr')
            X.assume(cf > 0)
            return LV('H:' + cls, (ref,), cls), [X.temp('int', n), X.temp('int', m), X.temp(
                'std::shared_ptr<altro::problem::CostFunction>', cf)]

        def p8(c):
            k = KPF(c.X, c.this, cls)
            for nm in ('GetFeedbackGain', 'GetFeedforwardGain', 'GetCostToGoHessian', 'GetCostToGoGradient'):
                t = k.mat(nm)
                c.eq('zero ' + nm, t, M.zero(*M.dims(t)))
            got, a = deltas(c.X, k)
            c.eq('zero expected change', got, z3.RealVal(0))
            for w in ('GetCostExpansion', 'GetActionValueExpansion'):
                for kk, t in k.exp(w).items():
                    c.eq(f'zero {w}.{kk}', t, M.zero(*M.dims(t)))
        f8 = [g for g in prog.by_cls[cls] if g['kind'] == 'CXXConstructor' and len(g['params']) == 3 and g.get('body')][0]
        verify(job, X, f8, s8, p8, 'KnotPointFunctions()' + tag)


def delta_lvs(X, k):
    """the storage of the expected-change terms: the only array member of doubles"""
    out = []
    for f in X.prog.recs[k.cls]['fields']:
        if strip(f['t']).startswith('std::array<double'):
            out.append(X.field(k.this, f['n'], f['t'], k.cls))
    return out


if __name__ == '__main__':
    import sys
    from ..vc import report
    job = Job('P01', Program(sys.argv[1] if len(sys.argv) > 1 else '/tmp/ast.json'))
    run(job)
    report(job)
