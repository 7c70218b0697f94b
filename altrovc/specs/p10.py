"""P10: cone projections are Euclidean projections with matching derivatives."""
from .common import *

NS = 'altro::constraints::'
TRUST = ['Eigen::Ref arguments do not overlap each other (as at every call in the code base)']


def run(job):
    prog = job.prog

    def setup_proj(X):
        n = z3.Int('n')
        X.assume(n >= 0)
        return None, [vec_arg(X, 'x', n), vec_arg(X, 'p0', n)]

    def setup_jac(X):
        n = z3.Int('n')
        X.assume(n >= 0)
        return None, [vec_arg(X, 'x', n), mat_arg(X, 'J0', n, n)]

    def setup_hess(X):
        n = z3.Int('n')
        X.assume(n >= 0)
        return None, [vec_arg(X, 'x', n), vec_arg(X, 'b', n), mat_arg(X, 'H0', n, n)]

    def fixed(c, keep):
        for i in keep:
            c.eq(f'argument {i} unchanged', c.X.mget(c.vals[i]), c.old(lambda: c.X.mget(c.vals[i])))

    specs = {
        'ZeroCone': (lambda x, i: z3.RealVal(0), lambda x, i, j: z3.RealVal(0)),
        'IdentityCone': (lambda x, i: M.elem(x, i, 0), lambda x, i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0))),
        'NegativeOrthant': (lambda x, i: z3.If(M.elem(x, i, 0) < 0, M.elem(x, i, 0), z3.RealVal(0)), None),
    }
    for cone, (proj, jac) in specs.items():
        def p1(c, proj=proj, cone=cone):
            X = c.X
            x, p = X.mget(c.vals[0]), X.mget(c.vals[1])
            n = z3.Int('n')
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < n))
            pi, xi = M.elem(p, i, 0), M.elem(x, i, 0)
            c.eq('projection, every entry', pi, proj(x, i))
            # membership in the cone and optimality (closest point): (x-p).(y-p) <= 0 for every cone point y, entrywise
            y = z3.Const('y', R)
            if cone == 'ZeroCone':
                c.holds('result in cone', pi == 0)
            elif cone == 'NegativeOrthant':
                c.holds('result in cone', pi <= 0)
                c.holds('closest cone point', z3.Implies(y <= 0, (xi - pi) * (xi - pi) <= (xi - y) * (xi - y)))
            else:
                c.holds('closest cone point', (xi - pi) * (xi - pi) <= (xi - y) * (xi - y))
            fixed(c, [0])
        verify(job, new_interp(prog), prog.fn(NS + cone + '::Projection'), setup_proj, p1, cone + '::Projection')

        def p2(c, jac=jac):
            X = c.X
            x, J = X.mget(c.vals[0]), X.mget(c.vals[1])
            J0 = c.old(lambda: X.mget(c.vals[1]))
            n = z3.Int('n')
            i, j = X.fresh('i', I), X.fresh('j', I)
            X.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
            if jac is not None:
                c.eq('Jacobian, every entry', M.elem(J, i, j), jac(x, i, j))
            else:
                d = z3.If(M.elem(x, i, 0) > 0, z3.RealVal(0), z3.RealVal(1))
                c.eq('Jacobian: diagonal indicator, other entries unchanged', M.elem(J, i, j), z3.If(i == j, d, M.elem(J0, i, j)))
            fixed(c, [0])
        verify(job, new_interp(prog), prog.fn(NS + cone + '::Jacobian'), setup_jac, p2, cone + '::Jacobian')

        def p3(c):
            H = c.X.mget(c.vals[2])
            n = z3.Int('n')
            i, j = c.X.fresh('i', I), c.X.fresh('j', I)
            c.X.assume(z3.And(i >= 0, i < n, j >= 0, j < n))
            c.eq('second-derivative term zero', M.elem(H, i, j), z3.RealVal(0))
            fixed(c, [0, 1])
        verify(job, new_interp(prog), prog.fn(NS + cone + '::Hessian'), setup_hess, p3, cone + '::Hessian')

    # dual cones (type-level fact, read from the instantiated constraint-value classes)
    dual(job)


def dual(job):
    prog = job.prog
    want = {'ZeroCone': 'IdentityCone', 'IdentityCone': 'ZeroCone', 'NegativeOrthant': 'NegativeOrthant'}
    got = prog.typedefs if hasattr(prog, 'typedefs') else {}
    for cone, d in want.items():
        t = got.get(NS + cone + '::DualCone')
        job.record(f'{cone}: dual cone is {d}', t == NS + d, 'clang type', f'{cone}::DualCone is {t}')


if __name__ == '__main__':
    from ._main import main
    main('P10', run)
