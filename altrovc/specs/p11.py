"""P11: reported violations and penalties are the maxima over all constraints."""
from .allib import *
from .allib import ASSUME as _A
from . import p09

BOUNDED = []
ASSUME = [a for a in _A if 'Jacobian' not in a] + ['violations are compared as real numbers', 'std::sort permutes the elements of the vector']
PRIMAL = {'eq': 'ZeroCone', 'ineq': 'NegativeOrthant'}
Z = z3.IntVal(0)
U_viol = {k: z3.Function('violation_' + k, I, R) for k in ('eq', 'ineq')}
U_pen = {k: z3.Function('maxpenalty_' + k, I, R) for k in ('eq', 'ineq')}


def run(job):
    for kind in ('eq', 'ineq'):
        values(job, kind)
    alcost(job)
    solver_level(job)
    report(job)
    solver_report(job)


def values(job, kind):
    prog, cls = job.prog, cv(kind)
    X = new_interp(prog)
    v = CV(X, kind)

    def viol(i):
        ci = M.elem(v.c(), i, Z)
        return ci if kind == 'eq' else z3.If(ci > 0, ci, z3.RealVal(0))

    def keep(c):
        for nm, f in (('multipliers', v.duals), ('penalties', v.pen), ('penalty scaling', v.scaling), ('constraint value', v.c)):
            c.eq(f'{nm} unchanged', f(), c.old(f))

    def some(X):
        i = X.fresh('i', I)
        X.assume(z3.And(i >= 0, i < v.p))
        return i

    def post(c):
        want = M.linf(M.mk(v.p, z3.IntVal(1), lambda i, j: viol(i)))
        c.eq('largest entry of the distance of the last value from the cone', zr(c.ret), want)
        keep(c)
    verify(job, X, prog.fn(cls + '::MaxViolation'), lambda X: (v.make(), []), post, f'MaxViolation<{kind}>')

    def post2(c):
        i = some(X)
        c.eq('one entry per output', M.rows(X.mget(c.ret)), v.p)
        c.eq('entry i is the distance of entry i from the cone', M.elem(X.mget(c.ret), i, Z), viol(i))
        keep(c)
    verify(job, X, prog.fn(cls + '::GetViolation'), lambda X: (v.make(), []), post2, f'GetViolation<{kind}>')

    def post3(c):
        r = zr(c.ret)
        i = some(X)
        c.eq('largest penalty', r, M.vmax(v.pen()))
        keep(c)
    verify(job, X, prog.fn(cls + '::MaxPenalty'), lambda X: (v.make(), []), post3, f'MaxPenalty<{kind}>')


def fold_contracts(X):
    for kind in ('eq', 'ineq'):
        for nm, U in (('MaxViolation', U_viol), ('MaxPenalty', U_pen)):
            def go(X, this, vals, f, U=U, kind=kind):
                t = U[kind](this.idx[0])
                X.assume(t >= 0)
                return t
            X.contracts[f'{cv(kind)}::{nm}'] = [(lambda f: True, go)]


def alcost(job):
    prog = job.prog
    X = new_interp(prog)
    A = ALC(X)
    cls = A.cls
    fold_contracts(X)

    fam = lambda U, nm: [(f'{nm} of an {"in" if k == "ineq" else ""}equality constraint', A.cnt[k],
                          (lambda i, k=k: U[k](A.con(k, i)))) for k in ('eq', 'ineq')]

    def post(c):
        is_max(c, 'violation at the knot point', c.ret, fam(U_viol, 'violation'))
    verify(job, X, prog.fn(cls + '::MaxViolation'), lambda X: (A.make(), []), post, 'ALCost::MaxViolation')

    def post2(c):
        is_max(c, 'penalty at the knot point', c.ret, fam(U_pen, 'penalty'))
    verify(job, X, prog.fn(cls + '::MaxPenalty'), lambda X: (A.make(), []), post2, 'ALCost::MaxPenalty')


INFO = 'altro::constraints::ConstraintInfo'


def report(job):
    """the constraint report of one constraint and of one knot point"""
    prog = job.prog
    for kind in ('eq', 'ineq'):
        X = new_interp(prog)
        v = CV(X, kind)
        cls = cv(kind)

        def post(c):
            r = c.ret
            got = X.mget(X.fieldof(r, 'violation'))
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < v.p))
            ci = M.elem(v.c(), i, Z)
            c.eq('reports its violation', M.elem(got, i, Z), ci if kind == 'eq' else z3.If(ci > 0, ci, z3.RealVal(0)))
            c.eq('one entry per output', M.rows(got), v.p)
            c.eq("reports its constraint's label", X.load(X.fieldof(r, 'label')), U_label(v.con))
        verify(job, X, prog.fn(cls + '::GetConstraintInfo'), lambda X: (v.make(), []), post, f'GetConstraintInfo<{kind}>')
    X = new_interp(prog)
    A = ALC(X)
    U_info = {k: z3.Function('info_' + k, I, Mat) for k in ('eq', 'ineq')}
    U_lab = {k: z3.Function('infolabel_' + k, I, I) for k in ('eq', 'ineq')}
    M.KNOWN_DIMS.append(lambda t: (U_odim(t.arg(0)), z3.IntVal(1)) if t.decl().name().startswith('info_') else None)
    for kind in ('eq', 'ineq'):
        def info(X, this, vals, f, kind=kind):
            r = X.temp(INFO, None)
            X.mset(X.fieldof(r, 'violation'), U_info[kind](this.idx[0]))
            X.store(X.fieldof(r, 'label'), U_lab[kind](this.idx[0]))
            return r
        X.contracts[cv(kind) + '::GetConstraintInfo'] = [(lambda f: True, info)]

    def setup(X):
        this = A.make()
        v = LV('H:report', (z3.Int('report'),), f'std::vector<{INFO}>')
        X.assume(X.load(v.sub('.#', 'int')) >= 0)
        return this, [PtrVal(v)]

    def post(c):
        v = c.vals[0].lv
        n0, n1 = c.old(lambda: X.load(v.sub('.#', 'int'))), X.load(v.sub('.#', 'int'))
        c.eq('every constraint once', n1, n0 + A.cnt['eq'] + A.cnt['ineq'])
        for kind, off in (('eq', n0), ('ineq', n0 + A.cnt['eq'])):
            i = X.fresh('ci', I)
            X.assume(z3.And(i >= 0, i < A.cnt[kind]))
            e = LV(v.key + '[]', v.idx + (z3.simplify(off + i),), INFO)
            c.eq(f'{kind} constraint in order: violation', X.mget(X.fieldof(e, 'violation')), U_info[kind](A.con(kind, i)))
            c.eq(f'{kind} constraint in order: label', X.load(X.fieldof(e, 'label')), U_lab[kind](A.con(kind, i)))
        j = X.fresh('j', I)
        X.assume(z3.And(j >= 0, j < n0))
        e = LV(v.key + '[]', v.idx + (j,), INFO)
        g = lambda: X.mget(X.fieldof(e, 'violation'))
        c.eq('earlier entries kept', g(), c.old(g))
        c.frame(ignore=(lambda k: k.startswith(v.key),))
    verify(job, X, prog.fn(A.cls + '::GetConstraintInfo'), setup, post, 'ALCost::GetConstraintInfo')


U_kviol, U_kpen = z3.Function('violation_at', I, R), z3.Function('maxpenalty_at', I, R)
U_at = z3.Function('violation_of_trajectory', I, R)


def solver_level(job):
    prog = job.prog
    X = new_interp(prog)
    S = ALS(X)
    cls = S.cls
    for nm, U in (('MaxViolation', U_kviol), ('MaxPenalty', U_kpen)):
        def go(X, this, vals, f, U=U):
            t = U(this.idx[0])
            X.assume(t >= 0)
            return t
        X.contracts[f'{ALC.cls}::{nm}'] = [(lambda f: True, go)]

    def over(nm, U):
        def post(c):
            is_max(c, f'{nm} of the solver', c.ret, [(f'{nm} at a knot point', S.N + 1, lambda k: U(S.cost(k)))])
        return post
    setup = lambda X: (S.make(), [])
    verify(job, X, prog.fn(cls + '::GetMaxViolation'), setup, over('violation', U_kviol), 'AL solver GetMaxViolation')
    verify(job, X, prog.fn(cls + '::GetMaxPenalty'), setup, over('penalty', U_kpen), 'AL solver GetMaxPenalty')

    # the violation of a trajectory is measured at that trajectory
    X = new_interp(prog)
    S = ALS(X)
    seen = LV('G:evaluated', (), 'int')

    def cost(X, this, vals, f):
        z = vals[0] if vals else own(X)
        X.store(seen, z.idx[0])
        return X.fresh('cost', R)

    def own(X):
        fs = [g for g in prog.recs[S.icls]['fields'] if 'shared_ptr' in g['t'] and 'Trajectory<' in g['t']]
        if len(fs) != 1:
            raise Unsupported('trajectory member')
        return LV('H:traj', (X.load(X.fieldof(S.ilqr, fs[0]['n'])),), 'int')
    X.contracts[S.icls + '::Cost'] = [(lambda f: True, cost)]
    X.contracts[cls + '::GetMaxViolation'] = [(lambda f: True, lambda X, this, vals, f: U_at(X.load(seen)))]
    for g in prog.by_q.get(cls + '::MaxViolation', []):
        if g.get('body') is None:
            continue
        if len(g['params']) == 1:
            def setup2(X):
                this = S.make()
                return this, [obj(X, 'altro::Trajectory<-1, -1, double>', 'Zarg')]
            verify(job, X, g, setup2, lambda c: c.eq('constraints evaluated at the given trajectory first', c.ret, U_at(z3.Int('Zarg'))),
                   'AL solver MaxViolation(Z)')
        else:
            verify(job, X, g, lambda X: (S.make(), []),
                   lambda c: c.eq("constraints evaluated at the solver's trajectory first", c.ret, U_at(own(X).idx[0])), 'AL solver MaxViolation()')


def solver_report(job):
    """the constraint report of the solver, with an invariant for its loop over the knot points: after m passes the list holds exactly
    the records of knot points 0..m-1, in order, each with its knot-point index"""
    prog = job.prog
    X = new_interp(prog)
    S = ALS(X)
    cls = S.cls
    VT = f'std::vector<{INFO}>'
    off = z3.Function('report_offset', I, I)          # off(k): number of constraints before knot point k
    owner = z3.Function('report_owner', I, I)         # the knot point whose constraint is at a position of the list
    U_cnt = z3.Function('report_count', I, I)
    leaves = [(s, X.T.kind(lt), lt) for s, more, lt in X.T.leaves(INFO)]
    assert all(more == 0 for _, more, _ in X.T.leaves(INFO))
    U_leaf = {s: z3.Function('report' + s, I, I, SORT[k]) for s, k, _ in leaves}
    U_rows = z3.Function('report_rows', I, I, I)
    M.KNOWN_DIMS.append(lambda t: (U_rows(t.arg(0), t.arg(1)), z3.IntVal(1)) if t.decl().name().startswith('report.') else None)

    def cnt(k):
        t = U_cnt(S.cost(k))
        X.assume(t >= 0)
        X.assume(off(z3.IntVal(0)) == 0)
        X.assume(off(z3.simplify(k + 1)) == off(k) + t)
        return t

    def owned(q, upto):
        """definition of owner at q, for a position of the first `upto` knot points"""
        o = owner(q)
        X.assume(z3.Implies(z3.And(q >= 0, q < off(upto)), z3.And(o >= 0, o < upto, off(o) <= q, q < off(o) + U_cnt(S.cost(o)))))

    def fill(vec, lo, hi, val):
        """the records at positions [lo, hi) of the list become val(leaf, position)"""
        nd = len(vec.idx)
        for s, k, lt in leaves:
            key = vec.key + '[]' + s
            prev = X.fmap(key, k)

            def cond(q):
                c = X.eqidx(q[:nd], vec.idx)
                return z3.And(c if is_z(c) else z3.BoolVal(c), q[nd] >= lo, q[nd] < hi)
            r = Fn(prev, cond, lambda q, s=s: val(s, q[nd]), 'report')
            r.nidx, r.pat = nd + 1, list(vec.idx) + [None]
            X.mem[key] = r
        X.store(vec.sub('.#', 'int'), z3.simplify(hi))

    def info(X, this, vals, f):
        """contract of the report of one knot point (proved above): appends its records, whatever knot-point index they carry"""
        vec = vals[0].lv
        k = this.idx[0]
        n0 = X.load(vec.sub('.#', 'int'))
        n = U_cnt(k)
        X.assume(n >= 0)
        fill(vec, n0, n0 + n, lambda s, q: U_leaf[s](k, z3.simplify(q - n0)))
    X.contracts[ALC.cls + '::GetConstraintInfo'] = [(lambda f: True, info)]
    sname = {s for s, k, _ in leaves if s == '.index'}
    if sname != {'.index'}:
        raise Unsupported('knot-point index of the report')

    def record_at(q):
        """what the record at position q must contain"""
        o = owner(q)
        return {s: (o if s == '.index' else U_leaf[s](S.cost(o), z3.simplify(q - off(o)))) for s, _, _ in leaves}

    CANDS = {'constant': lambda b, m: b, 'counter': lambda b, m: b + m, 'size of the list': lambda b, m: off(m)}
    keep = {}

    def handler(X, n, kind, cond, body, inc):
        if X.inv_seen or kind == 'range':
            return False
        vecs = [v for v in X.fr.env.values() if isinstance(v, LV) and v.key[0] in 'LT' and strip(v.typ).startswith('std::vector<') and strip(targs(strip(v.typ))[0]) == INFO]
        if len(vecs) != 1:
            return False
        X.inv_seen = True
        vec = X.inv_vec = vecs[0]
        ints = [v for v in X.fr.env.values() if isinstance(v, LV) and v.key[0] in 'LT' and X.T.kind(v.typ) == 'int']
        X.inv_ints = ints
        base = X.inv_base = {v.key: X.load(v) for v in ints}
        m = X.inv_m = z3.Int('passes')
        way = X.choose_n(2)
        if way == 0:
            X.inv_mode = 'base'
            X.inv_now = {v.key: X.load(v) for v in ints}
            raise Return(None)
        X.assume(z3.And(m >= 0, m <= S.N + 1))
        cnt(m)
        X.assume(off(m) >= 0)
        fill(vec, z3.IntVal(0), off(m), lambda s, q: record_at(q)[s])
        for v in ints:
            x = X.fresh('inv', I)
            for c in keep.setdefault(v.key, set(CANDS)):
                X.assume(x == CANDS[c](base[v.key], m))
            X.store(v, x)
        start = X.inv_start = dict(X.mem)
        if X.choose(cond()):
            try:
                body()
            except Continue:
                pass
            except Break:
                raise Unsupported('break out of the report loop')
            inc()
            X.inv_mode = 'step'
            X.inv_now = {v.key: X.load(v) for v in ints}
            touched = {k for k in X.mem if X.mem[k] is not start.get(k) and k in start} - {v.key for v in ints}
            touched = {k for k in touched if not k.startswith(vec.key)}
            if touched:
                raise Unsupported('the report loop changes ' + ', '.join(sorted(touched)))
            raise Return(None)
        X.inv_mode = 'exit'
        return True
    X.loop_handler = handler

    def setup(X):
        X.inv_seen, X.inv_mode, X.last_sort = False, 'none', None
        return S.make(), [z3.Bool('should_sort')]

    def check_state(c, P, vec, upto, what, perm=None):
        c.eq(f'{what}: one record per constraint', X.load(vec.sub('.#', 'int')), off(upto))
        q = X.fresh('q', I)
        X.assume(z3.And(q >= 0, q < off(upto)))
        p = q
        if perm is not None:
            X.instantiate(q)
            p = perm[0](q)
        owned(p, upto)
        if P == 'step':
            owned(p, X.inv_m)
            # positions of the pass just made belong to its knot point
            X.assume(z3.Implies(z3.And(p >= off(X.inv_m), p < off(upto)), owner(p) == X.inv_m))
            X.assume(z3.Implies(z3.And(p >= 0, p < off(X.inv_m)), owner(p) < X.inv_m))
            X.choose(p < off(X.inv_m))
            if not X.implied(p < off(X.inv_m)):
                X.assume(owner(p) == X.inv_m)
        want = record_at(p)
        names = {'.violation': 'violation', '.label': 'label', '.index': 'knot-point index', '.type': 'type'}
        e = LV(vec.key + '[]', tuple(vec.idx) + (q,), INFO)
        for s, k, _ in leaves:
            w = want[s]
            if P == 'step' and X.implied(owner(p) == X.inv_m) and s != '.index':
                w = U_leaf[s](S.cost(X.inv_m), z3.simplify(p - off(X.inv_m)))
            g = LV(e.key + s, e.idx, 'int' if k == 'int' else _)
            got = X.mget(g) if k == 'mat' else X.load(g)
            c.eq(f'{what}: {names.get(s, s)} of the constraint', got, w)

    drop = []

    def post(c):
        mode = X.inv_mode
        if mode == 'none':
            raise Unsupported('the report loop was not recognised')
        if mode == 'base':
            for v in X.inv_ints:
                for nm in list(keep.setdefault(v.key, set(CANDS))):
                    X.assume(off(z3.IntVal(0)) == 0)
                    if not X.implied(X.inv_now[v.key] == CANDS[nm](X.inv_base[v.key], z3.IntVal(0))):
                        drop.append((v.key, nm))
            X.assume(off(z3.IntVal(0)) == 0)
            check_state(c, 'base', X.inv_vec, z3.IntVal(0), 'before the loop')
        elif mode == 'step':
            nxt = z3.simplify(X.inv_m + 1)
            for v in X.inv_ints:
                for nm in list(keep[v.key]):
                    if not X.implied(X.inv_now[v.key] == CANDS[nm](X.inv_base[v.key], nxt)):
                        drop.append((v.key, nm))
            if not drop:
                c.holds('each pass adds the next knot point and no other', nxt <= S.N + 1)
                check_state(c, 'step', X.inv_vec, nxt, 'after each pass')
        else:
            if not drop:
                c.eq('the report covers every knot point', X.inv_m, S.N + 1)
                r = c.ret
                if not isinstance(r, LV):
                    raise Unsupported('report value')
                check_state(c, 'exit', r, S.N + 1, 'report', X.last_sort)
                c.frame(ignore=(lambda k: k[0] in 'LT',))
    f = prog.fn(cls + '::GetConstraintInfo')
    from ..vc import Job
    for _ in range(12):
        drop.clear()
        trial = Job(job.pid, prog)
        verify(trial, X, f, setup, post, 'AL solver GetConstraintInfo')
        if not drop:
            break
        for k, nm in drop:
            keep[k].discard(nm)
    for nm, o in trial.obs.items():
        job.obs[nm] = o
    job.unsupported += trial.unsupported
    job.trusted |= trial.trusted
    job.functions.update(trial.functions)
    job.paths += trial.paths
    job.checks += trial.checks
    job.solver_time += trial.solver_time
    for b, k in trial.backends.items():
        job.backends[b] = job.backends.get(b, 0) + k


if __name__ == '__main__':
    from ._main import main
    main('P11', run)
