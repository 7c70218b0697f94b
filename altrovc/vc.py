"""Obligations, the prover that discharges them, and the driver that verifies one function against its contract."""
import time, traceback
import z3
from . import mat as M
from .core import *
from .sym import Interp


class Job:
    """collects the obligations of one property"""

    def __init__(self, pid, prog):
        self.pid, self.prog = pid, prog
        self.obs = {}            # name -> dict
        self.unsupported = []    # (function, reason)
        self.functions = {}      # function -> 'file:line'
        self.trusted = set()
        self.solver_time = 0.0
        self.checks = 0
        self.paths = 0
        self.backends = {}
        self.t0 = time.time()

    def ob(self, name):
        return self.obs.setdefault(name, {'status': 'proved', 'n': 0, 'detail': '', 'backend': {}})

    def record(self, name, ok, backend='', detail='', loc=None):
        o = self.ob(name)
        o['n'] += 1
        if ok:
            o['backend'][backend] = o['backend'].get(backend, 0) + 1
            self.backends[backend] = self.backends.get(backend, 0) + 1
        elif o['status'] == 'proved':
            o['status'] = 'failed'
            o['detail'] = detail

    def failed(self):
        return [n for n, o in self.obs.items() if o['status'] != 'proved']


def _atoms(t, pred, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t):
        if pred(t):
            out.append(t)
        for c in t.children():
            _atoms(c, pred, out, seen)


def atoms(t, pred):
    out = []
    _atoms(t, pred, out, set())
    return out


class Prover:
    def __init__(self, X, job, timeout=8000):
        self.X, self.job, self.timeout = X, job, timeout
        self.solver_name = 'z3-' + z3.get_version_string()

    def _solve(self, extra, timeout=None):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        for f in self.X.facts:
            s.add(M.canon_mats(f))
        for f in extra:
            s.add(M.canon_mats(f))
        r = s.check()
        self.job.solver_time += time.time() - t0
        self.job.checks += 1
        self.last = s
        return r

    def _solve_poly(self, extra, timeout=None):
        """the same question with every scalar expression in polynomial normal form and division as multiplication by the inverse"""
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        fs = [M.canon(f) for f in list(self.X.facts) + list(extra)]
        inv = []
        for f in fs:
            s.add(f)
            for a in atoms(f, lambda q: dnm(q) == 'rinv'):
                if not any(a.eq(b) for b in inv) and not has_var(a):
                    inv.append(a)
        for a in inv:
            s.add(z3.Implies(a.arg(0) != 0, a * a.arg(0) == 1))
        r = s.check()
        self.job.solver_time += time.time() - t0
        self.job.checks += 1
        return r

    def feasible(self):
        return self._solve([], 2000) != z3.unsat

    # ------- boolean goals
    def prove(self, name, goal, hint=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.job.record(name, True, 'simplify')
            return True
        self.X.new_facts(g)
        neg, defs = self.prep([z3.Not(g)])
        r = self._solve(neg + defs)
        if r == z3.unsat:
            self.job.record(name, True, self.solver_name)
            return True
        if self._solve_poly(neg + defs) == z3.unsat:
            self.job.record(name, True, self.solver_name + '+polynomial')
            return True
        return self.fail(name, f'goal: {str(g)[:600]}', r)

    def fail(self, name, what, r):
        if not self.feasible():
            self.job.record(name, True, self.solver_name)
            return True
        det = f'{what}\nsolver: {r}'
        if r == z3.sat:
            det += '\ncounterexample:\n' + str(self.last.model())[:1500]
        det += '\npath condition:\n' + '\n'.join(str(f)[:200] for f in self.X.facts[-25:])
        self.job.record(name, False, '', det)
        return False

    # ------- equality goals
    def prove_eq(self, name, a, b):
        X = self.X
        if a is b:
            self.job.record(name, True, 'syntactic')
            return True
        if not (is_z(a) and is_z(b)):
            return self.prove_struct(name, a, b)
        if a.sort() == R and b.sort() == I:
            b = z3.ToReal(b)
        if b.sort() == R and a.sort() == I:
            a = z3.ToReal(a)
        if a.sort() != b.sort():
            self.job.record(name, False, '', f'sorts differ: {a} vs {b}')
            return False
        if a.eq(b):
            self.job.record(name, True, 'syntactic')
            return True
        if a.sort() == Mat:
            return self.prove_mat(name, a, b)
        if a.sort() == R:
            return self.prove_real(name, a, b)
        return self.prove(name, a == b)

    def prove_struct(self, name, a, b):
        if isinstance(a, PtrVal) and isinstance(b, PtrVal) and isinstance(a.lv, LV) and isinstance(b.lv, LV) and a.lv.key == b.lv.key:
            g = z3.And(*[x == y for x, y in zip(a.lv.idx, b.lv.idx)]) if a.lv.idx else z3.BoolVal(True)
            return self.prove(name, g)
        if isinstance(a, IterV) and isinstance(b, IterV) and a.vec.key == b.vec.key:
            return self.prove(name, a.i == b.i)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            self.job.record(name, True, 'opaque')
            return True
        if isinstance(a, Closure) and isinstance(b, Closure) and a.node is b.node:
            self.job.record(name, True, 'same closure')
            return True
        self.job.record(name, False, '', f'values differ: {a} vs {b}')
        return False

    def split_ifs(self, a, b):
        """decide the If conditions of both terms on this path (forks the path)"""
        X = self.X
        for _ in range(60):
            its = atoms(a, lambda t: dnm(t) == 'if' and not has_var(t.arg(0))) + \
                  atoms(b, lambda t: dnm(t) == 'if' and not has_var(t.arg(0)))
            if not its:
                break
            c = its[-1].arg(0)
            v = X.choose(c)
            sub = [(c, z3.BoolVal(v))]
            a = M.canon(z3.simplify(z3.substitute(a, *sub))) if a.sort() != Mat else M.canon(simp_ifs(z3.substitute(a, *sub)))
            b = M.canon(z3.simplify(z3.substitute(b, *sub))) if b.sort() != Mat else M.canon(simp_ifs(z3.substitute(b, *sub)))
        return a, b

    def prove_mat(self, name, a, b):
        if mat_eq(a, b):
            self.job.record(name, True, 'matrix-ring')
            return True
        if atoms(a, lambda t: dnm(t) == 'if' and t.sort() == Mat) or atoms(b, lambda t: dnm(t) == 'if' and t.sort() == Mat):
            a, b = self.split_ifs(a, b)
            if mat_eq(a, b):
                self.job.record(name, True, 'matrix-ring+cases')
                return True
        a2, b2 = M.canon(self.rewrite_dims(a)), M.canon(self.rewrite_dims(b))
        if a2.eq(b2) or mat_eq(a2, b2):
            self.job.record(name, True, 'matrix-ring+dims')
            return True
        # congruence
        neg, defs = self.prep([a2 != b2])
        r = self._solve(neg + defs, 3000)
        if r == z3.unsat:
            self.job.record(name, True, self.solver_name)
            return True
        if needs_ext(a) or needs_ext(b):
            i, j = self.X.fresh('ei', I), self.X.fresh('ej', I)
            (r1, c1), (r2, c2) = M.dims(a), M.dims(b)
            if not (M.same(r1, r2) and M.same(c1, c2)):
                if not self.prove(name, z3.And(r1 == r2, c1 == c2)):
                    return False
            self.X.assume(z3.And(i >= 0, i < r1, j >= 0, j < c1))
            if M.ival(c1) == 1:
                j = z3.IntVal(0)
            return self.prove_real(name, M.elem(a, i, j), M.elem(b, i, j))
        return self.fail(name, f'matrices differ:\n  got  {short(a)}\n  want {short(b)}', r)

    def rewrite_dims(self, t):
        """unify dimension arguments that the path condition makes equal"""
        ds = atoms(t, lambda q: q.sort() == I and dnm(q) in ('mrows', 'mcols'))
        sub = []
        for d in ds:
            e = self.X.eq_rep(d)
            if e is not None and not e.eq(d):
                sub.append((d, e))
        if not sub:
            return t
        return M.canon(z3.substitute(t, *sub))

    def prove_real(self, name, a, b):
        na, nb = M.canon(a), M.canon(b)
        if na.eq(nb) or not M.sp_add(M.spoly(a), M.spoly(b), -1):
            self.job.record(name, True, 'polynomial')
            return True
        neg, defs = self.prep([a != b])
        r = self._solve(neg + defs)
        if r == z3.unsat:
            self.job.record(name, True, self.solver_name)
            return True
        a2, b2 = self.split_ifs(z3.simplify(a), z3.simplify(b))
        a2, b2 = M.canon(a2), M.canon(b2)
        if not M.sp_add(M.spoly(a2), M.spoly(b2), -1):
            self.job.record(name, True, 'polynomial+cases')
            return True
        neg, defs = self.prep([a2 != b2])
        r = self._solve(neg + defs)
        if r == z3.unsat:
            self.job.record(name, True, self.solver_name)
            return True
        return self.fail(name, f'values differ:\n  got  {short(a2)}\n  want {short(b2)}', r)

    # ------- preparing terms for the SMT solver
    def prep(self, goals):
        """equate fold/lambda atoms whose bodies are provably equal; returns (goals, defs)"""
        X = self.X
        defs = []
        folds = []
        for g in goals + [f for f in X.facts[-200:]]:
            for t in atoms(g, lambda q: dnm(q) in ('fsum', 'fmax', 'fmsum', 'isum', 'mk', 'm11', 'minv', 'mnorm', 'mdiag', 'mset')):
                if not any(t.eq(u) for u in folds):
                    folds.append(t)
        fl = [t for t in folds if dnm(t) in ('fsum', 'fmax', 'fmsum', 'isum')]
        for x in range(len(fl)):
            for y in range(x + 1, len(fl)):
                a, b = fl[x], fl[y]
                if dnm(a) != dnm(b) or a.eq(b):
                    continue
                d = self.fold_pair(a, b)
                if d is not None:
                    defs.append(d)
        # fmax facts
        for a in fl:
            if dnm(a) == 'fmax':
                lo, hi, f = a.children()
                i = z3.FreshInt('fk')
                b = M.canon(z3.simplify(z3.Select(f, i)))
                pos = [z3.Implies(r.arg(0) > 0, r > 0) for r in atoms(b, lambda q: dnm(q) == 'rinv') if not has_var(r)]
                if self._solve([i >= lo, i < hi, b < 0] + pos, 1000) == z3.unsat:      # the largest of non-negative terms
                    defs.append(z3.Implies(hi > lo, a >= 0))
        return goals, defs

    def fold_pair(self, a, b):
        """how two folds over a range relate: the same terms, in either order, or the terms of one and one more at an end"""
        X = self.X
        if not X.implied(a.arg(0) == b.arg(0)):
            return None
        lo = a.arg(0)
        if X.implied(a.arg(1) == b.arg(1)):
            if self.fold_body_eq(a, b) or self.fold_body_eq(a, b, lambda i: lo + a.arg(1) - 1 - i):
                return a == b
            return None
        if dnm(a) == 'fmsum':
            return None
        if X.implied(b.arg(1) == a.arg(1) + 1):
            a, b = b, a
        elif not X.implied(a.arg(1) == b.arg(1) + 1):
            return None
        # a has one term more than b
        lead = b.arg(1) >= lo if dnm(a) != 'fmax' else b.arg(1) > lo
        for f in (None, lambda i: lo + b.arg(1) - 1 - i):       # b runs over the first terms of a
            if self.fold_body_eq(b, a, f):
                last = z3.simplify(z3.Select(a.arg(2), b.arg(1)))
                break
        else:
            for f in (lambda i: i + 1, lambda i: lo + b.arg(1) - i):      # b runs over the last terms of a
                if self.fold_body_eq(b, a, f):
                    last = z3.simplify(z3.Select(a.arg(2), lo))
                    break
            else:
                return None
        if dnm(a) == 'fmax':
            return z3.Implies(lead, a == z3.If(b < last, last, b))
        return z3.Implies(lead, a == b + last)

    def fold_body_eq(self, a, b, at=None):
        i = z3.FreshInt('fk')
        ba, bb = z3.simplify(z3.Select(a.arg(2), i)), z3.simplify(z3.Select(b.arg(2), i if at is None else z3.simplify(at(i))))
        ba, bb = M.canon(ba), M.canon(bb)
        if ba.eq(bb):
            return True
        if ba.sort() == Mat:
            return mat_eq(ba, bb)
        if ba.sort() == R and not M.sp_add(M.spoly(ba), M.spoly(bb), -1):
            return True
        r = self._solve([i >= a.arg(0), i < a.arg(1), ba != bb], 3000 if at is None else 500)
        return r == z3.unsat


def simp_ifs(t):
    cache = {}

    def go(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif dnm(t) == 'if' and z3.is_true(z3.simplify(t.arg(0))):
            r = go(t.arg(1))
        elif dnm(t) == 'if' and z3.is_false(z3.simplify(t.arg(0))):
            r = go(t.arg(2))
        else:
            ch = [go(c) for c in t.children()]
            r = t if all(x.eq(y) for x, y in zip(ch, t.children())) else t.decl()(*ch)
        cache[k] = r
        return r
    return go(t)


def dnm(t):
    return t.decl().name() if z3.is_app(t) else ''


def has_var(t):
    if z3.is_var(t):
        return True
    if z3.is_quantifier(t):
        return True
    return any(has_var(c) for c in t.children())


def mat_eq(a, b):
    return not M.mp_add(M.mpoly(a), M.mpoly(b), -1)


def needs_ext(a):
    return bool(atoms(a, lambda t: dnm(t) in ('mk', 'mset', 'fmsum')))


def short(t, n=700):
    s = str(t).replace('\n', ' ')
    return s if len(s) < n else s[:n] + '...'


class Ctx:
    """what a contract sees of one execution path of the function under proof"""

    def __init__(self, X, P, job, fname, f, this, vals):
        self.X, self.P, self.job, self.fname, self.f, self.this, self.vals = X, P, job, fname, f, this, vals
        self.pre = None
        self.post = None
        self.ret = None

    def name(self, s):
        return f'{self.fname}: {s}'

    def old(self, fn):
        """evaluate fn() in the pre-state"""
        X = self.X
        cur = X.mem
        X.mem = dict(self.pre)
        try:
            return fn()
        finally:
            X.mem = cur

    def eq(self, what, got, want):
        return self.P.prove_eq(self.name(what), got, want)

    def holds(self, what, goal):
        return self.P.prove(self.name(what), goal)

    def sum_is(self, what, got, n, f):
        """got == sum of f(k) for k in [0, n), accumulated in either direction"""
        X, P = self.X, self.P
        got = M.canon(z3.simplify(got))
        if dnm(got) != 'fsum' or not X.implied(got.arg(0) == 0) or not X.implied(got.arg(1) == n):
            return self.eq(what, got, M.FSUM(z3.IntVal(0), n, z3.Lambda([z3.Int('sk!')], f(z3.Int('sk!')))))
        j = X.fresh('sj', I)
        X.assume(z3.And(j >= 0, j < n))
        body = z3.simplify(z3.Select(got.arg(2), j))
        fwd = not _dep_rev(X, body, j, n)
        k = j if fwd else z3.simplify(n - 1 - j)
        return self.eq(what, body, f(k))

    def get(self, lv, path):
        return self.X.load(self.X.fieldof(lv, path))

    def changed(self, ignore=()):
        """memory keys whose map differs from the pre-state's"""
        out = []
        for k, v in self.X.mem.items():
            if k[0] in 'LTU' and k[1:2].isdigit():
                continue
            if k.startswith(('G:',)):
                continue
            p = self.pre.get(k)
            if p is v or (p is None and isinstance(v, Base)):
                continue
            if any(k.endswith(i) if isinstance(i, str) else i(k) for i in ignore):
                continue
            out.append(k)
        return out

    def frame(self, ignore=(), allow=()):
        """every location outside `allow` (list of lvalues, leaf or aggregate) has its old value"""
        X = self.X
        allowed = {}
        for lv in allow:
            for s, n, lt in X.T.leaves(lv.typ):
                allowed.setdefault(lv.key + s, []).append(tuple(lv.idx))
        keys = [k for k in self.changed(ignore) if arity(X.mem[k]) is not None and () not in allowed.get(k, [])]

        def one(k):
            m = X.mem[k]
            q = tuple(X.fresh('fr', I) for _ in range(arity(m)))
            for pat in allowed.get(k, []):
                X.assume(z3.Or(*[z3.Not(a == b) for a, b in zip(q, pat)]))
            new = X.mread(m, q)
            p = self.pre.get(k)
            oldv = X.mread(p, q) if p is not None else X.mread(Base(k, kind_of(m), 'B'), q)
            self.P.prove_eq(self.name('frame ' + pretty(k)), new, oldv)
        for k in keys:      # the cases of different maps need no combination
            X.paths(lambda: one(k))


def _dep_rev(X, body, j, n):
    """does the body visit the stages from the last to the first?"""
    ix = atoms(body, lambda t: t.sort() == I and t.num_args() > 0 and dnm(t) in ('+', '-') and bool(atoms(t, lambda q: q.eq(j))))
    return any(X.implied(t == n - 1 - j) for t in ix)


def pretty(k):
    return k[2:] if k.startswith('H:') else k


def kind_of(m):
    while not isinstance(m, Base):
        m = m.prev
    return m.kind


def arity(m):
    while m is not None:
        if isinstance(m, Store):
            return len(m.idx)
        if isinstance(m, Fn) and getattr(m, 'nidx', None) is not None:
            return m.nidx
        if isinstance(m, Base):
            return getattr(m, 'nidx', None)
        m = m.prev
    return None


def verify(job, X, f, setup, post, fname=None, may_abort=None, pre_ok=True, budget=300, body=None, on_abort=None):
    """symbolically execute f's body on every path from every state that satisfies the precondition established by
    setup(X) -> (this, vals), and discharge the obligations that post(ctx) raises on each path"""
    fname = fname or f['q'].replace('altro::', '')
    job.functions[f['q']] = f"{f.get('file', '')}:{f.get('line', '')}"
    P = Prover(X, job)
    X.deadline = time.time() + budget
    npaths = [0]
    done = [0]

    def one():
        npaths[0] += 1
        X.exit_index = X.exit_T = None
        this, vals = setup(X)
        ctx = Ctx(X, P, job, fname, f, this, vals)
        ctx.pre = dict(X.mem)
        try:
            if body is not None:
                ctx.ret = body(X, this, vals)
            elif f.get('kind') == 'CXXConstructor':
                X.contracts_skip = f['q']
                X.run_ctor(this, f, vals)
            else:
                ctx.ret = X.call_body(f, this, vals)
        except Abort as a:
            if on_abort is not None:
                return on_abort(ctx, a)
            if not P.feasible():
                raise Infeasible()
            P.job.record(f'{fname}: no abort', False, '', f'reaches {a.what} at line {a.line}\n' +
                         '\n'.join(str(q)[:200] for q in X.facts[-25:]))
            return
        done[0] += 1
        try:
            post(ctx)
        except Abort as a:
            if not P.feasible():
                raise Infeasible()
            P.job.record(f'{fname}: postcondition well defined', False, '', f'evaluating the postcondition reaches {a.what} (line {a.line})\n' +
                         '\n'.join(str(q)[:200] for q in X.facts[-25:]))
    try:
        X.paths(one)
    except Unsupported as u:
        job.unsupported.append((fname, f'{u} (line {X.line})'))
    except RecursionError:
        job.unsupported.append((fname, 'recursion limit'))
    except z3.Z3Exception as e:
        job.unsupported.append((fname, f'z3: {e}; ' + traceback.format_exc()[-600:]))
    job.paths += npaths[0]
    job.checks += X.stats['checks']
    job.solver_time += X.stats['time']
    X.stats['checks'], X.stats['time'] = 0, 0.0
    job.trusted |= X.trust_used
    for q in X.called:
        g = X.prog.by_q.get(q)
        if g and q not in job.functions and g[0].get('file'):
            job.functions.setdefault('(inlined) ' + q, f"{g[0]['file']}:{g[0]['line']}")
    if done[0] == 0 and not any(u[0] == fname for u in job.unsupported):
        job.record(f'{fname}: some path completes', False, '', 'no execution path reaches the postcondition (vacuous)')
    return done[0]


def report(job):
    for n, o in job.obs.items():
        print(('ok  ' if o['status'] == 'proved' else 'FAIL'), n, o['n'], dict(o['backend']))
        if o['status'] != 'proved':
            print('     ', o['detail'].replace('\n', '\n      '))
    for u in job.unsupported:
        print('UNSUPPORTED', u)
    print(f'{len(job.obs)} obligations, {len(job.failed())} failed, {len(job.unsupported)} unsupported, '
          f'{job.paths} paths, {job.checks} checks, solver {job.solver_time:.1f}s, total {time.time() - job.t0:.1f}s')
