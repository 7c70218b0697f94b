"""Spec-side view of an iLQR solver: representation invariant, accessors and the contract of the solver statistics."""
from .common import *
from .p01 import KPF, kpf_inv, cls_of, lqr_q, lqr_value
from .p15 import call, kp_inv, fresh_obj, ctor, same, kp, tr, observe

ASSUME = ['every knot point of one solver has the same state and control dimension',
          'the knot point functions, trajectories and initial state of a solver are distinct, non-null objects of matching sizes '
          '(established by InitializeFromProblem and SetTrajectory)',
          'the horizon has at least one segment (N >= 1)']

TRACKED = {'cost': 'cost', 'viol': 'violations', 'dJ': 'cost_decrease', 'grad': 'gradient', 'alpha': 'alpha',
           'reg': 'regularization', 'z': 'improvement_ratio', 'pen': 'max_penalty'}
STATUS = 'altro::SolverStatus::'
SIZES = ('-1, -1', '4, 2')


def sizes(job):
    """instantiations examined: the template body is the same, so the quick tier takes the run-time sized one"""
    return SIZES if getattr(job, 'tier', 'quick') == 'thorough' else SIZES[:1]


def ilqr(sz):
    return f'altro::ilqr::iLQR<{sz}>'


def fields(prog, cls, pred):
    return [f for c in prog.bases(cls) for f in prog.recs[c]['fields'] if pred(f)]


def one_field(X, this, pred, what):
    fs = fields(X.prog, strip(this.typ), pred)
    if len(fs) != 1:
        raise Unsupported(f'{what}: {len(fs)} candidate members')
    return X.fieldof(this, fs[0]['n'])


class Solver:
    """builds the pre-state of an iLQR solver and gives access to its state"""

    def __init__(self, X, sz):
        self.X, self.sz, self.cls = X, sz, ilqr(sz)
        self.kcls, self.tcls, self.pcls = cls_of(sz), tr(sz), kp(sz)
        if sz == '-1, -1':
            self.n, self.m = z3.Int('n'), z3.Int('m')
        else:
            self.n, self.m = [z3.IntVal(int(v)) for v in sz.split(',')]
        prog = X.prog
        n, m = self.n, self.m
        # knot point functions and knot points: dimension invariants, all of the solver's size
        kinv = kpf_inv(prog, self.kcls)
        pinv = kp_inv(prog, sz)
        known_dims(X)

        def reg(inv, prefix, isroot):
            kn, km = inv.register(X, prefix, isroot)
            X.aliastab[kn] = lambda X, idx: n
            X.aliastab[km] = lambda X, idx: m
        reg(kinv, 'H:' + self.kcls, True)
        reg(pinv, 'H:' + self.pcls, True)
        for f in prog.recs[self.tcls]['fields']:
            if strip(f['t']).startswith('std::vector<' + self.pcls):
                reg(pinv, f'H:{self.tcls}.{f["n"]}[]', False)
                self.tvec = f['n']
        self.N = z3.Int('N')
        self.this = None
        self.keys = {}

    # ---- pre-state
    def make(self, name='solver'):
        X, cls = self.X, self.cls
        X.assume(z3.And(self.n > 0, self.m > 0, self.N >= 1))
        this = self.this = obj(X, cls, name)
        N = self.N
        # horizon
        nk = self._key('NumSegments')
        X.aliastab[nk] = lambda X, idx: N if self._mine(idx) else None
        # knot point functions
        kvec = one_field(X, this, lambda f: strip(f['t']).startswith('std::vector<') and 'KnotPointFunctions' in f['t'], 'knot point functions')
        self.kvec = kvec
        X.aliastab[kvec.key + '.#'] = lambda X, idx: N + 1 if self._mine(idx) else None
        own = z3.Function('kpf_owner', I, I)
        X.injective['B:' + kvec.key + '[]'] = (1, own)
        self.own = own
        X.nonnull[kvec.key + '[]'] = lambda idx: self._mine(idx)
        X.ptrfacts[kvec.key + '[]'] = lambda t, idx: own(t) == idx[1]
        for f in self.ptr_members():         # the constructor rejects null models and cost functions
            X.nonnull['H:' + self.kcls + '.' + f['n']] = lambda idx: True
        # trajectories
        zf = [f for f in fields(X.prog, cls, lambda f: self.tcls in f['t'])]
        sh = [f for f in zf if 'shared_ptr' in f['t']]
        un = [f for f in zf if 'unique_ptr' in f['t']]
        if len(sh) != 1 or len(un) != 1:
            raise Unsupported('trajectory members')
        self.zfield, self.zbfield = sh[0]['n'], un[0]['n']
        self.Zref = X.load(X.fieldof(this, self.zfield))
        self.Zbref = X.load(X.fieldof(this, self.zbfield))
        x0f = one_field(X, this, lambda f: 'shared_ptr<' + VEC in f['t'], 'initial state')
        self.x0ref = X.load(x0f)
        X.assume(z3.And(self.Zref > 0, self.Zbref > 0, self.Zref != self.Zbref, self.x0ref > 0))
        for r in (self.Zref, self.Zbref):
            X.dyn[r.get_id()] = (r, self.tcls)
        tk = f'H:{self.tcls}.{self.tvec}.#'
        X.aliastab[tk] = lambda X, idx: N + 1 if any(idx[0].eq(r) for r in (self.Zref, self.Zbref)) else None
        X.dimtab['H:' + VEC] = lambda X, idx: (self.n, z3.IntVal(1)) if idx[0].eq(self.x0ref) else None
        X.dimtab[self._key('GetCosts')] = \
            lambda X, idx: (N + 1, z3.IntVal(1)) if self._mine(idx) else None
        g = [f for f in fields(X.prog, cls, lambda f: strip(f['t']) == VEC) if self._fkey(f) != self._key('GetCosts')]
        if len(g) == 1:
            X.dimtab[self._fkey(g[0])] = lambda X, idx: (N, z3.IntVal(1)) if self._mine(idx) else None
        self.stats = call(X, cls, 'GetStats', this, const=False)
        self.opts = call(X, cls, 'GetOptions', this, const=False)
        tm = call(X, self.stats.typ, 'GetTimer', self.stats, const=False) if isinstance(self.stats, LV) else None
        if isinstance(tm, LV):
            X.nonnull[tm.key] = lambda idx: True         # every SolverStats owns a timer from its constructor on
        self.init_stats()
        return this

    def has(self, fld):
        return bool(fields(self.X.prog, self.cls, lambda f: f['n'] == fld))

    def _mine(self, idx):
        return len(idx) >= 1 and idx[0].eq(self.this.idx[0])

    def _fkey(self, f):
        return self.X.fieldof(self.this, f['n']).key

    def _key(self, name):
        """memory key of the member a public accessor reads (in the pre-state, without aliases)"""
        if name not in self.keys:
            X = self.X
            cur, X.mem = X.mem, {}
            al, X.base_alias = X.base_alias, []
            X.nofork += 1
            try:
                v = call(X, self.cls, name, self.this)
            finally:
                X.mem, X.base_alias = cur, al
                X.nofork -= 1
            if isinstance(v, LV):
                self.keys[name] = v.key
            elif is_z(v) and v.decl().name().startswith('B:'):
                self.keys[name] = v.decl().name()[2:]
            else:
                raise Unsupported('accessor does not read a member: ' + name)
        return self.keys[name]

    # ---- statistics (contract of SolverStats, proved in P18)
    def sv(self, name):
        return self.X.fieldof(self.stats, name)

    def init_stats(self):
        X = self.X
        self.len0 = z3.Int('stats_len')
        X.assume(self.len0 >= 0)
        for v in TRACKED.values():
            k = self.sv(v).key + '.#'
            X.aliastab[k] = lambda X, idx: self.len0
        stats_contracts(X)

    def ptr_members(self):
        return [f for f in fields(self.X.prog, self.kcls, lambda f: "shared_ptr" in f["t"])]

    def hist_last(self, name, back=0):
        X = self.X
        v = self.sv(name)
        return X.load(LV(v.key + '[]', v.idx + (X.load(v.sub('.#', 'int')) - 1 - back,), 'double'))

    def hist_len(self, name):
        return self.X.load(self.sv(name).sub('.#', 'int'))

    # ---- observers
    def opt(self, name):
        return self.X.load(self.X.fieldof(self.opts, name))

    def status(self):
        return call(self.X, self.cls, 'GetStatus', self.this)

    def st(self, name):
        return z3.IntVal(ENUM(self.X.prog, STATUS + name))

    def rho(self):
        return call(self.X, self.cls, 'GetRegularization', self.this)

    def drho_lv(self):
        X = self.X
        rk = self._key('GetRegularization')
        fs = [f for f in fields(X.prog, self.cls, lambda f: strip(f['t']) == 'double') if self._fkey(f) != rk]
        if len(fs) != 1:
            raise Unsupported('regularisation growth member')
        return X.fieldof(self.this, fs[0]['n'])

    def rho_lv(self):
        X = self.X
        rk = self._key('GetRegularization')
        return LV(rk, self.this.idx, 'double')

    def dV_lv(self):
        return one_field(self.X, self.this, lambda f: strip(f['t']).startswith('std::array<double, 2'), 'expected decrease')

    def dV(self):
        lv = self.dV_lv()
        return [self.X.load(LV(lv.key + '[]', lv.idx + (z3.IntVal(i),), 'double')) for i in (0, 1)]

    def kpf(self, k):
        lv = call(self.X, self.cls, 'GetKnotPointFunction', self.this, k)
        return KPF(self.X, lv, self.kcls)

    def Z(self):
        return LV('H:' + self.tcls, (self.Zref,), self.tcls)

    def Zbar(self):
        return LV('H:' + self.tcls, (self.Zbref,), self.tcls)

    def point(self, Z, k):
        return observe(self.X, self.pcls, call(self.X, self.tcls, 'GetKnotPoint', Z, k, const=False))

    def x0(self):
        return self.X.mget(LV('H:' + VEC, (self.x0ref,), VEC))

    def costs(self):
        return self.X.mget(call(self.X, self.cls, 'GetCosts', self.this))

    def model(self, k):
        """identity of the dynamics / cost objects of knot point k"""
        return self.X.load(self._ptr(k, 'DiscreteDynamics'))

    def costfun(self, k):
        return self.X.load(self._ptr(k, 'CostFunction'))

    def _ptr(self, k, what):
        lv = self.kpf(k).this
        fs = fields(self.X.prog, self.kcls, lambda f: what in f['t'] and 'shared_ptr' in f['t'])
        if len(fs) != 1:
            raise Unsupported('member for ' + what)
        return self.X.fieldof(lv, fs[0]['n'])

    def dyn(self, k, x, u, t, h):
        d = U_dyn(self.model(k), x, u, t, h)
        M._dims_cache[d.get_id()] = (d, (z3.simplify(self.n), z3.IntVal(1)))
        return d

    def cost(self, k, x, u):
        return U_cost(self.costfun(k), x, u)


def ENUM(prog, q):
    ty, nm = q.rsplit('::', 1)
    try:
        return int(prog.enums[ty][nm])
    except KeyError:
        raise Unsupported('enumerator ' + q)


def stats_contracts(X):
    """SolverStats::Log / NewIteration by contract (the contract is proved on the real code in P18)"""
    names = {}
    for t, f in TRACKED.items():
        names[X.intern(t).as_long()] = f

    def new_iteration(X, this, vals, f):
        grow(X, this)
        return None

    def grow(X, this):
        n = X.load(X.fieldof(this, 'cost').sub('.#', 'int'))
        for v in TRACKED.values():
            lv = X.fieldof(this, v)
            first = X.choose(n == 0)
            prev = z3.RealVal(0) if first else X.load(LV(lv.key + '[]', lv.idx + (z3.simplify(n - 1),), 'double'))
            X.store(lv.sub('.#', 'int'), z3.simplify(n + 1))
            X.store(LV(lv.key + '[]', lv.idx + (z3.simplify(n),), 'double'), prev)

    def log(X, this, vals, f):
        title, val = vals
        t = X.load(title) if isinstance(title, LV) else title
        n = X.load(X.fieldof(this, 'cost').sub('.#', 'int'))
        if X.choose(n == 0):
            grow(X, this)
            n = z3.IntVal(1)
        t = z3.simplify(t)
        if not z3.is_int_value(t):
            raise Unsupported('logging under a computed title')
        fld = names.get(t.as_long())
        if fld is None:
            return None
        v = X.load(val) if isinstance(val, (LV, ElemLV)) else val
        lv = X.fieldof(this, fld)
        X.store(LV(lv.key + '[]', lv.idx + (z3.simplify(n - 1),), 'double'), zr(v))
        return None
    X.contracts['altro::SolverStats::Log'] = [(lambda f: True, log)]
    X.contracts['altro::SolverStats::NewIteration'] = [(lambda f: True, new_iteration)]
    X.contracts['altro::SolverStats::PrintLast'] = [(lambda f: True, lambda X, this, vals, f: None)]


def launch_contract(X, S):
    """(Re)starting the worker threads changes nothing a serial observer sees of the problem data (its frame is proved in P13)"""
    X.contracts[S.cls + '::LaunchThreads'] = [(lambda f: True, lambda X, this, vals, f: None)]


ROLL_OK = z3.Function('roll_ok', R, B)
ROLL_ST = z3.Function('roll_hit_state_limit', R, B)
ROLL_X = z3.Function('roll_state', R, I, Mat)
ROLL_U = z3.Function('roll_control', R, I, Mat)


def rollout_contract(X, S):
    """RolloutClosedLoop(alpha) by contract: the trial states and controls become the closed-loop rollout at that step length
    (its contents are proved in P05), the status says whether it was accepted, nothing else changes"""
    N = lambda: S.N
    M.KNOWN_DIMS.append(lambda t: {'roll_state': (S.n, z3.IntVal(1)), 'roll_control': (S.m, z3.IntVal(1))}.get(t.decl().name()))

    def region(key, ref, fn):
        prev = X.fmap(key, 'mat')

        def cond(q):
            return z3.And(q[0] == ref, q[1] >= 0, q[1] <= S.N)
        r = Fn(prev, cond, lambda q: fn(q[1]), 'rollout')
        r.nidx, r.pat = 2, [ref, None]
        X.mem[key] = r

    def roll(X, this, vals, f):
        a = sval(X, vals[0])
        zb = S.Zbar()
        p = call(X, S.tcls, 'GetKnotPoint', zb, z3.IntVal(0), const=False)
        region(call(X, S.pcls, 'State', p, const=False).key, S.Zbref, lambda k: ROLL_X(a, k))
        region(call(X, S.pcls, 'Control', p, const=False).key, S.Zbref, lambda k: ROLL_U(a, k))
        st = LV(S._key('GetStatus'), this.idx, 'altro::SolverStatus')
        if X.choose(ROLL_OK(a)):
            X.store(st, S.st('kUnsolved'))
            return z3.BoolVal(True)
        X.store(st, z3.If(ROLL_ST(a), S.st('kStateLimit'), S.st('kControlLimit')))
        return z3.BoolVal(False)
    X.contracts[S.cls + '::RolloutClosedLoop'] = [(lambda f: True, roll)]


def solver(job, sz):
    X = new_interp(job.prog)
    return X, Solver(X, sz)


# ------------------------------------------------------------ contracts of KnotPointFunctions (proved in P01)
QF = {'dxdx': z3.Function('lqr_Qxx', Mat, Mat, Mat, Mat), 'dxdu': z3.Function('lqr_Qxu', Mat, Mat, Mat, Mat, Mat),
      'dudu': z3.Function('lqr_Quu', Mat, Mat, Mat, Mat), 'dx': z3.Function('lqr_Qx', Mat, Mat, Mat, Mat),
      'du': z3.Function('lqr_Qu', Mat, Mat, Mat, Mat)}
F_K = z3.Function('lqr_K', Mat, Mat, Mat)
F_d = z3.Function('lqr_d', Mat, Mat, Mat)
F_S = z3.Function('lqr_S', Mat, Mat, Mat, Mat, Mat)
F_s = z3.Function('lqr_s', Mat, Mat, Mat, Mat, Mat, Mat, Mat)
F_d1 = z3.Function('lqr_d1', Mat, Mat, R)
F_d2 = z3.Function('lqr_d2', Mat, Mat, R)


def step_q(L, A, Bm, S, s):
    """names for the entries of lqr_q"""
    return {'dxdx': QF['dxdx'](L['dxdx'], A, S), 'dxdu': QF['dxdu'](L['dxdu'], A, Bm, S), 'dudu': QF['dudu'](L['dudu'], Bm, S),
            'dx': QF['dx'](L['dx'], A, s), 'du': QF['du'](L['du'], Bm, s)}


def step_gain(Q, rho, m):
    """names for the gains of the regularised step: (Quu + rho I) K = -Qux, (Quu + rho I) d = -Qu"""
    reg = M.add(Q['dudu'], M.scale(rho, M.ident(m, m)))
    return reg, F_K(reg, Q['dxdu']), F_d(reg, Q['du'])


def step_value(Q, K, d):
    """names for lqr_value"""
    return (F_S(Q['dxdx'], Q['dudu'], Q['dxdu'], K), F_s(Q['dx'], Q['dudu'], Q['du'], Q['dxdu'], K, d),
            F_d1(d, Q['du']), F_d2(d, Q['dudu']))


def step_dims(n, m):
    one = z3.IntVal(1)
    tab = {'lqr_Qxx': (n, n), 'lqr_Qxu': (n, m), 'lqr_Quu': (m, m), 'lqr_Qx': (n, one), 'lqr_Qu': (m, one),
           'lqr_K': (m, n), 'lqr_d': (m, one), 'lqr_S': (n, n), 'lqr_s': (n, one)}
    return lambda t: tab.get(t.decl().name())


def step_contracts(X, S):
    """the KnotPointFunctions methods by contract: a caller sees the named LQR step, whose formulas P01 proves"""
    from ..builtins import F_posdef
    cls = S.kcls
    M.KNOWN_DIMS.append(step_dims(S.n, S.m))

    def view(X, this):
        return KPF(X, this, cls)

    def q(X, this, vals, f):
        k = view(X, this)
        A, Bm = k.AB()
        W = step_q(k.exp('GetCostExpansion'), A, Bm, X.mget(vals[0]), X.mget(vals[1]))
        for nm, lv in k.explv('GetActionValueExpansion').items():
            X.mset(lv, W[nm])

    def reg(X, this, vals, f):
        k = view(X, this)
        Q = k.exp('GetActionValueExpansion')
        rho = sval(X, vals[0])
        Q['dudu'] = M.add(Q['dudu'], M.scale(rho, M.ident(S.m, S.m)))
        for nm, lv in k.explv('GetActionValueExpansionRegularized').items():
            X.mset(lv, Q[nm])

    def gains(X, this, vals, f):
        k = view(X, this)
        Q = k.exp('GetActionValueExpansionRegularized')
        if X.choose(F_posdef(Q['dudu'])):
            X.mset(k.lv('GetFeedbackGain'), F_K(Q['dudu'], Q['dxdu']))
            X.mset(k.lv('GetFeedforwardGain'), F_d(Q['dudu'], Q['du']))
            return z3.IntVal(0)
        return z3.IntVal(1)

    def value(X, this, vals, f):
        k = view(X, this)
        Q = k.exp('GetActionValueExpansion')
        Sm, s, d1, d2 = step_value(Q, k.mat('GetFeedbackGain'), k.mat('GetFeedforwardGain'))
        X.mset(k.lv('GetCostToGoHessian'), Sm)
        X.mset(k.lv('GetCostToGoGradient'), s)
        from .p01 import delta_lvs, deltas
        lvs = delta_lvs(X, k)
        if len(lvs) != 1:
            raise Unsupported('storage of the expected change')
        put = lambda vs: [X.store(LV(lvs[0].key + '[]', lvs[0].idx + (z3.IntVal(i),), 'double'), v) for i, v in enumerate(vs)]
        t1, t2 = z3.Reals('d1! d2!')
        put((t1, t2))
        got, a = deltas(X, k)
        if M.sp_add(M.spoly(got), M.spoly(a * t1 + a * a * t2), -1):
            raise Unsupported('expected change is not stored as its two coefficients')
        put((d1, d2))

    def addto(X, this, vals, f):
        k = view(X, this)
        from .p01 import deltas
        got, a = deltas(X, k)
        at = lambda v: z3.substitute(got, (a, z3.RealVal(v)))
        d1, d2 = M.rnorm((at(1) - at(-1)) / 2), M.rnorm((at(1) + at(-1)) / 2)
        arr = vals[0] if isinstance(vals[0], PtrVal) else X.load(vals[0])
        arr = arr.lv
        for i, v in enumerate((d1, d2)):
            lv = LV(arr.key + '[]', arr.idx + (z3.IntVal(i),), 'double')
            X.store(lv, M.rnorm(X.load(lv) + v))

    always = lambda f: True
    X.contracts[cls + '::CalcActionValueExpansion'] = [(always, q)]
    X.contracts[cls + '::RegularizeActionValue'] = [(always, reg)]
    X.contracts[cls + '::CalcGains'] = [(always, gains)]
    X.contracts[cls + '::CalcCostToGo'] = [(always, value)]
    X.contracts[cls + '::AddCostToGo'] = [(lambda f: 'array' in f['params'][0]['t'], addto)]
