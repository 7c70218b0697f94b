"""Spec-side view of constraint values and the augmented-Lagrangian cost."""
from .common import *
from .p15 import call

ASSUME = ["a constraint's Jacobian and value depend only on the constraint object and the point (its Jacobian writes every entry it "
          "does not leave at the initial zero)",
          'the constraint object given at construction is not null and keeps its output dimension',
          'penalties are positive where a formula divides by them (SetPenalty also accepts zero)']
NS = 'altro::constraints::'
CONES = {'eq': NS + 'ZeroCone', 'ineq': NS + 'NegativeOrthant'}
U_cJ = z3.Function('conJ', I, Mat, Mat, Mat)
PJ = {'ZeroCone': z3.Function('PJ_zero', Mat, Mat), 'IdentityCone': z3.Function('PJ_identity', Mat, Mat),
      'NegativeOrthant': z3.Function('PJ_neg', Mat, Mat)}
DUAL = {'eq': 'IdentityCone', 'ineq': 'NegativeOrthant'}


def cv(kind):
    return f'altro::constraints::ConstraintValues<-1, -1, {CONES[kind]}>'


def proj(cone, x):
    """Euclidean projection (P10 proves the code's Projection equals it)"""
    if cone == 'IdentityCone':
        return x
    if cone == 'ZeroCone':
        return M.zero(*M.dims(x))
    return M.ew(lambda a: z3.If(a < 0, a, z3.RealVal(0)), x)


def pjac(cone, x):
    n = M.rows(x)
    if cone == 'IdentityCone':
        return M.ident(n, n)
    if cone == 'ZeroCone':
        return M.zero(n, n)
    t = PJ[cone](x)
    M._dims_cache[t.get_id()] = (t, (z3.simplify(n), z3.simplify(n)))
    return t


def cone_contracts(X, pjkey):
    """the cones by contract (P10). Jacobian of the orthant writes only the diagonal: its result is the projection Jacobian when
    the buffer is zero off the diagonal, which holds for the buffers in pjkey (class invariant: zero from the constructor on and
    written by Jacobian only)"""
    M.KNOWN_DIMS.append(lambda t: (M.rows(t.arg(0)), M.rows(t.arg(0))) if t.decl().name().startswith('PJ_') else None)
    for cone in PJ:
        def p(X, this, vals, f, cone=cone):
            fits(X, vals[1], M.rows(X.mget(vals[0])), z3.IntVal(1))
            X.mset(vals[1], proj(cone, X.mget(vals[0])))

        def j(X, this, vals, f, cone=cone):
            if cone == 'NegativeOrthant':
                k = getattr(vals[1], 'key', None)
                if k not in pjkey:
                    raise Unsupported('projection Jacobian into another buffer than the one kept diagonal')
            n = M.rows(X.mget(vals[0]))
            fits(X, vals[1], n, n)
            X.mset(vals[1], pjac(cone, X.mget(vals[0])))
        X.contracts[NS + cone + '::Projection'] = [(lambda f: True, p)]
        X.contracts[NS + cone + '::Jacobian'] = [(lambda f: True, j)]


def con_virtuals(X):
    """constraint Jacobians as functions of object and point"""
    old = X.virtual['Jacobian']

    def jac(X, f, o, vals):
        if len(vals) == 3:
            x, u, out = vals
            xm, um = X.mget(x), X.mget(u)
            fits(X, out, U_odim(oref(o)), z3.simplify(M.rows(xm) + M.rows(um)))
            wr(X, out, lambda p: U_cJ(oref(o), xm, um))
            return None
        return old(X, f, o, vals)
    X.virtual['Jacobian'] = jac


class CV:
    """pre-state of one ConstraintValues object and its observers"""

    def __init__(self, X, kind, prefix=None):
        self.X, self.kind, self.cls = X, kind, cv(kind)
        prog = X.prog
        self.n, self.m = z3.Ints('n m')
        self.con = z3.Int('con')
        self.p = U_odim(self.con)
        cls = self.cls
        con_virtuals(X)
        f = [g for g in prog.by_cls.get(cls, []) if g['kind'] == 'CXXConstructor' and g.get('body') is not None and len(g['params']) == 3]
        if len(f) != 1:
            raise Unsupported('constructor of ' + cls)
        self.ctor = f[0]
        self.dimsof, self.intsof, self.init = cv_layout(prog, cls, self.ctor)
        for path, (key, lt) in self.leaves().items():
            if path in self.dimsof:
                r, c = self.dimsof[path]
                X.dimtab[key] = lambda X, idx, r=r, c=c: tuple(z3.simplify(self.sub(v)) for v in (r, c))
            if path in self.intsof:
                X.aliastab[key] = lambda X, idx, s=self.intsof[path]: self.sub(s)
        cf = [g for g in prog.recs[cls]['fields'] if 'shared_ptr' in g['t']]
        if len(cf) != 1:
            raise Unsupported('constraint member')
        self.ckey = f'H:{cls}.{cf[0]["n"]}'
        X.aliastab[self.ckey] = lambda X, idx: self.con if self.mine(idx) else None
        self.pjkey = set()
        for path, (key, lt) in self.leaves().items():
            if path in self.dimsof and all(v.eq(INVP) for v in self.dimsof[path]) and self.init[path] == 'zero':
                self.pjkey.add(key)
        cone_contracts(X, self.pjkey)
        known = U_cJ.name()
        M.KNOWN_DIMS.append(lambda t: (self.p, self.n + self.m) if t.decl().name() == known else
                            (self.p, z3.IntVal(1)) if t.decl().name() == 'constraint' else None)

    def sub(self, v):
        return z3.substitute(v, (INVN, self.n), (INVM, self.m), (INVP, self.p))

    def mine(self, idx):
        return True

    def leaves(self):
        return {path: (key, lt) for key, path, lt in field_leaves(self.X, LV('H:' + self.cls, (), self.cls), True)}

    def make(self):
        X = self.X
        X.assume(z3.And(self.n > 0, self.m > 0, self.p > 0, self.con > 0))
        self.this = obj(X, self.cls, 'conval')
        return self.this

    def acc(self, name):
        return call(self.X, self.cls, name, self.this, const=False)

    def mat(self, name):
        return self.X.mget(self.acc(name))

    def duals(self):
        return self.mat('GetDuals')

    def pen(self):
        return self.mat('GetPenalty')

    def c(self):
        return self.mat('GetConstraintValue')

    def scaling(self):
        return call(self.X, self.cls, 'GetPenaltyScaling', self.this)

    def scratch(self):
        """members that hold no state: every matrix member except the observable ones"""
        return []

    def point(self):
        return [vec_arg(self.X, 'x', self.n), vec_arg(self.X, 'u', self.m)]

    def val(self, x, u):
        return U_con(self.con, x, u)

    def J(self, x, u):
        return U_cJ(self.con, x, u)


INVN, INVM, INVP = z3.Ints('cv_n cv_m cv_p')


class ALC:
    """pre-state of an augmented-Lagrangian cost over its constraint values"""
    cls = 'altro::augmented_lagrangian::ALCost<-1, -1>'

    def __init__(self, X):
        self.X = X
        self.n, self.m = z3.Ints('n m')
        self.cost = z3.Int('costfun')
        self.cnt = {'eq': z3.Int('num_eq'), 'ineq': z3.Int('num_ineq')}
        prog, cls = X.prog, self.cls
        inv = ClassInv(prog, cls, lambda g: len(g['params']) == 2 and g['params'][0]['t'].replace('const ', '') == 'int',
                       lambda X, n, m: [X.temp('int', n), X.temp('int', m)])
        self.inv = inv
        # the per-constraint scratch vectors are sized by the setters, not the constructor
        self.tmp = [pth for pth, (r, c) in list(inv.mats.items()) if not any(v.eq(s) for v in (r, c) for s in (inv.n, inv.m))]
        for pth in self.tmp:
            inv.mats.pop(pth)
        for pth in self.tmp:            # one entry per constraint of its kind (SetEqualityConstraints / SetInequalityConstraints)
            kind = 'ineq' if 'ineq' in pth else 'eq' if 'eq' in pth else None
            if kind is None:
                raise Unsupported('per-constraint scratch vector')
            X.dimtab[f'H:{cls}{pth}'] = lambda X, idx, kind=kind: (self.cnt[kind], z3.IntVal(1))
        kn, km = inv.register(X, 'H:' + cls, True)
        X.aliastab[kn] = lambda X, idx: self.n
        X.aliastab[km] = lambda X, idx: self.m
        self.vecs = {}
        for kind in ('eq', 'ineq'):
            fs = [g for g in prog.recs[cls]['fields'] if strip(g['t']).startswith('std::vector<') and CONES[kind] in g['t']]
            if len(fs) != 1:
                raise Unsupported('constraint list of ' + cls)
            key = f'H:{cls}.{fs[0]["n"]}'
            self.vecs[kind] = key
            X.aliastab[key + '.#'] = lambda X, idx, kind=kind: self.cnt[kind]
            own = z3.Function('cv_owner_' + kind, I, I)
            X.injective['B:' + key + '[]'] = (1, own)
            X.nonnull[key + '[]'] = lambda idx: True
            X.ptrfacts[key + '[]'] = lambda t, idx, own=own: own(t) == idx[1]
        cf = [g for g in prog.recs[cls]['fields'] if 'shared_ptr' in g['t'] and 'CostFunction' in g['t']]
        if len(cf) != 1:
            raise Unsupported('cost member')
        X.aliastab[f'H:{cls}.{cf[0]["n"]}'] = lambda X, idx: self.cost

    def make(self):
        X = self.X
        X.assume(z3.And(self.n > 0, self.m > 0, self.cost > 0, self.cnt['eq'] >= 0, self.cnt['ineq'] >= 0))
        self.this = obj(X, self.cls, 'alcost')
        return self.this

    def con(self, kind, i):
        """identity of the i-th constraint-value object"""
        return self.X.load(LV(self.vecs[kind] + '[]', self.this.idx + (i,), f'std::shared_ptr<{cv(kind)}>'))

    def conlv(self, kind, i):
        return LV('H:' + cv(kind), (self.con(kind, i),), cv(kind))


def cv_layout(prog, cls, f):
    """sizes and constant members established by the constructor, as functions of (n, m, output dimension)"""
    X = Interp(prog)
    install(X)
    std_virtuals(X)
    con = z3.Int('cv_con')
    X.virtual['OutputDimension'] = lambda X, f, o, vals: INVP
    res = []

    def one():
        X.assume(z3.And(INVN > 0, INVM > 0, INVP > 0, con > 0))
        ref = z3.Int('cv_this')
        this = LV('H:' + cls, (ref,), cls)
        X.dyn[ref.get_id()] = (ref, cls)
        try:
            X.run_ctor(this, f, [X.temp('int', INVN), X.temp('int', INVM), X.temp(strip(f['params'][2]['t']), con)])
        except Abort:
            return
        mats, ints, init = {}, {}, {}
        for key, path, lt in field_leaves(X, this):
            k = X.T.kind(lt)
            lv = LV(key, this.idx, lt)
            if k == 'mat':
                v = X.load(lv)
                mats[path] = tuple(z3.simplify(d) for d in M.dims(v))
                init[path] = 'zero' if M.dn(v) == 'mzero' or not M.mpoly(v) else 'other'
            elif k == 'int':
                v = X.load(lv)
                for s in (INVN, INVM):
                    if z3.simplify(v - s).eq(z3.IntVal(0)):
                        ints[path] = s
        res.append((mats, ints, init))
    X.paths(one)
    if len(res) != 1:
        raise Unsupported('constructor of ' + cls)
    return res[0]


class ALS:
    """pre-state of the constrained solver over its augmented costs"""
    cls = 'altro::augmented_lagrangian::AugmentedLagrangianiLQR<-1, -1>'
    icls = 'altro::ilqr::iLQR<-1, -1>'

    def __init__(self, X):
        self.X = X
        self.N = z3.Int('N')
        prog, cls = X.prog, self.cls
        fs = [g for g in prog.recs[cls]['fields'] if strip(g['t']).startswith('std::vector<') and 'ALCost' in g['t']]
        if len(fs) != 1:
            raise Unsupported('list of augmented costs')
        key = self.vkey = f'H:{cls}.{fs[0]["n"]}'
        X.aliastab[key + '.#'] = lambda X, idx: self.N + 1
        own = z3.Function('alcost_owner', I, I)
        X.injective['B:' + key + '[]'] = (1, own)
        X.nonnull[key + '[]'] = lambda idx: True
        X.ptrfacts[key + '[]'] = lambda t, idx: own(t) == idx[1]
        self.this = LV('H:' + cls, (z3.Int('alsolver'),), cls)
        for g in prog.recs[cls]['fields']:
            if strip(g['t']) == VEC:        # per knot point scratch, sized by the constructor
                X.dimtab[f'H:{cls}.{g["n"]}'] = lambda X, idx: (self.N + 1, z3.IntVal(1))
        self.keys = {}

    def key(self, name):
        X = self.X
        if name not in self.keys:
            cur, X.mem = X.mem, {}
            al, X.base_alias = X.base_alias, []
            X.nofork += 1
            try:
                v = call(X, self.cls, name, self.this)
            finally:
                X.mem, X.base_alias = cur, al
                X.nofork -= 1
            if isinstance(v, LV):
                self.keys[name] = v.key
            elif is_z(v) and v.decl().name().startswith('B:'):
                self.keys[name] = v.decl().name()[2:]
            else:
                raise Unsupported('accessor does not read a member: ' + name)
        return self.keys[name]

    def make(self):
        from .ilqrlib import stats_contracts, TRACKED
        X = self.X
        X.assume(self.N >= 1)
        this = self.this = obj(X, self.cls, 'alsolver')
        X.aliastab[self.key('NumSegments')] = lambda X, idx: self.N
        self.stats = call(X, self.cls, 'GetStats', this, const=False)
        self.opts = call(X, self.cls, 'GetOptions', this, const=False)
        self.ilqr = call(X, self.cls, 'GetiLQRSolver', this, const=False)
        tm = call(X, self.stats.typ, 'GetTimer', self.stats, const=False)
        X.nonnull[tm.key] = lambda idx: True
        self.len0 = z3.Int('stats_len')
        X.assume(self.len0 >= 0)
        for v in TRACKED.values():
            X.aliastab[self.sv(v).key + '.#'] = lambda X, idx: self.len0
        stats_contracts(X)
        return this

    def sv(self, name):
        return self.X.fieldof(self.stats, name)

    def hist_last(self, name, back=0):
        X = self.X
        v = self.sv(name)
        return X.load(LV(v.key + '[]', v.idx + (X.load(v.sub('.#', 'int')) - 1 - back,), 'double'))

    def hist_len(self, name):
        return self.X.load(self.sv(name).sub('.#', 'int'))

    def cost(self, k):
        """identity of the augmented cost of knot point k"""
        return self.X.load(LV(self.vkey + '[]', self.this.idx + (k,), f'std::shared_ptr<{ALC.cls}>'))

    def opt(self, name):
        return self.X.load(self.X.fieldof(self.opts, name))

    def status(self):
        return call(self.X, self.cls, 'GetStatus', self.this)

    def st(self, name):
        from .ilqrlib import ENUM
        return z3.IntVal(ENUM(self.X.prog, 'altro::SolverStatus::' + name))


def free_var(t, depth=0):
    if z3.is_var(t):
        return z3.get_var_index(t) >= depth
    if z3.is_quantifier(t):
        return free_var(t.body(), depth + t.num_vars())
    return any(free_var(q, depth) for q in t.children())


def max_facts(X, term, at=(), depth=3):
    """defining facts of the maxima in a term: zero when empty (Eigen's norm of an empty vector), otherwise no smaller than the
    entries at the given indices and equal to the entry at some index; returns those witness indices"""
    from ..vc import atoms, dnm
    wit, done, todo = [], set(), [(zr(term), depth)]
    while todo:
        t, d = todo.pop()
        for q in atoms(t, lambda q: dnm(q) == 'fmax' and not free_var(q)):
            if q.get_id() in done:
                continue
            done.add(q.get_id())
            lo, hi, f = q.children()
            w = X.fresh('argmax', I)
            wit.append(w)
            at_ = lambda i: z3.simplify(z3.Select(f, i))
            X.assume(z3.If(hi > lo, z3.And(w >= lo, w < hi, q == at_(w)), q == 0))
            bodies = [at_(w)]
            for i in at:
                b = at_(i)
                bodies.append(b)
                X.assume(z3.Implies(z3.And(i >= lo, i < hi), q >= b))
            if d > 1:
                todo += [(b, d - 1) for b in bodies]
    return wit


def is_max(c, what, r, families):
    """r is the largest of the non-negative values family(i), 0 <= i < n, over all families (zero if there is none)"""
    X = c.X
    max_reached(c, what, r, families)
    for nm, n, f in families:
        i = X.fresh('mi', I)
        facts = len(X.facts)
        X.assume(z3.And(i >= 0, i < n, f(i) >= 0))
        max_facts(X, r, [i, z3.simplify(n - 1 - i)])
        c.holds(f'{what}: not smaller than that of any {nm}', zr(r) >= f(i))


def max_reached(c, what, r, families):
    X = c.X
    r = zr(r)
    wit = max_facts(X, r)
    alts = [r == 0]
    for nm, n, f in families:
        for w in wit:
            for v in (w, z3.simplify(n - 1 - w)):       # the code may run through the family in either order
                X.assume(z3.Implies(z3.And(v >= 0, v < n), f(v) >= 0))
                alts.append(z3.And(v >= 0, v < n, r == f(v)))
    c.holds(f'{what}: zero or that of one of them', z3.Or(*alts))
