"""Shared set-up: representation invariants read off the constructors, object creation, virtual user functions."""
import z3
from .. import mat as M
from ..core import *
from ..sym import Interp
from ..vc import Job, verify, Prover, Ctx

DYN = 'Eigen::Matrix<double, -1, -1, 0, -1, -1>'
VEC = 'Eigen::Matrix<double, -1, 1, 0, -1, 1>'


def V(t):
    return strip(t)


class ClassInv:
    """dimension invariant of a class, computed by running its dimension constructor symbolically:
    every matrix member's size and every integer member that repeats a dimension, as a function of (n, m)"""

    def __init__(self, prog, cls, pred, args):
        self.cls = cls
        X = Interp(prog)
        std_virtuals(X)
        self.mats, self.ints = {}, {}
        n, m = z3.Int('inv_n'), z3.Int('inv_m')
        self.n, self.m = n, m
        f = [g for g in prog.by_cls.get(cls, []) if g['kind'] == 'CXXConstructor' and g.get('body') is not None and pred(g)]
        if len(f) != 1:
            raise Unsupported(f'dimension constructor of {cls}: {len(f)} candidates')
        f = f[0]
        res = []

        def one():
            X.assume(z3.And(n > 0, m > 0))
            ref = z3.Int('inv_this')
            this = LV('H:' + cls, (ref,), cls)
            X.dyn[ref.get_id()] = (ref, cls)
            vals = args(X, n, m)
            try:
                X.run_ctor(this, f, vals)
            except Abort as a:
                return
            mats, ints = {}, {}
            for key, path, lt in field_leaves(X, this):
                k = X.T.kind(lt)
                lv = LV(key, this.idx, lt)
                if k == 'mat':
                    r, c = M.dims(X.load(lv))
                    mats[path] = (r, c)
                elif k == 'int':
                    v = X.load(lv)
                    for s in (n, m):
                        if z3.simplify(v - s).eq(z3.IntVal(0)):
                            ints[path] = s
            res.append((mats, ints))
        X.paths(one)
        if not res:
            raise Unsupported('constructor of ' + cls + ' has no completing path')
        self.mats, self.ints = res[0]
        for mats, ints in res[1:]:
            for p in list(self.mats):
                if p not in mats or not (mats[p][0].eq(self.mats[p][0]) and mats[p][1].eq(self.mats[p][1])):
                    self.mats.pop(p)
            for p in list(self.ints):
                if p not in ints or not ints[p].eq(self.ints[p]):
                    self.ints.pop(p)

    def root_paths(self):
        """paths (in self.ints) that denote n and m, the shortest first"""
        out = []
        for s in (self.n, self.m):
            c = sorted([p for p, v in self.ints.items() if v.eq(s)], key=lambda p: (p.count('.'), len(p)))
            out.append(c[0] if c else None)
        return out

    def register(self, X, prefix, isroot):
        """install dimension rules for an object of this class stored under `prefix`"""
        cls = self.cls
        names = {}
        for key, path, lt in field_leaves(X, LV(prefix, (), cls), isroot):
            names[path] = (key, lt)
        pn, pm = self.root_paths()
        if pn is None or pm is None:
            raise Unsupported('no dimension members in ' + cls)
        kn, km = names[pn][0], names[pm][0]

        def dimvals(X, idx):
            return X.base_read(Base(kn, 'int'), idx), X.base_read(Base(km, 'int'), idx)

        for path, (r, c) in self.mats.items():
            if path not in names:
                continue
            key = names[path][0]

            def rule(X, idx, r=r, c=c):
                vn, vm = dimvals(X, idx)
                return (z3.simplify(z3.substitute(r, (self.n, vn), (self.m, vm))),
                        z3.simplify(z3.substitute(c, (self.n, vn), (self.m, vm))))
            X.dimtab[key] = rule
        for path, s in self.ints.items():
            if path in (pn, pm) or path not in names:
                continue
            X.aliastab[names[path][0]] = (kn if s.eq(self.n) else km)
        return kn, km


def field_leaves(X, this, isroot=True):
    """[(memory key, path, leaf type)] of the index-free leaves of an object"""
    out = []

    def go(lv, path):
        cls = strip(lv.typ)
        for b in X.prog.bases(cls):
            for f in X.prog.recs[b]['fields']:
                if isroot and lv is this:
                    d = LV('H:' + b + '.' + f['n'], lv.idx, strip(f['t']))
                else:
                    d = LV(lv.key + '.' + f['n'], lv.idx, strip(f['t']))
                k = X.T.kind(f['t'])
                p = path + '.' + f['n']
                if k == 'class':
                    if strip(f['t']) != cls:
                        go(d, p)
                elif k in ('vec', 'arr', 'map', 'pair'):
                    pass
                else:
                    out.append((d.key, p, strip(f['t'])))
    go(this, '')
    return out


def install(X):
    """dimension / alias tables as base hooks"""
    X.dimtab, X.aliastab = {}, {}

    def dim(X, key, idx):
        r = X.dimtab.get(key)
        return r(X, idx) if r else None
    X.dimrules.append(dim)

    def alias(X, key, idx, kind):
        k2 = X.aliastab.get(key)
        if k2 is not None:
            if callable(k2):
                return k2(X, idx)
            return X.base_read(Base(k2, kind), idx)
        return None
    X.base_alias.append(alias)


def known_dims(X):
    """dimensions of initial-memory matrix terms, found from the name of the memory map they read"""
    def h(t):
        nm = t.decl().name()
        if nm[:2] in ('B:', 'U:'):
            key = nm[2:]
            for rule in X.dimrules:
                d = rule(X, key, tuple(t.children()))
                if d is not None:
                    return d
            ty = X.baseinfo.get(key)
            if ty and X.T.kind(ty) == 'mat':
                r, c = X.T.matdims(ty)
                return (r if r >= 0 else None, c if c >= 0 else None)
        return None
    M.KNOWN_DIMS[:] = [h]


def new_interp(prog):
    M.reset()
    X = Interp(prog)
    install(X)
    known_dims(X)
    std_virtuals(X)
    return X


def obj(X, cls, name):
    """an existing object of class cls (exact dynamic class cls), address fixed and non-null"""
    ref = z3.Int(name)
    X.assume(z3.And(ref > 0, F_kind(ref) <= 0))
    X.dyn[ref.get_id()] = (ref, cls)
    return LV('H:' + cls, (ref,), cls)


def vec_arg(X, name, n, typ=VEC):
    t = z3.Const(name, Mat)
    M.reg_dims(t, n, 1)
    return X.temp(typ, t)


def mat_arg(X, name, r, c, typ=DYN):
    t = z3.Const(name, Mat)
    M.reg_dims(t, r, c)
    return X.temp(typ, t)


def real_arg(X, name):
    return X.temp('double', z3.Const(name, R))


def int_arg(X, name):
    return X.temp('int', z3.Const(name, I))


# ------------------------------------------------------------ user-supplied (virtual) functions
# value functions of the user's objects: uninterpreted, deterministic functions of object and arguments
U_cost = z3.Function('cost', I, Mat, Mat, R)
U_sdim = z3.Function('statedim', I, I)
U_cdim = z3.Function('controldim', I, I)
U_odim = z3.Function('outdim', I, I)
U_hess = z3.Function('hashessian', I, B)
U_label = z3.Function('label', I, I)
U_dyn = z3.Function('dynamics', I, Mat, Mat, R, R, Mat)
U_cdyn = z3.Function('contdyn', I, Mat, Mat, R, Mat)
U_con = z3.Function('constraint', I, Mat, Mat, Mat)


def wfun(name, *sorts):
    return z3.Function(name, *sorts)


# derivative writers: the value written may depend on what the buffer held (user code may update in place)
U_gradx = z3.Function('gradx', I, Mat, Mat, Mat, Mat)
U_gradu = z3.Function('gradu', I, Mat, Mat, Mat, Mat)
U_hxx = z3.Function('hessxx', I, Mat, Mat, Mat, Mat)
U_hxu = z3.Function('hessxu', I, Mat, Mat, Mat, Mat)
U_huu = z3.Function('hessuu', I, Mat, Mat, Mat, Mat)
U_djac = z3.Function('dynjac', I, Mat, Mat, R, R, Mat, Mat)
U_cjac = z3.Function('contjac', I, Mat, Mat, R, Mat, Mat)
U_conjac = z3.Function('conjac', I, Mat, Mat, Mat, Mat)


def oref(o):
    if isinstance(o, LV) and len(o.idx) == 1:
        return o.idx[0]
    raise Unsupported('user object identity')


def sval(X, v):
    if isinstance(v, (LV, ElemLV)):
        v = X.load(v)
    return zr(v)


def fits(X, out, r, c):
    """precondition of a function that writes through a reference: it cannot change the size of what it writes to"""
    r0, c0 = X.mdims(out)
    if not (M.same(r, r0) and M.same(c, c0)) and not X.choose(z3.And(r == r0, c == c0)):
        raise Abort('output buffer of another size', X.line)


def wr(X, dst, term_fn):
    """write through an output argument; value may depend on its previous content"""
    r, c = X.mdims(dst)
    prev = X.mget(dst)
    prev = norm_prev(prev)
    t = term_fn(prev)
    if not M.has_dims(t):
        M.reg_dims(t, None, None)
    M._decl_dims.pop(t.decl().name(), None)
    X.outdims[t.get_id()] = (t, (r, c))
    M._dims_cache[t.get_id()] = (t, (z3.simplify(r), z3.simplify(c)))
    X.mset(dst, t)


def norm_prev(p):
    if M.dn(p) == 'mzero' or not M.mpoly(p):
        return ZEROBUF
    return p


ZEROBUF = z3.Const('zerobuf', Mat)


def fits_jac(X, out, x, u):
    n = M.rows(X.mget(x))
    fits(X, out, n, z3.simplify(n + M.rows(X.mget(u))))


def std_virtuals(X):
    X.outdims = {}
    v = X.virtual

    def dims(X, f, o, vals):
        r = {'StateDimension': U_sdim, 'ControlDimension': U_cdim, 'OutputDimension': U_odim}[f['fn']](oref(o))
        e = X.eq_rep(r)
        return r if e is None else e
    v['StateDimension'] = v['ControlDimension'] = v['OutputDimension'] = dims

    def has_hess(X, f, o, vals):
        return U_hess(oref(o))
    v['HasHessian'] = has_hess

    def label(X, f, o, vals):
        return U_label(oref(o))
    v['GetLabel'] = label

    def evaluate(X, f, o, vals):
        k = len(vals)
        ty = strip(f['ret'])
        if ty == 'double':
            return U_cost(oref(o), X.mget(vals[0]), X.mget(vals[1]))
        if k == 5:
            x, u, t, h, out = vals
            wr(X, out, lambda p: U_dyn(oref(o), X.mget(x), X.mget(u), sval(X, t), sval(X, h)))
            return None
        if k == 4:
            x, u, t, out = vals
            fits(X, out, M.rows(X.mget(x)), z3.IntVal(1))
            wr(X, out, lambda p: U_cdyn(oref(o), X.mget(x), X.mget(u), sval(X, t)))
            return None
        if k == 3:
            x, u, out = vals
            fits(X, out, U_odim(oref(o)), z3.IntVal(1))
            wr(X, out, lambda p: U_con(oref(o), X.mget(x), X.mget(u)))
            return None
        raise Unsupported('virtual Evaluate with %d arguments' % k)
    v['Evaluate'] = evaluate

    def gradient(X, f, o, vals):
        if len(vals) != 4:
            raise Unsupported('virtual Gradient')
        x, u, dx, du = vals
        xm, um = X.mget(x), X.mget(u)
        fits(X, dx, M.rows(xm), z3.IntVal(1))
        fits(X, du, M.rows(um), z3.IntVal(1))
        wr(X, dx, lambda p: U_gradx(oref(o), xm, um, p))
        wr(X, du, lambda p: U_gradu(oref(o), xm, um, p))
    v['Gradient'] = gradient

    def hessian(X, f, o, vals):
        if len(vals) != 5:
            raise Unsupported('virtual Hessian')
        x, u, a, b, c = vals
        xm, um = X.mget(x), X.mget(u)
        rx, ru = M.rows(xm), M.rows(um)
        for b_, r_, c_ in ((a, rx, rx), (b, rx, ru), (c, ru, ru)):
            fits(X, b_, r_, c_)
        wr(X, a, lambda p: U_hxx(oref(o), xm, um, p))
        wr(X, b, lambda p: U_hxu(oref(o), xm, um, p))
        wr(X, c, lambda p: U_huu(oref(o), xm, um, p))
    v['Hessian'] = hessian

    def jacobian(X, f, o, vals):
        if len(vals) == 5:
            x, u, t, h, out = vals
            fits_jac(X, out, x, u)
            wr(X, out, lambda p: U_djac(oref(o), X.mget(x), X.mget(u), sval(X, t), sval(X, h), p))
        elif len(vals) == 4:
            x, u, t, out = vals
            fits_jac(X, out, x, u)
            wr(X, out, lambda p: U_cjac(oref(o), X.mget(x), X.mget(u), sval(X, t), p))
        elif len(vals) == 3:
            x, u, out = vals
            wr(X, out, lambda p: U_conjac(oref(o), X.mget(x), X.mget(u), p))
        else:
            raise Unsupported('virtual Jacobian')
    v['Jacobian'] = jacobian
