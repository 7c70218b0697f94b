"""Symbolic execution of the exported C++ AST."""
import re
import z3
from fractions import Fraction
from . import mat as M
from .core import *
from .builtins import Builtins
from .loops import Loops, LPNode

F_alloc_cache = {}


def zmax(a, b):
    return z3.If(a < b, b, a)


def zmin(a, b):
    return z3.If(b < a, b, a)


IGNORED_FUNCS = {'fmt::print', 'fmt::format', 'std::operator<<', 'fmt::fg', 'fmt::v8::print', 'std::this_thread::yield'}
NOEFFECT_CLASSES = ('altro::Timer', 'altro::Stopwatch', 'altro::LogEntry', 'std::condition_variable', 'std::thread',
                    'std::basic_ostream', 'fmt::', 'Eigen::IOFormat', 'std::chrono', 'std::basic_ostringstream')


class Frame:
    __slots__ = ('env', 'this', 'f', 'guards')

    def __init__(self, f, this, env=None):
        self.f, self.this, self.env, self.guards = f, this, env if env is not None else {}, []


class Interp(Loops, Builtins, Explorer):
    def __init__(self, prog, timeout_ms=4000):
        super().__init__(timeout_ms)
        self.prog = prog
        self.T = Types(prog)
        self.mem = {}
        self.fr = None
        self.cnt = 0
        self.loopvars = []
        self.dyn = {}            # ref term id -> (term, class)
        self.contracts = {}      # q -> list of (pred, fn)
        self.virtual = {}        # (method name) -> handler
        self.strs = {}
        self.nofork = 0
        self.baseinfo = {}
        self.base_alias = []     # fn(X, key, idx, kind) -> term or None  (representation invariants used as definitions)
        self.dimrules = []       # fn(X, key, idx) -> (r,c) or None
        self.kinded = set()
        self.depth = 0
        self.loop_handler = None
        self.on_load = self.on_store = self.on_lock = None     # monitors of shared memory (P21)
        self.rmw = False
        self.events = []
        self.on_assert = 'abort'
        self.fnames = {}
        self.undef_ok = True
        self.memo = {}
        self.trust_used = set()
        self.called = set()
        self.contracts_used = set()
        self.dimreg = {}
        self.ctxkey = []
        self.univ = []
        self.lfcells = {}
        self.nonnull = {}        # key -> fn(idx): pointers of the pre-state known to be non-null
        self.ptrfacts = {}
        self.exit_index = self.exit_T = None      # iteration a loop was left in / number of iterations of a loop that ran out
        self.settle = 0
        self.effectful = ()      # classes of NOEFFECT_CLASSES that are executed all the same
        self.sequences = set()   # ghost sequences of nodes: names of injective functions; no two have a node in common
        self.injective = {}      # decl name -> (argument position, owner function)
        M._ENTAIL[0] = self.entails_int_eq

    # ---------- snapshot / restore for exploration
    def snapshot(self):
        return (dict(self.mem), self.fr, self.cnt, list(self.loopvars), dict(self.dyn), set(self.kinded), self.depth,
                self.nofork, list(self.events), (list(self.ctxkey), list(self.univ)), (dict(self.fr.env), list(self.fr.guards)) if self.fr else None)

    def restore(self, s):
        self.mem, self.fr, self.cnt, self.loopvars, self.dyn, self.kinded, self.depth, self.nofork, ev = \
            dict(s[0]), s[1], s[2], list(s[3]), dict(s[4]), set(s[5]), s[6], s[7], list(s[8])
        self.events = ev
        self.ctxkey, self.univ = list(s[9][0]), list(s[9][1])
        if s[10] is not None:
            self.fr.env, self.fr.guards = dict(s[10][0]), list(s[10][1])

    def paths(self, fn):
        return self.explore(fn, self.snapshot, self.restore)

    def entails_int_eq(self, a, b):
        if self.nofork > 50:
            return False
        return self.check(a != b) == z3.unsat

    # ---------- fresh names
    def fresh(self, name, sort):
        self.cnt += 1
        n = f'{name}!{self.cnt}'
        if self.loopvars:
            return z3.Function(n, *[I] * len(self.loopvars), sort)(*self.loopvars)
        return z3.Const(n, sort)

    def fresh_mat(self, name, r, c):
        t = self.fresh(name, Mat)
        M.reg_dims(t, r, c)
        return t

    def alloc(self, cls):
        self.cnt += 1
        k = self.cnt
        n = f'new!{k}'
        if self.loopvars:
            t = z3.Function(n, *[I] * len(self.loopvars), I)(*self.loopvars)
            self.loopalloc[n] = k
            for j, v in enumerate(self.loopvars):
                self.assume(z3.Function(f'newarg{j}', I, I)(t) == v)
        else:
            t = z3.Const(n, I)
        self.assume(F_kind(t) == k)
        self.assume(t > 0)
        self.dyn[t.get_id()] = (t, cls)
        return t

    def intern(self, s):
        if s not in self.strs:
            self.strs[s] = len(self.strs) + 1
        return z3.IntVal(1000000 + self.strs[s])

    # ---------- memory
    def base_fn(self, name, nidx, sort):
        if nidx == 0:
            return None
        return z3.Function(name, *[I] * nidx, sort)

    def base_read(self, node, idx):
        kind = node.kind
        if node.tag == 'B':
            for al in self.base_alias:
                r = al(self, node.key, idx, kind)
                if r is not None:
                    return r
        if kind not in SORT:
            raise Unsupported(f'initial read of {node.key} of kind {kind}')
        name = f'{node.tag}:{node.key}'
        t = z3.Function(name, *[I] * len(idx), SORT[kind])(*idx) if idx else z3.Const(name, SORT[kind])
        if kind == 'ptr' and t.get_id() not in self.kinded:
            self.kinded.add(t.get_id())
            if self.nofork == 0 and node.tag == 'B':
                self.assume(z3.And(F_kind(t) <= 0, t > 0 if node.key in self.nonnull and self.nonnull[node.key](idx) else t >= 0))
                if node.key in self.ptrfacts:
                    self.assume(self.ptrfacts[node.key](t, idx))
        if kind == 'mat':
            self.mat_dims_for(t, node.key, idx)
        if kind == 'int' and node.key.endswith('.#') and self.nofork == 0 and t.get_id() not in self.kinded:
            self.kinded.add(t.get_id())
            self.assume(t >= 0)
        return t

    def mat_dims_for(self, t, key, idx):
        if M.has_dims(t):
            return
        for rule in self.dimrules:
            d = rule(self, key, idx)
            if d is not None:
                M.reg_dims(t, *d)
                return
        ty = self.baseinfo.get(key)
        if ty:
            r, c = self.T.matdims(ty)
            M.reg_dims(t, r if r >= 0 else None, c if c >= 0 else None)
            if self.nofork == 0:
                if r < 0:
                    self.assume(M.F_rows(t) >= 0)
                if c < 0:
                    self.assume(M.F_cols(t) >= 0)

    def fmap(self, key, kind):
        f = self.mem.get(key)
        if f is None:
            f = self.mem[key] = Base(key, kind, 'U' if key[0] in 'LT' else 'B')
        return f

    def apart(self, x, y):
        """elements of two ghost sequences that have no node in common"""
        return bool(self.sequences) and z3.is_app(x) and z3.is_app(y) and x.decl().name() in self.sequences and \
            y.decl().name() in self.sequences and not x.decl().eq(y.decl())

    def eqidx(self, a, b):
        cs = []
        for x, y in zip(a, b):
            if x.eq(y):
                continue
            if self.apart(x, y):
                return False
            c = z3.simplify(x == y)
            if z3.is_false(c):
                return False
            if not z3.is_true(c):
                cs.append(c)
        if not cs:
            return True
        return z3.And(*cs) if len(cs) > 1 else cs[0]

    def mread(self, f, idx):
        while True:
            if isinstance(f, (Base, LPNode)):
                return f.read(self, idx)
            if isinstance(f, Store):
                c = self.eqidx(idx, f.idx)
                if c is True:
                    return f.val
                if c is not False:
                    if self.nofork:
                        d = self.decide(c)
                        if d is None and self.settle and self.implied(z3.Not(c)):
                            d = False
                        if d is None:
                            return self.ite(c, f.val, self.mread(f.prev, idx))
                        if d:
                            return f.val
                    elif self.choose(c):
                        return f.val
                f = f.prev
                continue
            if isinstance(f, Fn):
                c = f.cond(idx)
                c = z3.simplify(c) if is_z(c) else z3.BoolVal(bool(c))
                if z3.is_true(c):
                    return f.val(idx)
                if not z3.is_false(c):
                    if self.nofork:
                        d = self.decide(c)
                        if d is None:
                            return self.ite(c, f.val(idx), self.mread(f.prev, idx))
                        if d:
                            return f.val(idx)
                    elif self.choose(c):
                        return f.val(idx)
                f = f.prev
                continue
            raise Unsupported('bad map')

    def decide(self, c):
        """syntactic decision only (used while building lambda bodies)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return None

    def ite(self, c, a, b):
        if a is b:
            return a
        if is_z(a) and is_z(b):
            if a.eq(b):
                return a
            if a.sort() == R and b.sort() == I:
                b = z3.ToReal(b)
            if b.sort() == R and a.sort() == I:
                a = z3.ToReal(a)
            return z3.If(c, a, b)
        if isinstance(a, PtrVal) and isinstance(b, PtrVal) and isinstance(a.lv, LV) and isinstance(b.lv, LV) \
                and a.lv.key == b.lv.key:
            return PtrVal(LV(a.lv.key, [self.ite(c, x, y) for x, y in zip(a.lv.idx, b.lv.idx)], a.lv.typ))
        if isinstance(a, IterV) and isinstance(b, IterV) and a.vec.key == b.vec.key and a.rev == b.rev:
            return IterV(a.vec, self.ite(c, a.i, b.i), a.rev)
        raise Unsupported('merge of non-terms')

    def load(self, lv):
        if isinstance(lv, LV):
            k = self.T.kind(lv.typ)
            if k in ('class', 'vec', 'arr', 'map', 'pair'):
                return lv
            if self.on_load is not None:
                self.on_load(self, lv)
            if lv.key not in self.baseinfo:
                self.baseinfo[lv.key] = strip(lv.typ)
            f = self.fmap(lv.key, k)
            if isinstance(f, Base):
                f.nidx = len(lv.idx)
            return self.mread(f, lv.idx)
        if isinstance(lv, View):
            return M.block(self.mget(lv.lv), lv.i, lv.j, lv.r, lv.c)
        if isinstance(lv, DView):
            return M.diagonal(self.mget(lv.x))
        if isinstance(lv, TView):
            return M.T(self.mget(lv.x))
        if isinstance(lv, ElemLV):
            return M.elem(self.mget(lv.x), lv.i, lv.j)
        raise Unsupported(f'load of {type(lv).__name__}')

    def store(self, lv, val):
        if isinstance(lv, LV):
            k = self.T.kind(lv.typ)
            if self.on_store is not None:
                self.on_store(self, lv, val)
            if lv.key not in self.baseinfo:
                self.baseinfo[lv.key] = strip(lv.typ)
            if k == 'real' and is_z(val) and val.sort() == I:
                val = z3.ToReal(val)
            if k == 'real' and is_z(val) and val.sort() == B:
                val = z3.If(val, z3.RealVal(1), z3.RealVal(0))
            if k == 'int' and is_z(val) and val.sort() == B:
                val = z3.If(val, z3.IntVal(1), z3.IntVal(0))
            if k == 'bool' and is_z(val) and val.sort() == I:
                val = val != 0
            if k == 'ptr' and isinstance(val, LV):
                raise Unsupported('lv stored as pointer')
            f = self.fmap(lv.key, k)
            if isinstance(f, Store) and len(f.idx) == len(lv.idx) and all(a.eq(b) for a, b in zip(f.idx, lv.idx)):
                f = f.prev
            self.mem[lv.key] = Store(f, lv.idx, val)
            return
        if isinstance(lv, View):
            old = self.mget(lv.lv)
            self.mset(lv.lv, M.setblock(old, lv.i, lv.j, lv.r, lv.c, val))
            return
        if isinstance(lv, DView):
            old = self.mget(lv.x)
            self.mset(lv.x, M.set_diagonal(old, val))
            return
        if isinstance(lv, TView):
            self.mset(lv.x, M.T(val))
            return
        if isinstance(lv, ElemLV):
            old = self.mget(lv.x)
            self.mset(lv.x, M.setelem(old, lv.i, lv.j, zr(val)))
            return
        raise Unsupported(f'store to {type(lv).__name__}')

    # matrices
    def mget(self, x):
        if isinstance(x, PtrVal):
            x = x.lv
        if isinstance(x, (LV, View, TView)):
            v = self.load(x)
        else:
            v = x
        if isinstance(v, ArrV):
            v = v.m
        if is_z(v) and v.sort() == Mat:
            return v
        if is_z(v) and v.sort() in (R, I):      # scalar used as 1x1
            return M.const11(zr(v))
        raise Unsupported(f'not a matrix: {type(x).__name__} {v}')

    def mset(self, x, m):
        self.store(x, m)

    def mdims(self, x):
        if isinstance(x, View):
            return x.r, x.c
        if isinstance(x, DView):
            return self.mdims(x.x)[0], z3.IntVal(1)
        if isinstance(x, TView):
            r, c = self.mdims(x.x)
            return c, r
        return M.dims(self.mget(x))

    def temp(self, typ, val=None):
        self.cnt += 1
        lv = LV(f'T{self.cnt}', (), strip(typ))
        if val is not None:
            self.store(lv, val)
        return lv

    def local(self, name, typ):
        self.cnt += 1
        return LV(f'L{self.cnt}.{name}', (), strip(typ))

    # region operations on aggregates
    def copy_region(self, dst, src, typ):
        for s, n, lt in self.T.leaves(typ):
            k = self.T.kind(lt)
            dk, sk = dst.key + s, src.key + s
            self.baseinfo.setdefault(dk, strip(lt))
            self.baseinfo.setdefault(sk, strip(lt))
            sf = self.fmap(sk, k)
            self.nid = len(dst.idx) + n
            if n == 0:
                self.mem[dk] = Store(self.fmap(dk, k), dst.idx, self.mread(sf, src.idx))
            else:
                self.mem[dk] = self._copy_fn(self.fmap(dk, k), dst.idx, src.idx, sf)

    def _copy_fn(self, prev, didx, sidx, sf):
        nd = len(didx)

        def cond(q):
            c = self.eqidx(q[:nd], didx)
            return c if is_z(c) else z3.BoolVal(c)

        def val(q):
            return self.mread(sf, tuple(sidx) + tuple(q[nd:]))
        r = Fn(prev, cond, val, 'copy')
        r.pat = list(didx) + [None] * (self.nid - nd)
        r.nidx = self.nid
        return r

    def fill_region(self, vec, lo, hi, etyp, src):
        """vec[lo..hi) := copies of src (an lvalue of the element type)"""
        for s, n, lt in self.T.leaves(etyp):
            k = self.T.kind(lt)
            dk, sk = vec.key + '[]' + s, src.key + s
            self.baseinfo.setdefault(dk, strip(lt))
            self.baseinfo.setdefault(sk, strip(lt))
            sf = self.fmap(sk, k)
            self.nid = len(vec.idx) + n + 1
            self.mem[dk] = self._fill_fn(self.fmap(dk, k), vec.idx, lo, hi, src.idx, sf)

    def _fill_fn(self, prev, vidx, lo, hi, sidx, sf):
        nd = len(vidx)

        def cond(q):
            c = self.eqidx(q[:nd], vidx)
            c = c if is_z(c) else z3.BoolVal(c)
            return z3.And(c, q[nd] >= lo, q[nd] < hi)

        def val(q):
            return self.mread(sf, tuple(sidx) + tuple(q[nd + 1:]))
        r = Fn(prev, cond, val, 'fill')
        r.pat = list(vidx) + [None] * (self.nid - nd)
        r.nidx = self.nid
        return r

    def assign(self, dst, src, typ):
        """aggregate or leaf copy"""
        k = self.T.kind(typ)
        if k in ('class', 'vec', 'arr', 'map', 'pair'):
            self.copy_region(dst, src, typ)
        else:
            self.store(dst, self.load(src) if isinstance(src, (LV, View, TView, ElemLV)) else src)

    # ---------- pointers
    def deref(self, p, typ):
        if isinstance(p, PtrVal):
            return p.lv
        if isinstance(p, (LV,)):
            p = self.load(p)
            return self.deref(p, typ)
        if is_z(p) and p.sort() == I:
            if self.nofork == 0:
                if not self.choose(p != 0):
                    raise Abort('null pointer dereference', self.line)
            t = strip(typ)
            return LV('H:' + t, (p,), t)
        if isinstance(p, IterV):
            return self.iter_deref(p)
        raise Unsupported(f'deref of {type(p).__name__}')

    line = None
    nid = None

    def term(self, fn):
        """evaluate fn without forking (for terms under a quantifier)"""
        self.nofork += 1
        try:
            return fn()
        finally:
            self.nofork -= 1

    def eq_rep(self, d):
        """a simpler integer term the path condition equates with d: a literal or a stored dimension"""
        best = None
        st = list(self.facts)
        while st:
            f = st.pop()
            if z3.is_and(f):
                st.extend(f.children())
            elif z3.is_eq(f):
                for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if x.eq(d):
                        if z3.is_int_value(y):
                            return y
                        if z3.is_app(y) and y.decl().name().startswith('B:') and not d.decl().name().startswith('B:'):
                            best = y
        return best

    def addrof(self, lv):
        if isinstance(lv, LV) and lv.key.startswith('H:') and lv.key == 'H:' + strip(lv.typ) and len(lv.idx) == 1:
            return lv.idx[0]
        if isinstance(lv, LV) and lv.key.startswith('H:') and len(lv.idx) == 1 and lv.key[2:] in self.prog.recs:
            return lv.idx[0]
        return PtrVal(lv)

    def field(self, base, name, ftype, declcls):
        if not isinstance(base, LV):
            raise Unsupported(f'member {name} of {type(base).__name__}')
        if base.key.startswith('H:') and len(base.idx) == 1 and '.' not in _after(base.key) and \
                base.key[2:] in self.prog.recs:
            key = 'H:' + (declcls or base.key[2:]) + '.' + name
        else:
            key = base.key + '.' + name
        return LV(key, base.idx, strip(ftype), base.xv)

    def fieldof(self, base, path):
        """spec-side field access: 'a_.b_' on an lvalue of class type"""
        lv = base
        for p in path.split('.'):
            cls = strip(lv.typ)
            for c in self.prog.bases(cls):
                hit = [f for f in self.prog.recs.get(c, {'fields': []})['fields'] if f['n'] == p]
                if hit:
                    lv = self.field(lv, p, hit[0]['t'], c)
                    break
            else:
                raise Unsupported(f'field {p} of {cls} is gone')
        return lv

    # ---------- expressions
    def rv(self, n):
        """evaluate to an rvalue: loads lvalues of leaf kinds"""
        v = self.ev(n)
        if isinstance(v, (LV, ElemLV)):
            if isinstance(v, LV) and self.T.kind(v.typ) in ('class', 'vec', 'arr', 'map', 'pair'):
                return v
            return self.load(v)
        return v

    def num(self, n):
        v = self.rv(n)
        if isinstance(v, (View, TView)):
            v = self.mget(v)
        if is_z(v) and v.sort() == Mat:
            return M.scalar11(v)
        return v

    def integer(self, n):
        v = self.num(n)
        return self.to_int(v)

    def to_int(self, v):
        if is_z(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_z(v) and v.sort() == R:
            return z3.simplify(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
        return v

    def to_bool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if is_z(v):
            if v.sort() == B:
                return v
            return v != 0
        if isinstance(v, (PtrVal, Closure)):
            return z3.BoolVal(True)
        raise Unsupported('bool of ' + type(v).__name__)

    def convert(self, v, t):
        k = self.T.kind(t)
        if not is_z(v):
            return v
        if k == 'real':
            if v.sort() == B:
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            if v.sort() == Mat:
                return M.scalar11(v)
            return zr(v)
        if k == 'int':
            return self.to_int(v)
        if k == 'bool':
            return self.to_bool(v)
        return v

    def ev(self, n):
        if n is None:
            return None
        if 'l' in n:
            self.line = n['l']
        k = n['k']
        if 'cv' in n and not n.get('lv'):
            kd = self.T.kind(n['t'])
            if kd == 'bool':
                return z3.BoolVal(bool(n['cv']))
            if kd == 'int':
                return z3.IntVal(int(n['cv']))
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported(f'expression {k} at line {self.line}')
        return m(n)

    def x_ParenExpr(self, n):
        return self.ev(n['c'][0])

    x_ExprWithCleanups = x_ConstantExpr = x_CXXBindTemporaryExpr = x_SubstNonTypeTemplateParmExpr = x_ParenExpr
    x_CXXDefaultArgExpr = x_CXXDefaultInitExpr = x_CXXStdInitializerListExpr = x_ParenExpr

    def x_Temp(self, n):
        v = self.ev(n['c'][0])
        k = self.T.kind(n['t'])
        if isinstance(v, (LV, View, TView, ElemLV)):
            return v
        if k in ('mexpr', 'view', 'py', 'opaque'):
            return v
        if v is None:
            return v
        if is_z(v) or isinstance(v, (PtrVal,)):
            return self.temp(n['t'], v)
        return v

    def x_IntegerLiteral(self, n):
        return z3.IntVal(int(n['v']))

    def x_FloatingLiteral(self, n):
        return z3.RealVal(str(Fraction(n['v'])) if not n['v'].lower().startswith(('inf', 'nan')) else '1/0')

    def x_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n.get('cv', n.get('v'))))

    def x_CharacterLiteral(self, n):
        return z3.IntVal(int(n.get('v', 0)))

    def x_StringLiteral(self, n):
        return self.intern(n['v'])

    def x_CXXNullPtrLiteralExpr(self, n):
        return z3.IntVal(0)

    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_CXXThisExpr(self, n):
        return self.addrof(self.fr.this)

    def x_CXXScalarValueInitExpr(self, n):
        return self.default_leaf(n['t'])

    x_ImplicitValueInitExpr = x_CXXScalarValueInitExpr

    def x_DeclRefExpr(self, n):
        if n.get('dk') == 'EnumConstant':
            if 'cv' in n:
                return z3.IntVal(n['cv'])
        d = n['d']
        if d in self.fr.env:
            return self.fr.env[d]
        if n.get('dk') in ('Function', 'CXXMethod'):
            return FnRef(n)
        if d in self.prog.vars and 'init' in self.prog.vars[d]:
            v = self.ev(self.prog.vars[d]['init'])
            return v if isinstance(v, LV) else self.temp(self.prog.vars[d]['t'], v)
        if n.get('q', '').startswith('std::') or n.get('q', '') in ('stdout', 'stderr'):
            return Opaque(n.get('q'))
        raise Unsupported(f'unbound {n.get("n")} line {self.line}')

    def x_MemberExpr(self, n):
        if n.get('dk') == 'Var':
            d = n['d']
            if d in self.prog.vars and 'init' in self.prog.vars[d]:
                v = self.ev(self.prog.vars[d]['init'])
                return v if isinstance(v, LV) else self.temp(self.prog.vars[d]['t'], v)
            raise Unsupported('static member ' + n.get('n', ''))
        b = self.ev(n['c'][0])
        if isinstance(b, MapPair):
            return b.first if n['n'] == 'first' else b.second
        if n.get('arrow'):
            if isinstance(b, LV) and self.T.kind(b.typ) == 'ptr':
                b = self.load(b)
            b = self.deref(b, self.T.pointee(n['c'][0]['t']) if n['c'][0]['t'].strip().rstrip('const').strip().endswith('*') else n['cls'])
        if n['n'] in ('first', 'second') and isinstance(b, tuple):
            return b[0 if n['n'] == 'first' else 1]
        if isinstance(b, Opaque):
            return b
        return self.field(b, n['n'], n['t'], n.get('cls'))

    # casts
    def x_ImplicitCastExpr(self, n):
        ck = n.get('ck')
        c = n['c'][0]
        if ck == 'LValueToRValue':
            v = self.ev(c)
            if isinstance(v, (LV, ElemLV)):
                return self.load(v)
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ArrayToPointerDecay', 'ConstructorConversion',
                  'UserDefinedConversion', 'BaseToDerived', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast',
                  'Dynamic', 'LValueBitCast'):
            v = self.ev(c)
            if ck == 'ArrayToPointerDecay' and isinstance(v, LV):
                return PtrVal(v)
            return v
        if ck == 'ToVoid':
            self.ev(c)
            return None
        if ck == 'NullToPointer':
            return z3.IntVal(0)
        if ck == 'IntegralToFloating':
            return zr(self.to_int(self.num(c)))
        if ck == 'FloatingCast':
            return self.num(c)
        if ck == 'IntegralCast':
            v = self.num(c)
            return self.to_int(v) if self.T.kind(n['t']) == 'int' else v
        if ck == 'FloatingToIntegral':
            return self.to_int(self.num(c))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            v = self.rv(c)
            return self.to_bool(v)
        if ck == 'BooleanToSignedIntegral':
            return self.to_int(self.num(c))
        raise Unsupported(f'cast {ck}')

    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr

    # operators
    def x_UnaryOperator(self, n):
        op = n['op']
        c = n['c'][0]
        if op == '&':
            if c.get('k') == 'DeclRefExpr' and c.get('dk') == 'Field':      # pointer to member
                return self.intern('&' + c['q'])
            v = self.ev(c)
            if isinstance(v, (LV, View, ElemLV)):
                return self.addrof(v)
            return v
        if op == '*':
            p = self.rv(c)
            return self.deref(p, n['t'])
        if op in ('++', '--'):
            lv = self.ev(c)
            old = self.load(lv)
            if isinstance(old, (IterV, PtrVal)):
                raise Unsupported('pointer increment')
            one = z3.RealVal(1) if old.sort() == R else z3.IntVal(1)
            new = z3.simplify(old + one if op == '++' else old - one)
            self.store(lv, new)
            return old if n.get('postfix') else lv
        v = self.num(c)
        if op == '-':
            return z3.simplify(-self.arith(v))
        if op == '+':
            return v
        if op == '!':
            return z3.simplify(z3.Not(self.to_bool(v)))
        raise Unsupported('unary ' + op)

    def arith(self, v):
        if is_z(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def x_BinaryOperator(self, n):
        op = n['op']
        a, b = n['c']
        if op == '=':
            v = self.rv(b)
            lv = self.ev(a)
            self.store(lv, self.convert(v, a['t']) if isinstance(lv, LV) and is_z(v) else v)
            return lv
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            x = self.to_bool(self.num(a))
            if self.pure(b):
                y = self.to_bool(self.num(b))
                return z3.simplify(z3.And(x, y) if op == '&&' else z3.Or(x, y))
            if self.choose(x):
                return z3.BoolVal(True) if op == '||' else self.to_bool(self.num(b))
            return z3.BoolVal(False) if op == '&&' else self.to_bool(self.num(b))
        if op in ('->*', '.*'):
            return self.member_at(op, a, b, n['t'])
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, n.get('t'))

    def member_at(self, op, a, b, t):
        o = self.ev(a)
        if op == '->*':
            o = self.load(o) if isinstance(o, LV) and self.T.kind(o.typ) == 'ptr' else o
            o = o if isinstance(o, LV) else self.deref(o, self.T.pointee(a['t']))
        m = z3.simplify(self.rv(b))
        if not isinstance(o, LV) or not is_z(m):
            raise Unsupported('pointer to member')
        cls = strip(o.typ)
        for c in self.prog.bases(cls):
            for f in self.prog.recs[c]['fields']:
                nm = '&' + c + '::' + f['n']
                if strip(f['t']) == strip(t) and nm in self.strs and self.choose(m == self.intern(nm)):
                    return self.field(o, f['n'], f['t'], c)
        raise Abort('pointer to member does not designate a member', self.line)

    def pure(self, n):
        """no calls, no derefs: safe to evaluate unconditionally"""
        if isinstance(n, dict):
            k = n.get('k')
            if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr', 'CompoundAssignOperator'):
                return False
            if k == 'BinaryOperator' and n.get('op') in ('=', '/', '%'):
                return False
            if k == 'UnaryOperator' and n.get('op') in ('++', '--', '*'):
                return False
            if k == 'ArraySubscriptExpr':
                return False
            return all(self.pure(v) for v in n.values() if isinstance(v, (dict, list)))
        if isinstance(n, list):
            return all(self.pure(v) for v in n)
        return True

    def binop(self, op, x, y, t=None):
        if isinstance(x, (PtrVal, IterV, MapIter)) or isinstance(y, (PtrVal, IterV, MapIter)):
            return self.ptrcmp(op, x, y)
        x, y = self.arith(x) if op not in ('==', '!=') else x, self.arith(y) if op not in ('==', '!=') else y
        if op in ('==', '!='):
            if x.sort() != y.sort():
                x, y = self.arith(x), self.arith(y)
        if is_z(x) and is_z(y):
            if x.sort() == Mat:
                x = M.scalar11(x)
            if y.sort() == Mat:
                y = M.scalar11(y)
            if x.sort() == R and y.sort() == I:
                y = zr(y)
            if y.sort() == R and x.sort() == I:
                x = zr(x)
        if self.rounding and op in ('+', '-', '*', '/') and is_z(x) and x.sort() == R:
            return self.rounded(z3.simplify({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]()))
        if op == '+':
            return z3.simplify(x + y)
        if op == '-':
            return z3.simplify(x - y)
        if op == '*':
            return z3.simplify(x * y)
        if op == '/':
            if x.sort() == I:
                if z3.is_int_value(y) and y.as_long() > 0:
                    return z3.simplify(z3.If(x >= 0, x / y, -((-x) / y)))
                return z3.If(z3.And(x >= 0, y > 0), x / y, z3.Function('cdiv', I, I, I)(x, y))
            self.note_div(y)
            return z3.simplify(x / y)
        if op == '%':
            if z3.is_int_value(y) and y.as_long() > 0:
                return z3.simplify(z3.If(x >= 0, x % y, -((-x) % y)))
            if self.nofork == 0 and not self.choose(y != 0):
                raise Abort('modulo by zero', self.line)
            return z3.If(z3.And(x >= 0, y > 0), x % y, z3.Function('cmod', I, I, I)(x, y))
        if op in ('==', '!=') and self.sequences and x.decl().eq(y.decl()) and x.decl().name() in self.sequences:
            e = self.ptreq(x, y)
            return e if op == '==' else z3.simplify(z3.Not(e))
        r = {'<': lambda: x < y, '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y,
             '==': lambda: x == y, '!=': lambda: x != y}.get(op)
        if r is None:
            raise Unsupported('operator ' + op)
        return z3.simplify(r())

    def note_div(self, y):
        pass

    def rounded(self, x):
        """the double nearest to x (see Explorer.new_facts for what is known about it)"""
        if z3.is_rational_value(x):
            f = x.as_fraction()
            if Fraction(float(f)) == f:
                return x
        return F_round(x)

    def ptrcmp(self, op, x, y):
        if isinstance(x, IterV) and isinstance(y, IterV):
            if op == '-':
                return z3.simplify(x.i - y.i)
            r = {'==': x.i == y.i, '!=': x.i != y.i, '<': x.i < y.i, '<=': x.i <= y.i, '>': x.i > y.i, '>=': x.i >= y.i}[op]
            return z3.simplify(r)
        if isinstance(x, MapIter) and isinstance(y, MapIter):
            if x.key is None and y.key is None:
                e = True
            elif x.key is None or y.key is None:
                e = False
            else:
                e = x.key == y.key
            e = z3.BoolVal(e) if isinstance(e, bool) else e
            return e if op == '==' else z3.Not(e)
        e = self.ptreq(x, y)
        if op == '==':
            return e
        if op == '!=':
            return z3.simplify(z3.Not(e))
        raise Unsupported('pointer comparison ' + op)

    def ptreq(self, x, y):
        if isinstance(x, PtrVal) and isinstance(y, PtrVal):
            if isinstance(x.lv, LV) and isinstance(y.lv, LV) and x.lv.key == y.lv.key:
                c = self.eqidx(x.lv.idx, y.lv.idx)
                return c if is_z(c) else z3.BoolVal(c)
            return z3.BoolVal(False)
        if isinstance(x, (PtrVal, Closure)) or isinstance(y, (PtrVal, Closure)):
            return z3.BoolVal(False)
        if x.decl().eq(y.decl()) and x.decl().name() in self.sequences:
            return z3.simplify(z3.And(*[a == b for a, b in zip(x.children(), y.children())]))
        return z3.simplify(x == y)

    def seq_term(self, f, *args):
        """an element of a ghost sequence; its injectivity is instantiated at the term"""
        t = f(*args)
        if self.nofork == 0 and ('seq', t.get_id()) not in self.kinded:
            self.kinded.add(('seq', t.get_id()))
            pos, own = self.injective[f.name()]
            self.assume(z3.And(t > 0, F_kind(t) <= 0, own(t) == t.arg(pos)))
        return t

    def x_CompoundAssignOperator(self, n):
        op = n['op'][:-1]
        y = self.rv(n['c'][1])
        lv = self.ev(n['c'][0])
        x = self.load(lv)
        if isinstance(x, IterV):
            self.store(lv, IterV(x.vec, z3.simplify(x.i + y if op == '+' else x.i - y), x.rev))
            return lv
        if is_z(x) and x.sort() == B and op in ('&', '|'):
            r = z3.And(x, self.to_bool(y)) if op == '&' else z3.Or(x, self.to_bool(y))
        else:
            r = self.binop(op, x, y)
        self.store(lv, self.convert(r, n['t']))
        return lv

    def x_ConditionalOperator(self, n):
        c, a, b = n['c']
        cv = self.to_bool(self.num(c))
        if self.pure(a) and self.pure(b) and self.T.kind(n['t']) in ('int', 'real', 'bool') and not n.get('lv'):
            return self.ite(cv, self.num(a), self.num(b))
        if self.choose(cv):
            return self.ev(a)
        return self.ev(b)

    def x_ArraySubscriptExpr(self, n):
        p = self.rv(n['c'][0])
        i = self.integer(n['c'][1])
        if isinstance(p, PtrVal) and isinstance(p.lv, LV):
            lv = p.lv
            if self.T.kind(lv.typ) == 'arr':
                return lv.sub('[]', self.T.elem(lv.typ), i)
        if is_z(p) and p.sort() == I:
            return LV('A:' + strip(n['t']), (p, i), strip(n['t']))
        raise Unsupported('subscript')

    def x_InitListExpr(self, n):
        t = n['t']
        k = self.T.kind(t)
        if k == 'class':
            lv = self.temp(t)
            fields = []
            for b in reversed(self.prog.bases(strip(t))):
                fields += [(b, f) for f in self.prog.recs[b]['fields']]
            for (b, f), c in zip(fields, n.get('c', [])):
                self.init_into(self.field(lv, f['n'], f['t'], b), c)
            for b, f in fields[len(n.get('c', [])):]:
                self.default_init(self.field(lv, f['n'], f['t'], b), f.get('init'), True)
            return lv
        if k == 'arr':
            lv = self.temp(t)
            cs = n.get('c', [])
            if len(cs) == 1 and cs[0].get('k') == 'InitListExpr':
                cs = cs[0].get('c', [])
            for i, c in enumerate(cs):
                self.init_into(lv.sub('[]', self.T.elem(t), i), c)
            return lv
        if n.get('c') and len(n['c']) == 1:
            return self.ev(n['c'][0])
        if not n.get('c'):
            return self.default_leaf(t)
        raise Unsupported('init list of ' + t)

    def default_leaf(self, t):
        k = self.T.kind(t)
        if k == 'real':
            return z3.RealVal(0)
        if k in ('int', 'ptr', 'str'):
            return z3.IntVal(0) if k != 'str' else self.intern('')
        if k == 'bool':
            return z3.BoolVal(False)
        if k == 'mat':
            r, c = self.T.matdims(t)
            m = M.zero(0, 0 if c < 0 else c) if r < 0 else M.zero(r, max(c, 0))
            return m
        if k == 'py':
            return Opaque('empty')
        return Opaque(t)

    def init_into(self, lv, node):
        """initialise lvalue lv from expression node"""
        if node is None:
            return self.default_init(lv, None, False)
        k = self.T.kind(lv.typ)
        if k in ('class', 'vec', 'arr', 'map', 'pair'):
            c = node
            while c.get('k') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'CXXDefaultInitExpr', 'ParenExpr') or \
                    (c.get('k') in ('CXXFunctionalCastExpr',) and c.get('ck') == 'ConstructorConversion') or \
                    (c.get('k') == 'ImplicitCastExpr' and c.get('ck') == 'ConstructorConversion'):
                c = c['c'][0]
            if c.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and strip(c['t']) == strip(lv.typ):
                self.construct(lv, c)
                return
            v = self.ev(node)
            if isinstance(v, LV):
                self.assign(lv, v, lv.typ)
                return
            if isinstance(v, Opaque):
                return
            raise Unsupported(f'init of {lv.typ} from {type(v).__name__}')
        if k == 'opaque':
            self.ev(node)
            return
        v = self.ev(node)
        if isinstance(v, (LV, ElemLV, View, TView)):
            src = v
            v = self.load(v)
            if (k == 'ptr' or k == 'int' and is_task(t)) and isinstance(src, LV) and src.xv and not isinstance(v, PtrVal):
                self.store(src, z3.IntVal(0))
        if k == 'mat':
            v = self.mget(v)
            v = self.adapt_mat(v, lv.typ)
        elif is_z(v):
            v = self.convert(v, lv.typ)
        if isinstance(v, Opaque) and k != 'py':
            return
        self.store(lv, v)

    def adapt_mat(self, v, typ):
        return v

    def default_init(self, lv, init, value_init):
        if init is not None:
            return self.init_into(lv, init)
        k = self.T.kind(lv.typ)
        if k == 'class':
            cls = strip(lv.typ)
            ctors = [f for f in self.prog.by_cls.get(cls, []) if f['kind'] == 'CXXConstructor' and not f['params']]
            if ctors and ctors[0].get('body') is not None and not ctors[0].get('defaulted'):
                return self.run_ctor(lv, ctors[0], [])
            for c in self.prog.bases(cls):
                for f in self.prog.recs[c]['fields']:
                    self.default_init(self.field(lv, f['n'], f['t'], c), f.get('init'), value_init)
            return
        if k == 'vec':
            self.store(lv.sub('.#', 'int'), z3.IntVal(0))
            return
        if k == 'map':
            self.store(lv.sub('.#', 'int'), z3.IntVal(0))
            key = lv.key + '.?'
            self.baseinfo.setdefault(key, 'bool')
            self.mem[key] = Fn(self.fmap(key, 'bool'), self._pref(lv.idx), lambda q: z3.BoolVal(False))
            return
        if k in ('arr',):
            if value_init:
                tmp = self.temp(self.T.elem(lv.typ))
                self.default_init(tmp, None, True)
                self.fill_region(lv, z3.IntVal(0), z3.IntVal(1 << 40), self.T.elem(lv.typ), tmp)
            return
        if k in ('ptr', 'str', 'mat', 'py') or value_init:
            if k == 'ptr' and not value_init and strip(lv.typ).endswith('*'):
                return
            if k == 'pair':
                return
            v = self.default_leaf(lv.typ)
            if isinstance(v, Opaque) and k != 'py':
                return
            self.store(lv, v)

    def _pref(self, idx):
        nd = len(idx)

        def cond(q):
            c = self.eqidx(q[:nd], idx)
            return c if is_z(c) else z3.BoolVal(c)
        return cond

    # ---------- construction
    def x_CXXConstructExpr(self, n):
        t = n['t']
        k = self.T.kind(t)
        if k in ('class', 'vec', 'arr', 'map', 'pair'):
            if n.get('elidable') and len(n.get('args', [])) == 1:
                v = self.ev(n['args'][0])
                if isinstance(v, LV):
                    return v
            lv = self.temp(t)
            self.construct(lv, n)
            return lv
        return self.construct_leaf(n)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def construct_leaf(self, n):
        t = strip(n['t'])
        k = self.T.kind(t)
        args = [a for a in n.get('args', [])]
        if k == 'mat':
            return self.construct_mat(t, n, args)
        if k == 'view' or k == 'mexpr':
            if t.startswith('Eigen::Map<'):
                return self.construct_map(n, args)
            if t.startswith('Eigen::Stride') or not args:
                return Opaque(t)
            v = self.ev(args[0])
            if t.startswith('Eigen::Ref<const'):
                return v
            if isinstance(v, (LV, View, TView)):
                return v
            if isinstance(v, ArrV):
                return v
            return v
        if k == 'ptr':
            if not args:
                return z3.IntVal(0)
            v = self.ev(args[0])
            if isinstance(v, LV):
                p = self.load(v)
                if v.xv and self.T.kind(v.typ) == 'ptr' and not isinstance(p, PtrVal):
                    self.store(v, z3.IntVal(0))
                return p
            return v
        if k == 'py':
            if not args:
                if t.startswith('Eigen::LLT'):
                    return LLT()
                return Opaque('empty')
            v = self.ev(args[0])
            if isinstance(v, LV):
                return self.load(v)
            return v
        if k == 'str':
            if not args:
                return self.intern('')
            v = self.rv(args[0])
            return v if is_z(v) else self.fresh('str', I)
        if t.startswith(('std::packaged_task<', 'std::future<')):
            return self.construct_task(t, args)
        if k in ('int', 'bool', 'real'):
            if not args:
                return self.default_leaf(t)
            return self.convert(self.rv(args[0]), t)
        if t.startswith('std::lock_guard') or t.startswith('std::unique_lock'):
            m = self.ev(args[0])
            return self.lock(m)
        if k == 'opaque':
            for a in args:
                try:
                    self.ev(a)
                except Unsupported:
                    pass
            return Opaque(t)
        raise Unsupported('construct ' + t)

    def construct_task(self, t, args):
        """a task (and its future) is an identity; 0 is one without state; moving takes the identity away from the source"""
        if not args:
            return z3.IntVal(0)
        v = self.ev(args[0])
        if isinstance(v, LV) and strip(v.typ).startswith(t.split('<')[0] + '<'):
            p = self.load(v)
            if v.xv:
                self.store(v, z3.IntVal(0))
            return p
        if is_z(v) and v.sort() == I:
            return v
        h = self.contracts.get('std::packaged_task')
        if h is None:
            raise Unsupported('construct ' + t)
        return h[0][1](self, None, [v], None)

    def lock(self, m):
        if not isinstance(m, LV):
            return Opaque('lock')
        lv = LV('G:locked', m.idx if m.idx else (z3.IntVal(0),), 'bool')
        if m.idx:
            if not self.choose(z3.Not(self.load(lv))):
                raise Abort('deadlock: mutex already held', self.line)
            self.store(lv, z3.BoolVal(True))
            if self.on_lock is not None:
                self.on_lock(self, lv, True)
            return ('guard', lv)
        return Opaque('lock')

    def construct_mat(self, t, n, args):
        R_, C_ = self.T.matdims(t)
        if not args:
            if R_ >= 0 and C_ >= 0:
                return self.fresh_mat('undef', R_, C_)
            return M.zero(max(R_, 0), max(C_, 0))
        vals = [self.rv(a) for a in args if self.T.kind(a['t']) != 'opaque']
        vals = [self.mget(v) if isinstance(v, (View, TView, ArrV)) else v for v in vals]
        if len(vals) == 1:
            v = vals[0]
            if is_z(v) and v.sort() == Mat:
                return v
            if is_z(v) and v.sort() in (I, B):
                v = self.to_int(v)
                self.nonneg_dim(v)
                if R_ >= 0 and C_ >= 0:
                    return self.fresh_mat('undef', R_, C_)
                return self.fresh_mat('undef', v, 1) if C_ == 1 else self.fresh_mat('undef', 1, v)
            if isinstance(v, LV):
                return self.mget(v)
        if len(vals) == 2 and (R_, C_) == (2, 1):
            a, b = zr(vals[0]), zr(vals[1])
            return M.mk(2, 1, lambda i, j: z3.If(i == 0, a, b))
        if len(vals) == 2:
            r, c = self.to_int(vals[0]), self.to_int(vals[1])
            return self.fresh_mat('undef', r, c)
        if len(vals) in (3, 4) and R_ == len(vals) and C_ == 1:
            vs = [zr(v) for v in vals]

            def f(i, j):
                e = vs[-1]
                for q in range(len(vs) - 2, -1, -1):
                    e = z3.If(i == q, vs[q], e)
                return e
            return M.mk(R_, 1, f)
        raise Unsupported('matrix constructor')

    def nonneg_dim(self, v):
        if not self.nofork and not self.choose(v >= 0):
            raise Abort('negative matrix size', self.line)

    def construct_map(self, n, args):
        p = self.rv(args[0])
        if isinstance(p, tuple) and p[0] == 'data':
            x = p[1]
            r, c = self.mdims(x)
            R_, C_ = self.T.matdims(targs(strip(n['t']))[0])
            # vector map over the storage of x; exact for contiguous storage only
            return ('mapview', x) if False else self.map_view(x, r, c, R_, C_)
        raise Unsupported('Eigen::Map of raw pointer')

    def map_view(self, x, r, c, R_, C_):
        # a column map over a single-row or single-column matrix; the caller's storage must be contiguous
        if C_ == 1:
            if self.choose(c == 1):
                return x if isinstance(x, (LV, View)) else x
            if self.choose(r == 1):
                self.contig(x)
                return TView(x)
        raise Unsupported('Eigen::Map shape')

    def contig(self, x):
        """a row of a column-major matrix is contiguous only if the parent has one row"""
        flag = LV('G:noncontiguous', (z3.IntVal(0),), 'bool')
        self.store(flag, z3.BoolVal(True))

    def construct(self, lv, n):
        t = strip(n['t'])
        k = self.T.kind(t)
        args = n.get('args', [])
        if k == 'class' and t.startswith(NOEFFECT_CLASSES) and not t.startswith(self.effectful):
            self.trust_used.add(t)
            return
        if k == 'class':
            f = self.prog.by_fid.get(n['fid'])
            if f is None or f.get('body') is None or f.get('defaulted'):
                if n.get('copy') or n.get('move'):
                    src = self.ev(args[0])
                    return self.memberwise(lv, src, t, construct=True, move=bool(n.get('move')))
                if not args:
                    for c in self.prog.bases(t):
                        for fl in self.prog.recs[c]['fields']:
                            self.default_init(self.field(lv, fl['n'], fl['t'], c), fl.get('init'), bool(n.get('zeroinit')))
                    return
                raise Unsupported('constructor of ' + t)
            vals = [self.arg(a, p['t']) for a, p in zip(args, f['params'])]
            return self.run_ctor(lv, f, vals)
        if k == 'vec':
            return self.construct_vec(lv, n, args)
        if k == 'arr':
            if not args:
                return
            src = self.ev(args[0])
            return self.assign(lv, src, t)
        if k in ('map', 'pair'):
            if not args:
                return self.default_init(lv, None, True)
            src = self.ev(args[0])
            if isinstance(src, LV) and len(args) == 1:
                return self.assign(lv, src, t)
        raise Unsupported('construct ' + t)

    def memberwise(self, dst, src, t, construct, move):
        """defaulted copy/move construction or assignment"""
        t = strip(t)
        if not isinstance(src, LV):
            raise Unsupported('memberwise copy from ' + type(src).__name__)
        for b in self.prog.recs[t].get('bases', []):
            bs = strip(b)
            if bs in self.prog.recs:
                self.memberwise_fields(self.up(dst, bs), self.up(src, bs), bs, construct, move)
        self.memberwise_fields(dst, src, t, construct, move, own=True)

    def up(self, lv, cls):
        return lv

    def memberwise_fields(self, dst, src, t, construct, move, own=False):
        if not own:
            for b in self.prog.recs[t].get('bases', []):
                if strip(b) in self.prog.recs:
                    self.memberwise_fields(dst, src, strip(b), construct, move)
        for f in self.prog.recs[t]['fields']:
            d = self.field(dst, f['n'], f['t'], t)
            s = self.field(src, f['n'], f['t'], t)
            self.copy_value(d, s, f['t'], construct, move)

    def copy_value(self, d, s, t, construct, move):
        """C++ copy/move of one object of type t"""
        k = self.T.kind(t)
        if k == 'class':
            cls = strip(t)
            cands = [f for f in self.prog.by_cls.get(cls, []) if not f.get('deleted')]
            if construct:
                cc = [f for f in cands if f['kind'] == 'CXXConstructor' and f.get('move' if move else 'copy')] or \
                     [f for f in cands if f['kind'] == 'CXXConstructor' and f.get('copy')]
            else:
                cc = [f for f in cands if f.get('moveassign' if move else 'copyassign')] or \
                     [f for f in cands if f.get('copyassign')]
            if cc and cc[0].get('body') is not None and not cc[0].get('defaulted'):
                if construct:
                    return self.run_ctor(d, cc[0], [s])
                return self.call(cc[0], d, [s])
            return self.memberwise(d, s, cls, construct, move)
        if k == 'vec':
            self.copy_region(d, s, t)
            if move:
                self.store(s.sub('.#', 'int'), z3.IntVal(0))
            return
        if k in ('arr', 'map', 'pair'):
            self.copy_region(d, s, t)
            if move and k == 'map':
                self.default_init(s, None, True)
            return
        v = self.load(s)
        self.store(d, v)
        if move and k == 'ptr' and not strip(t).endswith('*') and not isinstance(v, PtrVal):
            self.store(s, z3.IntVal(0))

    def run_ctor(self, lv, f, vals):
        q = f['q']
        c = self.contract_for(f)
        self.called.add(q)
        if c is not None:
            return c(self, lv, vals, f)
        fr = Frame(f, lv)
        self.bind(fr, f, vals)
        saved = self.fr
        self.fr = fr
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        try:
            for i in f.get('inits', []):
                if i.get('deleg'):
                    self.construct(lv, i['init'])
                elif 'base' in i:
                    bt = strip(i['base'])
                    if bt in self.prog.recs and i.get('init') is not None:
                        c2 = i['init']
                        while c2.get('k') in ('ExprWithCleanups',):
                            c2 = c2['c'][0]
                        if c2.get('k') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                            self.construct(LV(lv.key if not (lv.key.startswith('H:') and lv.key[2:] in self.prog.recs) else 'H:' + bt, lv.idx, bt), c2)
                elif 'field' in i:
                    fl = self.fieldof1(lv, i['field'])
                    if i.get('init') is None or i['init'].get('k') in (None,):
                        self.default_init(fl, None, False)
                    else:
                        self.init_into(fl, i['init'])
            if f.get('body') is not None:
                try:
                    self.stmt(f['body'])
                except Return:
                    pass
        finally:
            self.fr = saved
            self.depth -= 1
            self.release(fr, 0)

    def fieldof1(self, lv, name):
        cls = strip(lv.typ)
        for c in self.prog.bases(cls):
            for f in self.prog.recs[c]['fields']:
                if f['n'] == name:
                    return self.field(lv, name, f['t'], c)
        raise Unsupported(f'field {name} of {cls}')

    # ---------- arguments and calls
    def arg(self, node, ptype):
        """evaluate an argument for a parameter of type ptype; returns an LV/View (references and class values) or a value"""
        return self.ev(node)

    def bind(self, fr, f, vals):
        for i, p in enumerate(f['params']):
            if i >= len(vals) and not p.get('def'):
                break
            v = vals[i] if i < len(vals) else self.ev(p['def'])       # an omitted argument takes its default
            fr.env[p['id']] = self.bind_value(p['n'], p['t'], v)

    def bind_value(self, name, t, v):
        k = self.T.kind(t)
        if isref(t):
            if isinstance(v, (LV, View, TView, ElemLV)):
                if isinstance(v, LV) and v.xv:
                    v = LV(v.key, v.idx, v.typ)
                return v
            if k in ('mexpr', 'view', 'opaque') and not (is_z(v)):
                return v
            lv = self.local(name, t)
            if k in ('mexpr', 'view') and is_z(v):
                lv.typ = 'Eigen::Matrix<double, -1, -1, 0, -1, -1>' if v.sort() == Mat else 'double'
            if v is not None:
                self.store(lv, v)
            return lv
        if k in ('view', 'mexpr', 'opaque'):
            if is_z(v) and v.sort() == Mat:
                lv = self.local(name, 'Eigen::Matrix<double, -1, -1, 0, -1, -1>')
                self.store(lv, v)
                return lv
            return v
        if k in ('class', 'vec', 'arr', 'map', 'pair'):
            if isinstance(v, LV):
                return LV(v.key, v.idx, v.typ)   # prvalue temporaries only: the AST copy-constructs lvalues explicitly
            return v
        lv = self.local(name, t)
        if isinstance(v, (LV, ElemLV, View, TView)):
            v = self.load(v)
        if k == 'mat':
            v = self.mget(v)
        elif is_z(v):
            v = self.convert(v, t)
        self.store(lv, v)
        return lv

    def contract_for(self, f):
        for pred, fn in self.contracts.get(f['q'], []):
            if pred is None or pred(f):
                self.contracts_used.add(f['q'])
                return fn
        return None

    def call(self, f, this, vals, static=False):
        c = self.contract_for(f)
        self.called.add(f['q'])
        if c is not None:
            return c(self, this, vals, f)
        return self.call_body(f, this, vals)

    def call_body(self, f, this, vals):
        if f.get('body') is None:
            if f.get('copyassign') or f.get('moveassign'):
                self.memberwise(this, vals[0], f['cls'], False, bool(f.get('moveassign')))
                return this
            return self.call_virtual_model(f, this, vals)
        fr = Frame(f, this)
        self.bind(fr, f, vals)
        saved = self.fr
        self.fr = fr
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('call depth')
        try:
            try:
                self.stmt(f['body'])
                rv = None
            except Return as r:
                rv = r.v
        finally:
            self.fr = saved
            self.depth -= 1
            self.release(fr, 0)
        if is_z(rv) and not isref(f['ret']):
            rv = self.convert(rv, f['ret'])
        return rv

    def release(self, fr, mark):
        while len(fr.guards) > mark:
            g = fr.guards.pop()
            if self.on_lock is not None:
                self.on_lock(self, g, False)
            self.store(g, z3.BoolVal(False))

    def call_closure(self, c, vals, fid=None):
        if isinstance(c, FnRef):
            raise Unsupported('function pointer call')
        if callable(c):
            return c(self, vals)
        node = c.node
        params, body, ret = node['params'], node['body'], node['ret']
        for s in node.get('specs', []):
            if s['fid'] == fid or body is None and fid is None:
                params, body, ret = s['params'], s['body'], s['ret']
        if body is None:
            for s in node.get('specs', []):
                params, body, ret = s['params'], s['body'], s['ret']
        if body is None:
            raise Unsupported('generic lambda without instantiation')
        fr = Frame({'q': 'lambda'}, c.this, dict(c.env))
        for p, v in zip(params, vals):
            fr.env[p['id']] = self.bind_value(p['n'], p['t'], v)
        saved = self.fr
        self.fr = fr
        for k, v in list(fr.env.items()):       # scalars captured by value
            if isinstance(v, tuple) and v and v[0] == 'captured':
                fr.env[k] = lv = self.local(v[3], v[2])
                self.store(lv, v[1])
        self.depth += 1
        try:
            try:
                self.stmt(body)
                rv = None
            except Return as r:
                rv = r.v
        finally:
            self.fr = saved
            self.depth -= 1
            self.release(fr, 0)
        if is_z(rv) and not isref(ret):
            rv = self.convert(rv, ret)
        return rv

    def x_LambdaExpr(self, n):
        env = {}
        this = self.fr.this
        for c in n['caps']:
            if c.get('this'):
                continue
            if c.get('initcap') or not c['byref']:
                if c['id'] in self.fr.env and not c.get('initcap'):
                    src = self.fr.env[c['id']]
                    if isinstance(src, LV) and self.T.kind(src.typ) not in ('class', 'vec', 'arr', 'map', 'pair'):
                        v = self.load(src)
                        if is_z(v):
                            env[c['id']] = ('captured', v, src.typ, c['n'])
                            continue
                        lv = self.local(c['n'], src.typ)
                        self.store(lv, v)
                        env[c['id']] = lv
                    elif isinstance(src, LV):
                        lv = self.local(c['n'], src.typ)
                        self.assign(lv, src, src.typ)
                        env[c['id']] = lv
                    else:
                        env[c['id']] = src
                else:
                    v = self.ev(c['init'])
                    if is_z(v):
                        lv = self.local(c['n'], c['init']['t'])
                        self.store(lv, v)
                        v = lv
                    env[c['id']] = v
            else:
                env[c['id']] = self.fr.env[c['id']]
        return Closure(n, env, this)

    def x_CXXNewExpr(self, n):
        t = self.T.pointee(n['t'])
        ref = self.alloc(t)
        lv = LV('H:' + t, (ref,), t)
        if n.get('args'):
            self.init_into(lv, n['args'][0])
        return ref

    def x_CXXThrowExpr(self, n):
        raise Abort('throw', self.line)

    def x_CXXDeleteExpr(self, n):
        return None

    # ---------- statements
    def stmt(self, n):
        if n is None:
            return
        if 'l' in n:
            self.line = n['l']
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.ev(n)
            return
        m(n)

    def s_CompoundStmt(self, n):
        mark = len(self.fr.guards)
        fr = self.fr
        try:
            for c in n.get('c', []):
                self.stmt(c)
        finally:
            if len(fr.guards) > mark:
                self.release(fr, mark)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for v in n['vars']:
            self.declare(v)

    def declare(self, v):
        t = v['t']
        k = self.T.kind(t)
        init = v.get('init')
        if isref(t):
            x = self.ev(init)
            self.fr.env[v['id']] = self.bind_value(v['n'], t, x)
            return
        if k in ('view', 'mexpr'):
            x = self.ev(init)
            if isinstance(x, (View, LV, TView)) and k == 'view':
                self.fr.env[v['id']] = x
                return
            if isinstance(x, ArrV):
                self.fr.env[v['id']] = x
                return
            lv = self.local(v['n'], 'Eigen::Matrix<double, -1, -1, 0, -1, -1>')
            self.store(lv, self.mget(x))
            self.fr.env[v['id']] = lv
            return
        if k == 'opaque':
            x = self.ev(init) if init is not None else None
            if isinstance(x, tuple) and x and x[0] == 'guard':
                self.fr.guards.append(x[1])
            self.fr.env[v['id']] = x if isinstance(x, LV) else Opaque(t)
            return
        lv = self.local(v['n'], t)
        self.fr.env[v['id']] = lv
        if init is None:
            if k in ('vec', 'map', 'class', 'str', 'mat') or (k == 'ptr' and not strip(t).endswith('*')) or k == 'py':
                self.default_init(lv, None, False)
            return
        self.init_into(lv, init)

    def s_IfStmt(self, n):
        if n.get('init'):
            self.stmt(n['init'])
        if n.get('condvar'):
            self.declare(n['condvar'])
        c = self.to_bool(self.num(n['cond']))
        if self.choose(c):
            self.stmt(n['then'])
        elif n.get('else'):
            self.stmt(n['else'])

    def s_ReturnStmt(self, n):
        if n.get('c'):
            v = self.ev(n['c'][0])
        else:
            v = None
        # the returned prvalue of leaf type must be read before locals die; locals are never reused, so laziness is safe
        raise Return(v)

    def s_BreakStmt(self, n):
        raise Break()

    def s_ContinueStmt(self, n):
        raise Continue()

    def s_SwitchStmt(self, n):
        v = self.integer(n['cond'])
        body = n['body']
        items = body.get('c', []) if body['k'] == 'CompoundStmt' else [body]
        flat = []          # (labels, stmt)
        for it in items:
            labels = []
            while it is not None and it['k'] in ('CaseStmt', 'DefaultStmt'):
                labels.append('default' if it['k'] == 'DefaultStmt' else it['val'])
                it = it['sub']
            flat.append((labels, it))
        start, default = None, None
        for i, (labels, _) in enumerate(flat):
            for lb in labels:
                if lb == 'default':
                    default = i
                elif start is None:
                    if self.choose(v == self.integer(lb)):
                        start = i
            if start is not None:
                break
        if start is None:
            start = default
        if start is None:
            return
        try:
            for _, st in flat[start:]:
                self.stmt(st)
        except Break:
            pass

    def s_ForStmt(self, n):
        if n.get('init'):
            self.stmt(n['init'])
        self.loop(n, 'for', lambda: self.to_bool(self.num(n['cond'])) if n.get('cond') else z3.BoolVal(True),
                  lambda: self.stmt(n['body']), lambda: self.ev(n['inc']) if n.get('inc') else None)

    def s_WhileStmt(self, n):
        self.loop(n, 'while', lambda: self.to_bool(self.num(n['cond'])), lambda: self.stmt(n['body']), lambda: None)

    def s_DoStmt(self, n):
        # do body while(c)  ==  flag loop
        first = self.local('dofirst', 'bool')
        self.store(first, z3.BoolVal(True))

        def cond():
            if self.choose(self.load(first)):
                return z3.BoolVal(True)
            return self.to_bool(self.num(n['cond']))

        def body():
            self.store(first, z3.BoolVal(False))
            self.stmt(n['body'])
        self.loop(n, 'do', cond, body, lambda: None)

    def s_CXXForRangeStmt(self, n):
        rng = self.ev(n['range'])
        var = n['var']
        if isinstance(rng, LV) and self.T.kind(rng.typ) == 'map':
            return self.loop_map(n, rng, var)
        if not isinstance(rng, LV) or self.T.kind(rng.typ) not in ('vec', 'arr', 'class'):
            raise Unsupported('range-for over ' + str(type(rng)))
        if self.T.kind(rng.typ) == 'class':
            raise Unsupported('range-for over class')
        it = self.local('__it', 'int')
        self.store(it, z3.IntVal(0))
        if self.T.kind(rng.typ) == 'vec':
            size = self.load(rng.sub('.#', 'int'))
        else:
            size = z3.IntVal(int(targs(strip(rng.typ))[1]))

        def body():
            e = rng.sub('[]', self.T.elem(rng.typ), self.load(it))
            t = var['t']
            if isref(t):
                self.fr.env[var['id']] = e
            else:
                lv = self.local(var['n'], t)
                if self.T.kind(t) in ('class', 'vec', 'arr', 'map', 'pair'):
                    self.copy_value(lv, e, t, True, False)
                else:
                    self.store(lv, self.load(e))
                self.fr.env[var['id']] = lv
            self.stmt(n['body'])

        def inc():
            self.store(it, z3.simplify(self.load(it) + 1))
        self.loop(n, 'range', lambda: self.load(it) < size, body, inc)

    def s_CXXTryStmt(self, n):
        self.stmt(n['c'][0])     # nothing throws: allocation and thread creation are assumed to succeed

    # ---------- calls
    def x_CallExpr(self, n):
        q = n.get('q')
        if q is None:
            if 'callee' in n:
                c = self.rv(n['callee'])
                if isinstance(c, Closure):
                    return self.call_closure(c, [self.ev(a) for a in n['args']])
            raise Unsupported('indirect call')
        f = self.prog.by_fid.get(n['fid'])
        if q == 'altro::utils::AssertMsg':
            c = self.to_bool(self.num(n['args'][0]))
            if not self.choose(c):
                raise Abort('assert', self.line)
            return None
        if f is not None and (f.get('body') is not None):
            vals = [self.arg(a, p['t']) for a, p in zip(n['args'], f['params'])]
            return self.call(f, None, vals)
        h = getattr(self, 'f_' + re.sub(r'\W+', '_', q), None)
        if h:
            return h(n)
        if q.startswith('fmt::') or q in IGNORED_FUNCS:
            return Opaque(q)
        if q.startswith('Eigen::') and n.get('fn') in ('Zero', 'Identity', 'Random', 'Ones', 'Constant'):
            return self.eigen_nullary(n)
        raise Unsupported('call ' + q)

    def eigen_nullary(self, n):
        t = n['t']
        # dims from the plain type mentioned in the qualified name
        m = re.search(r'Eigen::Matrix<double, (-?\d+), (-?\d+)', n['q'] + ' ' + t)
        R_, C_ = int(m.group(1)), int(m.group(2))
        a = [self.integer(x) for x in n['args']] if n['fn'] != 'Constant' else [self.num(x) for x in n['args']]
        val = None
        if n['fn'] == 'Constant':
            val = zr(a.pop())
            a = [self.to_int(x) for x in a]
        if len(a) == 2:
            r, c = a
        elif len(a) == 1:
            r, c = (a[0], z3.IntVal(1)) if C_ == 1 else (z3.IntVal(1), a[0])
        else:
            if R_ < 0 or C_ < 0:
                raise Unsupported('fixed-size nullary on dynamic matrix')
            r, c = z3.IntVal(R_), z3.IntVal(C_)
        self.nonneg_dim(r)
        if not z3.is_int_value(c):
            self.nonneg_dim(c)
        fn = n['fn']
        if fn == 'Zero':
            return M.zero(r, c)
        if fn == 'Identity':
            return M.ident(r, c)
        if fn == 'Ones':
            return M.mk(r, c, lambda i, j: z3.RealVal(1))
        if fn == 'Constant':
            return M.mk(r, c, lambda i, j: val)
        return self.fresh_mat('random', r, c)

    def f_std_move(self, n):
        v = self.ev(n['args'][0])
        if isinstance(v, LV):
            return LV(v.key, v.idx, v.typ, True)
        return v

    def f_std_forward(self, n):
        return self.ev(n['args'][0])

    def f_std_max(self, n):
        a, b = [self.num(x) for x in n['args'][:2]]
        a, b = (zr(a), zr(b)) if R in (a.sort(), b.sort()) else (a, b)
        return zmax(a, b)

    def f_std_min(self, n):
        a, b = [self.num(x) for x in n['args'][:2]]
        a, b = (zr(a), zr(b)) if R in (a.sort(), b.sort()) else (a, b)
        return zmin(a, b)

    def f_std_abs(self, n):
        return M.zabs(self.num(n['args'][0]))

    f_std_fabs = f_fabs = f_abs = f_std_abs

    def f_round(self, n):
        v = zr(self.num(n['args'][0]))
        h = z3.RealVal('1/2')
        return z3.ToReal(z3.If(v >= 0, z3.ToInt(v + h), -z3.ToInt(-v + h)))

    f_std_round = f_round

    def f_floor(self, n):
        return z3.ToReal(z3.ToInt(zr(self.num(n['args'][0]))))

    f_std_floor = f_floor

    def f_rand(self, n):
        r = self.fresh('rand', I)
        self.assume(r >= 0)
        return r

    def f_std_thread_hardware_concurrency(self, n):
        r = self.fresh('hardware_threads', I)
        self.assume(r >= 0)
        return r

    def f_abort(self, n):
        raise Abort('abort', self.line)

    def f_std_numeric_limits_double_infinity(self, n):
        return self.fresh_named('INFINITY', R)

    def f_std_swap(self, n):
        a, b = [self.ev(x) for x in n['args']]
        t = a.typ
        k = self.T.kind(t)
        if k in ('class', 'vec', 'arr', 'map', 'pair'):
            tmp = self.temp(t)
            self.copy_region(tmp, a, t)
            self.copy_region(a, b, t)
            self.copy_region(b, tmp, t)
        else:
            x, y = self.load(a), self.load(b)
            self.store(a, y)
            self.store(b, x)

    def f_std_sort(self, n):
        """std::sort / std::stable_sort of a whole vector: a permutation of its elements (the order itself is not specified here)"""
        a, b = [self.ev(x) for x in n['args'][:2]]
        if not (isinstance(a, IterV) and isinstance(b, IterV)) or a.rev or b.rev or a.vec.key != b.vec.key:
            raise Unsupported('std::sort of this range')
        if len(n['args']) > 2:
            self.ev(n['args'][2])
        vec = a.vec
        size = self.load(vec.sub('.#', 'int'))
        if not (self.implied(a.i == 0) and self.implied(b.i == size)):
            raise Unsupported('std::sort of part of a vector')
        self.trust_used.add('std::sort')
        self.cnt += 1
        pi = z3.Function(f'sorted{self.cnt}', I, I)
        inv = z3.Function(f'unsorted{self.cnt}', I, I)
        self.univ.append(lambda k: z3.Implies(z3.And(k >= 0, k < size), z3.And(pi(k) >= 0, pi(k) < size, inv(pi(k)) == k, inv(k) >= 0, inv(k) < size, pi(inv(k)) == k)))
        self.last_sort = (pi, inv)
        nd = len(vec.idx)
        for s, more, lt in self.T.leaves(targs(strip(vec.typ))[0]):
            key, kd = vec.key + '[]' + s, self.T.kind(lt)
            prev = self.fmap(key, kd)

            def cond(q):
                c = self.eqidx(q[:nd], vec.idx)
                return z3.And(c if is_z(c) else z3.BoolVal(c), q[nd] >= 0, q[nd] < size)
            r = Fn(prev, cond, lambda q, prev=prev: self.mread(prev, tuple(q[:nd]) + (pi(q[nd]),) + tuple(q[nd + 1:])), 'sort')
            r.nidx, r.pat = nd + 1 + more, list(vec.idx) + [None] * (more + 1)
            self.mem[key] = r

    f_std_stable_sort = f_std_sort

    def fresh_named(self, n, s):
        return z3.Const(n, s)

    def f_std_make_shared(self, n):
        t = strip(n['targs'][0]) if n.get('targs') else self.T.pointee(n['t'])
        ref = self.alloc(t)
        lv = LV('H:' + t, (ref,), t)
        self.emplace_into(lv, t, n['args'])
        return ref

    f_std_make_unique = f_std_make_shared

    def emplace_into(self, lv, t, argnodes):
        k = self.T.kind(t)
        if k == 'class':
            vals = [self.ev(a) for a in argnodes]
            if len(vals) == 1 and isinstance(vals[0], LV) and strip(vals[0].typ) == strip(t):
                return self.copy_value(lv, vals[0], t, True, vals[0].xv)
            f = self.resolve_ctor(strip(t), vals, argnodes)
            if f is None:
                if not vals:
                    return self.default_init(lv, None, True)
                raise Unsupported('constructor for ' + t)
            return self.run_ctor(lv, f, vals)
        if k == 'mat':
            if not argnodes:
                return self.store(lv, self.default_leaf(t))
            v = self.construct_mat(strip(t), {'t': t}, argnodes)
            return self.store(lv, v)
        if k in ('vec', 'arr', 'map', 'pair'):
            if not argnodes:
                return self.default_init(lv, None, True)
            v = self.ev(argnodes[0])
            if isinstance(v, LV) and len(argnodes) == 1 and self.T.kind(v.typ) == k:
                return self.copy_value(lv, v, t, True, v.xv)
            raise Unsupported('emplace ' + t)
        if k == 'opaque':
            for a in argnodes:
                self.ev(a)
            return
        if not argnodes:
            v = self.default_leaf(t)
            return self.store(lv, v)
        v = self.ev(argnodes[0])
        src = v
        if isinstance(v, (LV, ElemLV, View, TView)):
            v = self.load(v)
        if (k == 'ptr' or k == 'int' and is_task(t)) and isinstance(src, LV) and src.xv and not isinstance(v, PtrVal):
            self.store(src, z3.IntVal(0))
        self.store(lv, self.convert(v, t) if is_z(v) else v)

    def resolve_ctor(self, cls, vals, nodes):
        best, bs = None, -1
        for f in self.prog.by_cls.get(cls, []):
            if f['kind'] != 'CXXConstructor' or f.get('deleted') or len(f['params']) < len(vals):
                continue
            if len(f['params']) > len(vals):
                continue
            s = 0
            for p, v, nd in zip(f['params'], vals, nodes):
                pk, ak = self.T.kind(p['t']), self.T.kind(nd['t'])
                if strip(p['t']) == strip(nd['t']):
                    s += 3
                elif pk == ak and pk not in ('class', 'vec', 'ptr'):
                    s += 2
                elif pk == 'ptr' and ak == 'ptr':
                    s += 2
                elif {pk, ak} <= {'int', 'real', 'bool'}:
                    s += 1
                elif {pk, ak} <= {'mat', 'view', 'mexpr'}:
                    s += 1
                else:
                    s = -100
            if s > bs and s >= 0:
                best, bs = f, s
        return best

    def f_std_make_pair(self, n):
        return tuple(self.ev(a) for a in n['args'])

    def x_CXXMemberCallExpr(self, n):
        cls = n.get('cls', '')
        obj = self.ev(n['obj']) if n.get('obj') is not None else self.fr.this
        if cls.startswith('altro::') or n.get('fid') in self.prog.by_fid:
            for p in NOEFFECT_CLASSES:
                if cls.startswith(p) and not cls.startswith(self.effectful):
                    return self.noeffect(n, obj)
            if n.get('arrow'):
                if isinstance(obj, LV):
                    obj = self.load(obj)
                if isinstance(obj, Opaque):
                    return Opaque('')
                obj = self.deref(obj, self.ptr_class(n['obj'], cls))
            f = self.prog.by_fid.get(n['fid'])
            if f is None:
                if n.get('isvirt'):
                    return self.call_virtual_model({'q': n['q'], 'fn': n['fn'], 'fid': n['fid'], 'cls': cls, 'params': [], 'ret': n['t']},
                                                   obj, [self.ev(a) for a in n['args']])
                raise Unsupported('method without body ' + n['q'])
            vals = [self.arg(a, p['t']) for a, p in zip(n['args'], f['params'])]
            if n.get('isvirt') and not n.get('qualified'):
                return self.call_virtual(f, obj, vals)
            return self.call(f, obj, vals)
        return self.builtin_method(n, obj)

    def ptr_class(self, node, cls):
        t = strip(node['t'])
        if t.endswith('*'):
            return strip(t[:-1])
        return cls

    def noeffect(self, n, obj):
        self.trust_used.add(n.get('cls', ''))
        for a in n['args']:
            try:
                self.ev(a)
            except Unsupported:
                pass
        k = self.T.kind(n['t'])
        if n.get('lv'):
            return obj if isinstance(obj, LV) and strip(n['t']) == strip(obj.typ) else Opaque(n['t'])
        if k in ('int', 'bool', 'real'):
            return self.fresh('noeff', SORT[k])
        return Opaque(n['t'])

    def dyncls(self, this):
        """exact dynamic class of the object, when known"""
        if not isinstance(this, LV):
            return None
        if this.key.startswith('H:') and len(this.idx) == 1 and this.key[2:] in self.prog.recs:
            d = self.dyn.get(this.idx[0].get_id())
            if d:
                return d[1]
            return self.dyn_hook(this)
        return strip(this.typ) if self.T.kind(this.typ) == 'class' else None

    def dyn_hook(self, this):
        return None

    def call_virtual(self, f, obj, vals):
        cls = self.dyncls(obj)
        if cls and cls in self.prog.recs:
            g = self.prog.override(f['fid'], cls)
            if g is not None and (g.get('body') is not None):
                if obj.key.startswith('H:') and obj.key[2:] in self.prog.recs and len(obj.idx) == 1:
                    obj = LV('H:' + cls, obj.idx, cls)
                return self.call(g, obj, vals)
        if self.final_class(f['cls']):
            return self.call(f, obj, vals)
        return self.call_virtual_model(f, obj, vals)

    def final_class(self, cls):
        return False

    def call_virtual_model(self, f, obj, vals):
        h = self.virtual.get(f['fn'])
        if h is None:
            raise Unsupported('virtual ' + f['q'])
        return h(self, f, obj, vals)

    # ---------- operator calls and library builtins
    def x_CXXOperatorCallExpr(self, n):
        f = self.prog.by_fid.get(n.get('fid'))
        op = n['op']
        if f is not None and not f['cls'].startswith('(lambda') and '(lambda at' not in f.get('cls', '').split('<')[0]:
            if f.get('cls', '').startswith(('altro::Timer', 'altro::Stopwatch', 'altro::LogEntry')):
                return Opaque(f['cls'])
            if f.get('kind') == 'CXXMethod' and not f.get('isstatic'):
                this = self.ev(n['args'][0])
                vals = [self.arg(a, p['t']) for a, p in zip(n['args'][1:], f['params'])]
                if isinstance(this, LV) and this.xv:
                    this = LV(this.key, this.idx, this.typ)
                if f.get('body') is None or f.get('defaulted'):
                    if f.get('copyassign') or f.get('moveassign'):
                        self.memberwise(this, vals[0], f['cls'], False, bool(f.get('moveassign')))
                        return this
                if f.get('isvirt'):
                    return self.call_virtual(f, this, vals)
                return self.call(f, this, vals)
            vals = [self.arg(a, p['t']) for a, p in zip(n['args'], f['params'])]
            return self.call(f, None, vals)
        return self.builtin_op(n, op)

    def x_CXXRewrittenBinaryOperator(self, n):
        return self.ev(n['c'][0])

    def iter_deref(self, it):
        i = it.i
        if it.rev:
            sz = self.load(it.vec.sub('.#', 'int'))
            i = z3.simplify(sz - 1 - i)
        return it.vec.sub('[]', self.T.elem(it.vec.typ), i)

    def vec_size(self, v):
        return self.load(v.sub('.#', 'int'))

    def bounds(self, v, i, what):
        if self.nofork:
            return
        if not self.choose(z3.And(i >= 0, i < self.vec_size(v))):
            raise Abort(what + ' out of range', self.line)


def _after(key):
    """part of a heap key after its class name, to tell roots 'H:ns::C<..>' from field paths"""
    k = key[2:]
    d, out = 0, ''
    for ch in k:
        if ch == '<' or ch == '(':
            d += 1
        elif ch == '>' or ch == ')':
            d -= 1
        elif d == 0 and ch in '.[':
            out += ch
    return out
