"""Loop summarisation: for every loop with no literal trip count the executor computes, for all iterations at once,
what each memory cell holds after t iterations (or an uninterpreted "value before iteration t" where it has no closed
form), and leaves the loop through every feasible exit with the state of that exit."""
import z3
from . import mat as M
from .core import *

MAXUNROLL = 40
F_isum = z3.Function('isum', I, I, z3.ArraySort(I, I), I)
F_geo = z3.Function("geo", R, I, R)      # geo(q, 0) = 1, geo(q, j + 1) = q * geo(q, j)


class LPNode(FMap):
    """contents of one memory map at the start of iteration t of a loop under analysis"""

    def __init__(self, loop, key, kind, pre, t):
        self.loop, self.key, self.kind, self.pre, self.t = loop, key, kind, pre, t
        self.nidx = getattr(pre, 'nidx', None)
        self.prev = pre

    def read(self, X, idx):
        return self.loop.read_at(X, self.key, self.kind, self.pre, idx, self.t)

    def pseudo(self, X):
        """the completed loop's effect on this map as a list of writes, latest first"""
        out = []
        loop, key, kind, t = self.loop, self.key, self.kind, self.t
        for c in loop.cells.get(key, []):
            if c['k'] == 'fixed':
                out.append(Store(None, tuple(c['idx']), c['at'](t)))
                continue
            if c['k'] == 'mov':
                def cond(q, c=c):
                    tau = c['tau'](q)
                    return z3.simplify(z3.And(c['cond'](q), tau >= 0, tau < t))

                def val(q, c=c):
                    return loop.movval(X, key, kind, c, q)
            else:
                def cond(q, c=c):
                    return c['may'](q)

                def val(q, c=c):
                    return loop.lp(X, key, kind, q, t)
            r = Fn(None, cond, val, 'loop')
            r.nidx = self.nidx if self.nidx is not None else c.get('nidx')
            out.append(r)
        return out

    def expand(self, X):
        base = self.prev
        for n in reversed(self.pseudo(X)):
            if isinstance(n, Store):
                base = Store(base, n.idx, n.val)
            else:
                r = Fn(base, n.cond, n.val, n.note)
                r.nidx, r.pat = n.nidx, n.pat
                base = r
        return base


class Loop:
    def __init__(self, lid, t):
        self.lid, self.t = lid, t
        self.W = {}              # key -> kind
        self.cells = {}          # key -> list of cell classes
        self.defs = {}           # LF term id -> (term, template) for recursive cells
        self.noseq = {}          # failures of cells that do not walk along a ghost sequence
        self.rec = set()         # keys whose moving values are recursive
        self.md = {}             # local matrices whose dimensions the body preserves: key -> dimensions

    # ---- symbols
    def lp(self, X, key, kind, idx, t, shape=None):
        """unknown value of a cell before iteration t"""
        if kind in SORT and not isinstance(shape, (PtrVal, IterV)):
            nm = f'LP{self.lid}:{key}'
            md = self.md.get(key) if not idx else None
            if md is not None:
                nm += f'!{md[0].sexpr()},{md[1].sexpr()}'
            s = z3.Function(nm, *[I] * (len(idx) + 1 + len(X.outer_lv(self))), SORT[kind])(*idx, *X.outer_lv(self), t)
            if md is not None:
                M.reg_dims(s, *md)
            elif kind == 'mat':
                X.mat_dims_for(s, key, idx)
            return s
        if isinstance(shape, PtrVal) and isinstance(shape.lv, LV):
            ix = [z3.Function(f'LP{self.lid}p{j}:{key}', *[I] * (len(idx) + 1), I)(*idx, t) for j in range(len(shape.lv.idx))]
            return PtrVal(LV(shape.lv.key, ix, shape.lv.typ))
        if isinstance(shape, IterV):
            return IterV(shape.vec, z3.Function(f'LP{self.lid}i:{key}', *[I] * (len(idx) + 1), I)(*idx, t), shape.rev)
        raise Unsupported(f'loop-carried value of kind {kind} in {key}')

    def lf(self, X, key, kind, idx):
        nm = f'LF{self.lid}:{key}'
        if kind not in SORT:
            raise Unsupported(f'loop-carried value of kind {kind} in {key}')
        s = z3.Function(nm, *[I] * (len(idx) + len(X.outer_lv(self))), SORT[kind])(*idx, *X.outer_lv(self))
        if kind == 'mat':
            X.mat_dims_for(s, key, idx)
        return s

    def read_at(self, X, key, kind, pre, idx, t):
        """value of cell idx before iteration t"""
        for c in self.cells.get(key, []):
            k = c['k']
            if k == 'fixed':
                e = X.eqidx(idx, c['idx'])
                if e is False:
                    continue
                if e is not True:
                    if X.nofork:
                        d = X.decide(e)
                        if d is None:
                            rest = self._rest(X, key, kind, pre, idx, t, c)
                            return X.ite(e, c['at'](t), rest)
                        if not d:
                            continue
                    elif not X.choose(e):
                        continue
                return c['at'](t)
            if k == 'mov':
                cond, tau = c['cond'](idx), c['tau'](idx)
                e = z3.simplify(z3.And(cond, tau >= 0, tau < t))
                if z3.is_false(e):
                    continue
                if not z3.is_true(e):
                    if X.nofork:
                        if t is self.t and c['val'] is not None:
                            self.rec.add(key)
                        v = self.movval(X, key, kind, c, idx)
                        return X.ite(e, v, self._rest(X, key, kind, pre, idx, t, c))
                    if not X.choose(e):
                        continue
                if t is self.t and c['val'] is not None:
                    self.rec.add(key)       # the loop reads back what an earlier iteration wrote
                return self.movval(X, key, kind, c, idx)
            if k == 'unk':
                e = z3.simplify(c['may'](idx))
                if z3.is_false(e):
                    continue
                if not z3.is_true(e) and not X.nofork and X.implied(z3.Not(e)):
                    continue
                # at t == 0 nothing has been written yet
                if not X.nofork and t is not None:
                    z = z3.simplify(t == 0)
                    if z3.is_true(z):
                        continue
                return self.lp(X, key, kind, idx, t)
        return X.mread(pre, idx)

    def _rest(self, X, key, kind, pre, idx, t, after):
        cs = self.cells[key]
        sub = Loop(self.lid, self.t)
        sub.cells = {key: cs[cs.index(after) + 1:]}
        sub.rec, sub.defs, sub.md = self.rec, self.defs, self.md
        return sub.read_at(X, key, kind, pre, idx, t)

    def movval(self, X, key, kind, c, idx):
        if c['val'] is None or key in self.rec:
            s = self.lf(X, key, kind, idx)
            if c['val'] is not None:
                X.lfcells[s.decl().name()] = (self, key, len(idx))
            return s
        return c['val'](idx)


def contains(v, pred):
    if is_z(v):
        st, seen = [v], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if pred(x):
                return True
            if z3.is_quantifier(x):
                st.append(x.body())
            else:
                st.extend(x.children())
        return False
    if isinstance(v, PtrVal):
        return contains(v.lv, pred)
    if isinstance(v, LV):
        return any(contains(i, pred) for i in v.idx)
    if isinstance(v, IterV):
        return contains(v.i, pred) or contains(v.vec, pred)
    if isinstance(v, View):
        return contains(v.lv, pred) or any(contains(i, pred) for i in (v.i, v.j, v.r, v.c))
    return False


def subv(v, pairs):
    if is_z(v):
        return M.subst(v, pairs)
    if isinstance(v, PtrVal):
        return PtrVal(subv(v.lv, pairs))
    if isinstance(v, LV):
        return LV(v.key, [z3.simplify(z3.substitute(i, *pairs)) for i in v.idx], v.typ, v.xv)
    if isinstance(v, IterV):
        return IterV(subv(v.vec, pairs), z3.simplify(z3.substitute(v.i, *pairs)), v.rev)
    if isinstance(v, View):
        return View(subv(v.lv, pairs), *[z3.simplify(z3.substitute(i, *pairs)) for i in (v.i, v.j, v.r, v.c)])
    if isinstance(v, Closure):
        return Closure(v.node, {k: subv(x, pairs) for k, x in v.env.items()}, subv(v.this, pairs), v.name)
    if isinstance(v, tuple):
        return tuple(subv(x, pairs) for x in v)
    return v


def veq(a, b):
    if a is b:
        return True
    if is_z(a) and is_z(b):
        if a.eq(b):
            return True
        if a.sort() != b.sort():
            return False
        if a.sort() == Mat:
            return not M.mp_add(M.mpoly(a), M.mpoly(b), -1)
        if a.sort() == R:
            return not M.sp_add(M.spoly(a), M.spoly(b), -1)
        return z3.is_true(z3.simplify(a == b))
    if isinstance(a, PtrVal) and isinstance(b, PtrVal):
        return veq(a.lv, b.lv)
    if isinstance(a, LV) and isinstance(b, LV):
        return a.key == b.key and len(a.idx) == len(b.idx) and all(veq(x, y) for x, y in zip(a.idx, b.idx))
    if isinstance(a, IterV) and isinstance(b, IterV):
        return a.vec.key == b.vec.key and a.rev == b.rev and veq(a.i, b.i) and all(veq(x, y) for x, y in zip(a.vec.idx, b.vec.idx))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    if isinstance(a, Closure) and isinstance(b, Closure):
        return a.node is b.node and a.env == b.env
    return False


def linear(e, t):
    """e == a*t + b with a an integer literal: returns (a, b) or None"""
    if not z3.is_int(e):
        return None
    e0 = z3.simplify(z3.substitute(e, (t, z3.IntVal(0))))
    d = z3.simplify(z3.substitute(e, (t, t + 1)) - e)
    if not z3.is_int_value(d):
        d = z3.simplify(z3.substitute(e, (t, t + 1)) - e, som=True)
        if not z3.is_int_value(d):
            return None
    return d.as_long(), e0


class Loops:
    """mixin of Interp"""
    UNROLL_KINDS = ('for', 'range')

    def outer_lv(self, loop):
        return loop.outer if hasattr(loop, 'outer') else ()

    def loop(self, n, kind, cond, body, inc):
        if self.loop_handler is not None and self.loop_handler(self, n, kind, cond, body, inc):
            return      # a loop with an invariant supplied by the contract
        if kind in self.UNROLL_KINDS:
            for _ in range(MAXUNROLL):
                c = z3.simplify(cond())
                if z3.is_false(c):
                    return
                if not z3.is_true(c):
                    break
                try:
                    try:
                        body()
                    except Continue:
                        pass
                    inc()
                except Break:
                    return
            else:
                raise Unsupported('loop unrolling limit')
        if self.nofork:
            raise Unsupported('loop inside a term template')
        self.symbolic_loop(n, kind, cond, body, inc)

    # ------------------------------------------------------------------
    def symbolic_loop(self, n, kind, cond, body, inc):
        self.cnt += 1
        lid = self.cnt
        t = z3.Int(f't!{lid}')
        pre = dict(self.mem)
        mk = (id(n), lid, tuple(map(str, self.trace[:self.pos])), tuple(self.ctxkey))
        hit = self.memo.get(mk)
        if hit is None:
            mode = 'count'
            res = self.analyse(lid, t, pre, kind, cond, body, inc, True)
            if res is None:
                mode = 'rot'
                res = self.analyse(lid, t, pre, kind, cond, body, inc, False)
            hit = self.memo[mk] = (mode,) + res
        M.clear_path_caches()      # the same state whether or not the analysis was just run
        mode, loop, paths, condt, maxcnt, lcount = hit
        self.cnt = max(self.cnt, maxcnt) + 1
        exits = [p for p in paths if p['kind'] != 'next']
        if mode == 'count':
            T = self.trip(condt, t)
            self.last_T = T
            pick = self.select(1 + len(exits))
            if pick == 0:
                for e in exits:
                    self.univ_not(e, t, z3.IntVal(0), T)
                self.exit_T = T
                self.install_state(loop, pre, T)
                nx = [p for p in paths if p['kind'] == 'next']
                self.univ_defs(nx, t, z3.IntVal(0), T)
                self.univ_steps(loop, t, T)
                if getattr(loop, 'cond_effect', False):
                    cond()       # the evaluation that ended the loop
                return
            e = exits[pick - 1]
            ts = self.fresh('tx', I)
            self.assume(z3.And(ts >= 0, ts < T))
            return self.leave(loop, pre, e, t, ts, exits, paths)
        # rotated loop: entered only if the condition holds; leaves only through an exit path
        if kind != 'do' and not self.choose(cond()):
            return
        pick = self.select(len(exits)) if exits else None
        if pick is None:
            raise Infeasible()     # never terminates normally
        e = exits[pick]
        ts = self.fresh('tx', I)
        self.assume(ts >= 0)
        return self.leave(loop, pre, e, t, ts, exits, paths)

    def select(self, n):
        """which way the loop ends; recorded as a decision so that an enclosing loop can tell the cases apart"""
        if n == 1:
            return 0
        sel = self.fresh('way', I)
        p = self.choose_n(n)
        self.assume(sel == p)
        self.decs.append(sel == p)
        return p

    def leave(self, loop, pre, e, t, ts, exits, paths):
        sub = [(t, ts)]
        self.exit_index = ts
        self.install_state(loop, pre, ts)
        for f in e['facts']:
            self.assume(z3.substitute(f, *sub))
        if self.check() == z3.unsat:
            raise Infeasible()
        for u in e['univ']:
            self.univ.append(lambda k, u=u: z3.substitute(u(k), *sub))
        for x in exits:
            self.univ_not(x, t, z3.IntVal(0), ts)
        self.univ_defs([p for p in paths if p['kind'] == 'next'], t, z3.IntVal(0), ts)
        self.univ_steps(loop, t, ts)
        # facts at the first iteration are useful for counting arguments
        for key, chain in e['writes'].items():
            self.apply_chain(key, loop.W[key], chain, sub)
        for key, m in e['newkeys'].items():
            if key not in self.mem:
                self.mem[key] = self.subst_map(m, sub)
        if e['kind'] == 'return':
            raise Return(self.subst_ret(e['val'], sub))
        if e['kind'] == 'abort':
            raise Abort(e['val'].what, e['val'].line)

    def subst_ret(self, v, sub):
        return subv(v, sub)

    def subst_map(self, m, sub):
        if isinstance(m, Base):
            return m
        if isinstance(m, Store):
            return Store(self.subst_map(m.prev, sub), tuple(z3.simplify(z3.substitute(i, *sub)) for i in m.idx), subv(m.val, sub))
        if isinstance(m, Fn):
            r = Fn(self.subst_map(m.prev, sub), lambda q: self._subq(m.cond, q, sub), lambda q: self._subq(m.val, q, sub))
            r.nidx, r.pat = m.nidx, getattr(m, 'pat', None)
            return r
        if isinstance(m, LPNode):
            return self.subst_map(m.expand(self), sub)
        raise Unsupported('map')

    def _subq(self, fn, q, sub):
        ph = [z3.Int(f'ph!{j}') for j in range(len(q))]
        self.nofork += 1
        try:
            v = fn(tuple(ph))
        finally:
            self.nofork -= 1
        v = subv(v, list(sub) + list(zip(ph, q)))
        return self.own_norm(v)

    def own_norm(self, v):
        """owner(table[e]) is e"""
        if not self.injective or not is_z(v):
            return v
        owners = {own.name(): (nm, pos) for nm, (pos, own) in self.injective.items()}
        subs, seen, st = [], set(), [v]
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.sort() == I and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                y = z3.simplify(x)
                if not y.eq(x) and not contains(y, lambda q: q.decl().name() in owners if z3.is_app(q) else False):
                    subs.append((x, y))
                    continue
            o = owners.get(x.decl().name())
            if o and z3.is_app(x.arg(0)) and x.arg(0).decl().name() == o[0]:
                subs.append((x, x.arg(0).arg(o[1])))
                continue
            st.extend(x.children())
        return M.subst(v, subs) if subs else v

    def apply_chain(self, key, kind, chain, sub):
        base = self.mem[key] if key in self.mem else self.fmap(key, kind)
        for node in reversed(chain):
            if isinstance(node, Store):
                base = Store(base, tuple(z3.simplify(z3.substitute(i, *sub)) for i in node.idx), subv(node.val, sub))
            else:
                m = node
                r = Fn(base, (lambda q, m=m: self._subq(m.cond, q, sub)), (lambda q, m=m: self._subq(m.val, q, sub)))
                r.nidx, r.pat = m.nidx, [z3.simplify(z3.substitute(i, *sub)) if i is not None else None for i in m.pat] \
                    if getattr(m, 'pat', None) else None
                base = r
        self.mem[key] = base

    def univ_not(self, e, t, lo, hi):
        conj = [f for f in e['decs']]
        if not conj:
            return

        def inst(k):
            return z3.Implies(z3.And(k >= lo, k < hi), z3.Not(z3.And(*[z3.substitute(f, (t, k)) for f in conj])))
        self.univ.append(inst)

    def univ_defs(self, nexts, t, lo, hi):
        if not nexts:
            return

        def inst(k):
            alts = []
            for p in nexts:
                alts.append(z3.And(*[z3.substitute(f, (t, k)) for f in p['facts']]) if p['facts'] else z3.BoolVal(True))
            return z3.Implies(z3.And(k >= lo, k < hi), z3.Or(*alts))
        self.univ.append(inst)

    def univ_steps(self, loop, t, hi):
        """recurrences of the loop-carried cells that have no closed form"""
        for cs in loop.cells.values():
            for c in cs:
                if c['k'] != 'fixed' or 'step' not in c:
                    continue

                def inst(k, c=c):
                    nx = c['at'](z3.simplify(k + 1))
                    w = z3.substitute(c['step'], (t, k))
                    if nx.sort() != w.sort() or c['x0'].sort() != nx.sort():
                        return z3.BoolVal(True)
                    return z3.And(c['at'](z3.IntVal(0)) == c['x0'], z3.Implies(z3.And(k >= 0, k < hi), nx == w))
                inst.cell = (c['at'], c['x0'], hi)
                inst.step = lambda k, c=c: subv(c['step'], [(t, k)])
                self.univ.append(inst)

    def instantiate(self, *ks):
        for u in list(self.univ):
            for k in ks:
                self.assume(u(k))

    def unfold(self, term):
        """replace each recursive loop value by its defining expression, once"""
        subs = []
        seen = set()
        st = [term]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            d = self.lfcells.get(x.decl().name()) if z3.is_app(x) else None
            if d is not None:
                loop, key, nidx = d
                idx = tuple(x.children()[:nidx])
                cs = [c for c in loop.cells.get(key, []) if c['k'] == 'mov' and c['val'] is not None]
                if len(cs) == 1:
                    subs.append((x, subv(cs[0]['val'](idx), list(zip(loop.outer, x.children()[nidx:])))))
                    continue
            st.extend(x.children())
        return self.own_norm(M.subst(term, subs)) if subs else term

    def install_state(self, loop, pre, tt):
        """memory after tt complete iterations"""
        for key, kind in loop.W.items():
            p = pre.get(key)
            if p is None:
                p = self.fmap(key, kind)
            nd = LPNode(loop, key, kind, p, tt)
            self.mem[key] = nd

    # ------------------------------------------------------------------
    def trip(self, c, t):
        """number of iterations of a loop whose condition before iteration t is c(t)"""
        T = self.trip_expr(c, t)
        if T is None:
            raise Unsupported('trip count')
        e = z3.simplify(T)
        if z3.is_int_value(e):
            return z3.IntVal(max(0, e.as_long()))
        if self.choose(e >= 0):
            return e
        return z3.IntVal(0)

    def trip_expr(self, c, t):
        c = z3.simplify(c)
        neg = False
        if z3.is_not(c):
            neg, c = True, c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2:
            return None
        k = c.decl().kind()
        L, Rr = c.arg(0), c.arg(1)
        if not (z3.is_int(L) and z3.is_int(Rr)):
            return None
        ln = linear(L - Rr, t)
        if ln is None:
            return None
        a, b = ln      # a*t + b  OP 0
        if a == 0 or contains(b, lambda x: x.eq(t)):
            return None
        OP = {z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<=', z3.Z3_OP_GT: '>', z3.Z3_OP_GE: '>=', z3.Z3_OP_EQ: '=='}.get(k)
        if neg:
            OP = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!='}.get(OP)
        if OP is None or OP == '==':
            return None
        if OP == '!=':
            if abs(a) != 1:
                return None
            e = z3.simplify(-b if a == 1 else b)
            if not self.implied(e >= 0):
                return None
            return e
        if OP in ('>', '>='):
            a, b = -a, z3.simplify(-b)
            OP = '<' if OP == '>' else '<='
        if a < 0:
            return None
        if OP == '<=':
            b = z3.simplify(b - 1)
        # a*t + b < 0  <=> t < -b/a ; count = ceil(-b/a)
        if a == 1:
            return z3.simplify(-b)
        return z3.simplify((-b + (a - 1)) / a)

    # ------------------------------------------------------------------
    def analyse(self, lid, t, pre, kind, cond, body, inc, counted):
        loop = Loop(lid, t)
        loop.outer = tuple(self.loopvars)
        sig = None
        optim = False
        calm = 0
        for rnd in range(14):
            paths, condt, maxcnt = self.run_once(loop, lid, t, pre, kind, cond, body, inc, counted, rnd)
            loop.te = self.trip_expr(condt, t) if counted and condt is not None else None
            grew = False
            for p in paths:
                for key, kd in p['keys'].items():
                    if key not in loop.W:
                        loop.W[key] = kd
                        grew = True
            if grew:
                loop.cells = {}
                optim = False
                calm = 0
                continue
            sig2 = self.classify(loop, t, pre, paths)
            if sig2 == sig:
                break
            calm += 1
            if counted and calm >= 4 and (condt is None or self.trip_expr(condt, t) is None):
                return None
            sig = sig2
            if not optim and not counted:
                # candidate invariants: a pointer keeps its value; the following rounds check them and weaken what fails
                optim = True
                for key, cs in loop.cells.items():
                    for i, c in enumerate(cs):
                        if c['k'] == 'fixed' and isinstance(c.get('x0'), (PtrVal, IterV)) and c['sg'] != 'const' and not c['sg'].startswith('ind'):
                            x0 = c['x0']
                            cs[i] = dict(c, at=lambda tt, x0=x0: x0, sg='try')
                            sig = None
        else:
            raise Unsupported('loop analysis did not stabilise')
        lcount = None
        if counted:
            if condt is None or self.trip_expr(condt, t) is None:
                return None
        self.find_recursion(loop, t, pre)
        return loop, paths, condt, maxcnt, lcount

    def find_recursion(self, loop, t, pre):
        nm = {f'LF{loop.lid}:{k}': k for k in loop.W}
        for k, cs in loop.cells.items():
            for c in cs:
                if c['k'] == 'mov' and c['val'] is not None:
                    for kk in nm:
                        if contains(c['tmpl'], lambda x: z3.is_app(x) and x.decl().name() == kk):
                            loop.rec.add(nm[kk])

    def run_once(self, loop, lid, t, pre, kind, cond, body, inc, counted, rnd):
        outs = []
        maxcnt = [self.cnt]
        condt = [None]
        startcnt = self.cnt
        base_facts = len(self.facts)
        base_decs = len(self.decs)
        base_univ = len(self.univ)

        def one():
            self.loopvars.append(t)
            self.ctxkey.append((lid, rnd, counted))
            self.assume(t >= 0)
            for key, kd in loop.W.items():
                p = pre.get(key)
                if p is None:
                    p = Base(key, kd, 'U' if key[0] in 'LT' else 'B')
                self.mem[key] = LPNode(loop, key, kd, p, t)
            start = dict(self.mem)
            k, val = 'next', None
            try:
                if counted:
                    before = dict(self.mem)
                    c = z3.simplify(cond())
                    if any(self.mem.get(q) is not v for q, v in before.items()):
                        loop.cond_effect = True
                    if condt[0] is None:
                        condt[0] = c
                    elif not condt[0].eq(c):
                        condt[0] = z3.BoolVal(True)
                    te = self.trip_expr(c, t)
                    if te is not None:
                        self.assume(t < te)
                    else:
                        self.assume(c)
                    nf = len(self.decs)
                    try:
                        body()
                    except Continue:
                        pass
                    inc()
                else:
                    nf = len(self.decs)
                    if kind != 'do':
                        self.assume(cond())
                    try:
                        body()
                    except Continue:
                        pass
                    inc()
                    before = dict(self.mem)
                    if self.choose(cond()):
                        self.mem = before       # the next iteration evaluates the condition itself
                    else:
                        k = 'done'
            except Break:
                k = 'break'
            except Return as r:
                k, val = 'return', r.v
                if isinstance(val, LV) and val.key[0] in 'LT':
                    if self.T.kind(val.typ) in SORT:
                        val = self.load(val)
            except Abort as a:
                k, val = 'abort', a
            maxcnt[0] = max(maxcnt[0], self.cnt)
            writes, keys, newkeys = {}, {}, {}
            for key, m in self.mem.items():
                s = start.get(key)
                if m is s:
                    continue
                if key[0] in 'LT' and _num(key) > startcnt:
                    newkeys[key] = m
                    continue
                chain, node = [], m
                while not isinstance(node, Base) and node is not s:
                    if isinstance(node, LPNode):
                        if node.loop is loop:
                            break
                        chain.extend(node.pseudo(self))
                    else:
                        chain.append(node)
                    node = node.prev
                if not chain:
                    continue
                kd = node.kind if isinstance(node, (Base, LPNode)) else _kindof(node)
                keys[key] = kd
                if isinstance(node, LPNode) and node.loop is loop:
                    writes[key] = chain
            outs.append({'kind': k, 'val': val, 'facts': list(self.facts[base_facts:]), 'univ': list(self.univ[base_univ:]), 'decs': list(self.decs[base_decs:]),
                         'writes': writes, 'keys': keys, 'newkeys': newkeys})
        self.paths(one)
        self.cnt = startcnt
        return outs, condt[0], maxcnt[0]

    # ------------------------------------------------------------------
    def classify(self, loop, t, pre, paths):
        nexts = [p for p in paths if p['kind'] == 'next']
        sig = []
        cells = {}
        for key, kind in loop.W.items():
            groups = []      # (idx, [ (path index, node) ])
            fns = []
            for pi, p in enumerate(nexts):
                for node in p['writes'].get(key, []):
                    if isinstance(node, Store):
                        for g in groups:
                            if all(a.eq(b) for a, b in zip(g[0], node.idx)):
                                g[1].setdefault(pi, node)      # first in chain = latest write
                                break
                        else:
                            groups.append((node.idx, {pi: node}))
                    else:
                        fns.append((pi, node))
            out = []
            p0 = pre.get(key) or Base(key, kind, 'U' if key[0] in 'LT' else 'B')
            # distinct groups that may alias are handled only if provably distinct or fixed/moving with guard
            movs = [g for g in groups if any(contains(i, lambda x: x.eq(t)) for i in g[0])]
            fixed = [g for g in groups if g not in movs]
            unresolved = False
            if fixed and (movs or fns) or len(movs) + len(fns) > 1:
                unresolved = not self.disjoint_groups(fixed, movs, fns, t, nexts)
            if unresolved:
                allg = [g[0] for g in groups]
                out.append({'k': 'unk', 'may': self.may_fn(allg, fns, t)})
                sig.append((key, 'unk*'))
            else:
                for g in fixed:
                    c, s = self.class_fixed(loop, key, kind, g, nexts, t, p0)
                    out.append(c)
                    sig.append((key, str(g[0]), s))
                for g in movs:
                    c, s = self.class_mov(loop, key, kind, g, nexts, t)
                    out.append(c)
                    sig.append((key, str(g[0]), s))
                if fns:
                    c, s = self.class_fn(loop, key, kind, fns, nexts, t)
                    out.append(c)
                    sig.append((key, 'fn', s))
            cells[key] = out
            if key in loop.md:
                sig.append((key, 'dims', *[d.sexpr() for d in loop.md[key]]))
        loop.cells = cells
        return sig

    def disjoint_groups(self, fixed, movs, fns, t, nexts):
        """pairwise provably different locations (for all iterations)?"""
        t2 = z3.Int('t2!dj')
        gs = [(g[0], g[1]) for g in fixed] + [(g[0], g[1]) for g in movs]
        fl = list({id(n): n for _, n in fns}.values())
        if len(fl) > 1 and not all(getattr(n, 'pat', None) for n in fl):
            return False
        if fl and (gs):
            return False
        # each location is written only under the facts (loop condition, branch decisions) of the paths that write it
        when = lambda ps: z3.Or(*[z3.And(t >= 0, *nexts[pi]['facts']) for pi in ps])
        for a in range(len(gs)):
            for b in range(a + 1, len(gs)):
                ia, ib = gs[a][0], gs[b][0]
                sub = lambda e: z3.substitute(e, (t, t2))
                if not self.implied(z3.Implies(z3.And(when(gs[a][1]), sub(when(gs[b][1]))), z3.Or(*[x != sub(y) for x, y in zip(ia, ib)]))
                                    if ia else z3.BoolVal(False)):
                    # moving cells of different iterations may coincide
                    return False
        return True

    def may_fn(self, idxs, fns, t):
        def may(q):
            alts = []
            for ix in idxs:
                cs = []
                for a, b in zip(q, ix):
                    if contains(b, lambda x: x.eq(t)) or contains(b, _isloopsym):
                        continue
                    cs.append(a == b)
                alts.append(z3.And(*cs) if cs else z3.BoolVal(True))
            for _, n in fns:
                v = self._subq(n.cond, q, [])
                if contains(v, lambda x: x.eq(t)) or contains(v, _isloopsym):
                    k = z3.FreshInt('tm')
                    v = z3.substitute(v, (t, k))
                alts.append(v if is_z(v) else z3.BoolVal(bool(v)))
            return z3.Or(*alts) if alts else z3.BoolVal(False)
        return may

    def merged(self, g, nexts, default):
        """value of a cell after one iteration, merged over the continuing paths"""
        items = []
        for pi, p in enumerate(nexts):
            items.append((p['decs'], g[1][pi].val if pi in g[1] else default))
        return self.merge_items(items)

    def merge_items(self, items):
        """one value for mutually exclusive cases (list of decisions, value), of which exactly one applies"""
        if all(veq(v, items[0][1]) for _, v in items[1:]):
            return items[0][1]
        # decisions taken in every case hold anyway; split on a decision that every case has taken, one way or the other
        best = None
        for d0 in items[0][0]:
            d = d0.arg(0) if z3.is_not(d0) else d0
            pos = [i for i, (ds, _) in enumerate(items) if any(e.eq(d) for e in ds)]
            neg = [i for i, (ds, _) in enumerate(items) if any(z3.is_not(e) and e.arg(0).eq(d) for e in ds)]
            if pos and neg and len(pos) + len(neg) == len(items):
                uni = sum(all(veq(items[i][1], items[s[0]][1]) for i in s) for s in (pos, neg))
                if best is None or uni > best[0]:
                    best = (uni, d, pos, neg)
        if best:
            _, d, pos, neg = best
            return self.ite(self.rel_cond(d), self.merge_items([items[i] for i in pos]), self.merge_items([items[i] for i in neg]))
        # one decision with several outcomes (way a loop ended): group the cases by it
        for d in items[0][0]:
            if not (z3.is_eq(d) and z3.is_int_value(d.arg(1)) and d.arg(0).decl().name().startswith('way!')):
                continue
            gs = {}
            for ds, v in items:
                o = [e for e in ds if z3.is_eq(e) and e.arg(0).eq(d.arg(0))]
                if not o:
                    gs = None
                    break
                gs.setdefault(o[0].arg(1).as_long(), (o[0], []))[1].append((ds, v))
            if gs and len(gs) > 1:
                gl = [(e, self.merge_items(g)) for _, (e, g) in sorted(gs.items())]
                res = gl[-1][1]
                for e, v in reversed(gl[:-1]):
                    res = v if veq(v, res) else self.ite(self.rel_cond(e), v, res)
                return res
        common = [d for d in items[0][0] if all(any(d.eq(e) for e in ds) for ds, _ in items[1:])]
        res = items[-1][1]
        for decs, v in reversed(items[:-1]):
            if veq(v, res):
                continue
            decs = [d for d in decs if not any(d.eq(e) for e in common)]
            c = z3.And(*decs) if decs else z3.BoolVal(True)
            res = self.ite(self.rel_cond(c), v, res)
        return res

    def rel_cond(self, c):
        return z3.simplify(c)

    def class_fixed(self, loop, key, kind, g, nexts, t, p0):
        idx = g[0]
        self.nofork += 1
        self.settle += 1
        try:
            x0 = self.mread(p0, idx)
        except Unsupported:
            x0 = None
        finally:
            self.nofork -= 1
            self.settle -= 1
        if kind in SORT and not isinstance(x0, (PtrVal, IterV, Closure, Opaque)):
            s = loop.lp(self, key, kind, idx, t)
        elif isinstance(x0, (PtrVal, IterV)):
            s = loop.lp(self, key, kind, idx, t, x0)
        else:
            s = None
        seq = self.class_seq(loop, key, kind, idx, x0, t)
        if seq is not None and seq[1] is None:      # candidate not tried yet
            c, sg = {'k': 'fixed', 'idx': idx, 'at': seq[0], 'x0': x0, 'sg': 'seq try'}, 'seq try'
            return c, sg
        v = self.merged(g, nexts, s) if (s is not None or all(i in g[1] for i in range(len(nexts)))) and nexts else None
        if kind == 'mat' and not idx and s is not None and is_z(v) and is_z(x0):
            self.keep_dims(loop, key, s, v, x0)
        mk = lambda at, sg: ({'k': 'fixed', 'idx': idx, 'at': at, 'x0': x0, 'sg': sg}, sg)
        lpname = f'LP{loop.lid}:'
        def unk():
            c, sg = mk(lambda tt: loop.lp(self, key, kind, idx, tt, x0), 'unk')
            if kind in ('int', 'real', 'bool') and is_z(v) and is_z(x0):
                c['step'] = v       # value after iteration t, in terms of the values before it
            return c, sg
        if not nexts:
            return mk(lambda tt: x0, 'const')
        if v is None or x0 is None:
            if s is None:           # nothing is known about it; reading it is not supported
                def bad(tt):
                    raise Unsupported(f'loop-carried {kind} {key}')
                return mk(bad, 'unsup')
            return unk()
        if seq is not None and v is not None:
            ok = z3.Or(*[z3.And(*nexts[pi]['facts']) if nexts[pi]['facts'] else z3.BoolVal(True) for pi in range(len(nexts))])
            if is_z(v) and self.implied(z3.Implies(ok, v == seq[0](t + 1))):
                return mk(seq[0], 'seq ok')
            nk = (key, str(idx))
            loop.noseq[nk] = loop.noseq.get(nk, 0) + 1
            if loop.noseq[nk] < 4:      # the other cells may not have been classified yet
                c, _ = mk(seq[0], 'seq try')
                return c, f'seq try {loop.noseq[nk]}'
        if s is not None and veq(v, s) or veq(v, x0):
            return mk(lambda tt: x0, 'const')
        if kind == 'bool' and s is not None and is_z(v) and is_z(x0):
            ok = z3.Or(*[z3.And(*p['facts']) if p['facts'] else z3.BoolVal(True) for p in nexts])
            if self.implied(z3.substitute(z3.Implies(ok, v == x0), (s, x0))):
                return mk(lambda tt: x0, 'const')       # the iterations that continue leave it at its initial value
        # current hypothesis made reads return something else than the symbol: detect self-dependence via both
        cur = None
        prevsg = ''
        prevmax = None
        if loop.cells.get(key):
            for c in loop.cells[key]:
                if c['k'] == 'fixed' and all(a.eq(b) for a, b in zip(c['idx'], idx)):
                    cur = c['at'](t)
                    prevsg = c['sg']
                    prevmax = c.get('mx')
        hasunk = lambda e: contains(e, lambda x: z3.is_app(x) and x.decl().name().startswith(lpname) and not _resolved(self, loop, x, t))
        cands = [s] + ([cur] if cur is not None and not (is_z(cur) and kind in ('int', 'real') and prevsg.startswith('last')) else [])
        folds = {'isum', 'fsum', 'geo', 'fmsum'}
        on = _once(v, s, t) if s is not None and is_z(v) and is_z(x0) else None
        if on is not None:              # written in a single iteration
            tc, w, g1 = on
            w = z3.substitute(w, (t, tc))
            if not hasunk(tc) and not hasunk(w) and not hasunk(g1) and not contains(w, lambda x: z3.is_app(x) and x.decl().name().startswith(lpname)):
                return mk(lambda tt: z3.simplify(z3.If(z3.And(tc >= 0, tc < tt, g1), w, x0)), 'once ' + _vs(tc) + _vs(w) + _vs(g1))
        if prevmax is not None and is_z(v) and is_z(cur) and v.sort() == R and self.implied(_hidefolds(z3.substitute(v, (s, cur)) == z3.If(cur < prevmax, prevmax, cur))):
            arr = _lam(t, prevmax)      # the hypothesis of the previous round holds, however the maximum is written
            c, sg = mk(lambda tt: _maxwith(x0, tt, arr), 'max ' + _vs(prevmax))
            c['mx'] = prevmax
            return c, sg
        for b in cands:
            # a "difference" from the current hypothesis that still mentions its folds means that the hypothesis is wrong
            stale = lambda d, b=b: cur is not None and b is cur and any(contains(d, lambda x, a=a: x.eq(a)) for a in _atoms_named(cur, folds))
            if b is None or not is_z(b) or not is_z(v):
                if isinstance(b, IterV) and isinstance(v, IterV) and v.vec.key == b.vec.key:
                    d = self.flat_delta(z3.simplify(v.i - b.i), t)
                    if not contains(d, lambda x: x.eq(t)) and not hasunk(d):
                        return mk(lambda tt: IterV(x0.vec, z3.simplify(x0.i + d * tt), x0.rev), 'ind ' + _vs(d))
                continue
            if kind == 'int':
                d = self.flat_delta(z3.simplify(v - b), t)
                if not hasunk(d) and not contains(d, lambda x: x.eq(b)) and not stale(d):
                    if not contains(d, lambda x: x.eq(t)):
                        return mk(lambda tt: z3.simplify(x0 + d * tt), 'ind ' + _vs(d))
                    arr = z3.Lambda([t], d)
                    return mk(lambda tt: x0 + F_isum(z3.IntVal(0), tt, arr), 'isum ' + _vs(d))
            if kind == 'real':
                d = _delta(v, b)
                if not hasunk(d) and not contains(d, lambda x: x.eq(b)) and not stale(d):
                    if not contains(d, lambda x: x.eq(t)):
                        return mk(lambda tt: M.rnorm(x0 + d * z3.ToReal(tt)), 'ind ' + _vs(d))
                    return mk(lambda tt: x0 + M.FSUM(z3.IntVal(0), tt, _lam(t, d)), 'sum ' + _vs(d))
                q = _ratio(v, b)
                if q is not None and not hasunk(q) and not contains(q, lambda x: x.eq(t)) and not stale(q):
                    return mk(lambda tt: x0 if M.ival(tt) == 0 else M.rnorm(x0 * F_geo(M.rnorm(q), z3.simplify(tt))), 'geo ' + _vs(M.rnorm(q)))
                mx = _maxform(v, b)
                if mx is not None and not hasunk(mx[1]) and not contains(mx[1], lambda x: x.eq(b)):
                    op, e = mx
                    arr = _lam(t, e)
                    if op == 'max':
                        c, sg = mk(lambda tt: _maxwith(x0, tt, arr), 'max ' + _vs(e))
                        c['mx'] = e
                        return c, sg
            if kind == 'bool':
                bf = _boolform(v, b)
                if bf is not None and not hasunk(bf[1]) and not contains(bf[1], lambda x: x.eq(b)):
                    op, e = bf
                    def at(tt, op=op, e=e):
                        k = z3.Int(f'qb!{loop.lid}')
                        body = z3.substitute(e, (t, k))
                        rng = z3.And(k >= 0, k < tt)
                        q = z3.ForAll([k], z3.Implies(rng, body)) if op == 'and' else z3.Exists([k], z3.And(rng, body))
                        q = _qelim(q)
                        return z3.simplify(z3.And(x0, q) if op == 'and' else z3.Or(x0, q))
                    return mk(at, 'bool ' + op + _vs(e))
            if kind == 'mat':
                r = self.class_pulse(loop, t, x0, v, s, hasunk)
                if r is not None:
                    at, sg = r
                    return mk(lambda tt: at(tt, lambda q: loop.lp(self, key, kind, idx, q, x0)), sg)
                r = self.class_mat(loop, key, idx, t, x0, v, b, hasunk)
                if r is not None:
                    at, sg = r
                    return mk(at, sg)
        if not contains_self(v, s, cur) and not (is_z(v) and hasunk(v)) and not contains(v, lambda x: z3.is_app(x) and x.decl().name().startswith(lpname)):
            def at(tt):
                w = subv(v, [(t, z3.simplify(tt - 1))])
                w0 = subv(v, [(t, z3.IntVal(-1))])
                z = z3.simplify(tt == 0)
                if z3.is_true(z):
                    return x0
                if veq(w0, x0) or z3.is_false(z):
                    return w
                if not self.nofork and self.implied(tt > 0):
                    return w
                try:
                    return self.ite(tt == 0, x0, w)
                except Unsupported:
                    if self.nofork:
                        raise
                    return x0 if self.choose(tt == 0) else w
            if s is not None and is_z(v) and not prevsg.startswith(('probe', 'last')):
                # does the value depend on that of the previous iteration?  Look again with an unknown start value.
                return mk(lambda tt: loop.lp(self, key, kind, idx, tt, x0), 'probe')
            return mk(at, 'last ' + _vs(v))
        if not isinstance(x0, (PtrVal, IterV)) and kind not in SORT:
            raise Unsupported(f'loop-carried {kind} {key}')
        return unk()

    def keep_dims(self, loop, key, s, v, x0):
        """induction on the dimensions of a local matrix: if it has those it started with, the body leaves it with them"""
        loop.md.pop(key, None)
        r0, c0 = M.dims(x0)
        if M.ival(r0) is not None and M.ival(c0) is not None or any(contains(d, lambda x: z3.is_app(x) and x.decl().name().startswith(f'LP{loop.lid}:')) for d in (r0, c0)):
            return
        r1, c1 = (z3.substitute(d, (M.F_rows(s), r0), (M.F_cols(s), c0)) for d in M.dims(v))
        if self.implied(z3.And(r1 == r0, c1 == c0)):
            loop.md[key] = (r0, c0)

    def class_pulse(self, loop, t, x0, v, s, hasunk):
        """a column vector with at most one non-zero entry that moves by one each iteration (or that is restored): the
        candidate value before iteration t is checked by induction, element by element, for all iterations before the last"""
        te = getattr(loop, 'te', None)
        if s is None or te is None or not is_z(v) or M.dn(v) == 'mset' and M.dn(v.arg(0)) != 'mset':
            return None
        if not contains(v, lambda x: z3.is_app(x) and x.decl().name() == 'mset' and M.dn(x.arg(0)) == 'mset'):
            return None
        r, c = M.dims(x0)
        if M.ival(c) != 1:
            return None
        cands = [('const-ext', lambda tt: x0)]
        if M.dn(x0) == 'mset' and M.dn(x0.arg(0)) == 'mzero':
            p0, val = x0.arg(1), x0.arg(3)
            for a in (1, -1):
                cands.append((f'pulse{a}', lambda tt, a=a: M.scale(val, M.sel(r, z3.simplify(p0 + a * tt), 1))))
        for nm, C in cands:
            w = M.subst(v, [(s, C(t))])
            if hasunk(w) or contains(w, lambda x: x.eq(s)):
                continue
            q = z3.FreshInt('pq')
            rng = z3.And(q >= 0, q < r, t >= 0)
            if not self.implied(z3.Implies(z3.And(rng, te > 0), M.elem(x0, q, 0) == M.elem(C(z3.IntVal(0)), q, 0))):
                continue
            if not self.implied(z3.Implies(z3.And(rng, t + 1 < te), M.elem(w, q, 0) == M.elem(C(t + 1), q, 0))):
                continue

            def at(tt, unknown, C=C):
                if M.ival(tt) == 0:
                    return x0
                if tt.eq(t) or self.implied(z3.And(tt >= 0, tt < te)):
                    return C(tt)
                return unknown(tt)
            return at, nm
        return None

    def class_seq(self, loop, key, kind, idx, x0, t):
        """candidate invariant: a pointer walks along a ghost sequence of nodes, one per iteration"""
        if kind != 'ptr' or not is_z(x0) or x0.decl().name() not in self.sequences or loop.noseq.get((key, str(idx)), 0) >= 4:
            return None
        f, k0 = x0.decl(), x0.arg(x0.num_args() - 1)
        rest = x0.children()[:-1]
        C = lambda tt: self.seq_term(f, *rest, z3.simplify(k0 + tt))
        tried = any(c['k'] == 'fixed' and c['sg'].startswith('seq') and all(a.eq(b) for a, b in zip(c['idx'], idx))
                    for c in loop.cells.get(key, []))
        return C, (True if tried else None)

    def class_mat(self, loop, key, idx, t, x0, v, s, hasunk):
        # element writes
        v = _setform(v, s)
        if M.dn(v) == 'mset' and v.arg(0).eq(s):
            i, j, e = v.arg(1), v.arg(2), v.arg(3)
            own = M.elem(s, i, j)
            e2 = z3.substitute(e, (own, M.elem(x0, i, j)))
            li, lj = linear(i, t), linear(j, t)
            if li is None or lj is None or contains(e2, lambda x: x.eq(s)) or hasunk(e2):
                return None
            if abs(li[0]) == 1:
                a, b, which = li[0], li[1], 0
            elif abs(lj[0]) == 1:
                a, b, which = lj[0], lj[1], 1
            else:
                return None

            def at(tt):
                r, c = M.dims(x0)

                def f(p, q):
                    k = z3.simplify((p if which == 0 else q) - b) if a == 1 else z3.simplify(b - (p if which == 0 else q))
                    hit = z3.And(k >= 0, k < tt, p == z3.substitute(i, (t, k)), q == z3.substitute(j, (t, k)))
                    return z3.If(z3.simplify(hit), z3.substitute(e2, (t, k)), M.elem(x0, p, q))
                return M.mk(r, c, f)
            return at, 'mset ' + _vs(e2)
        # accumulation
        try:
            d = M.mp_add(M.mpoly(v), M.mpoly(s), -1)
        except Exception:
            return None
        dt = M.mp_term(d, M.dims(x0))
        if not contains(dt, lambda x: x.eq(s)) and not hasunk(dt):
            if not d:
                return (lambda tt: x0), 'const'
            def at(tt):
                f = M.FMSUM(z3.IntVal(0), tt, _lam(t, dt))
                M._dims_cache[f.get_id()] = (f, M.dims(x0))
                return M.add(x0, f)
            return at, 'msum ' + _vs(dt)
        # column writes:  v = s - s E E' + V E'
        col = []
        E = None
        ok = True
        sid = M.mkey(s)
        for m, c in d.items():
            if not m or not m[-1][1]:
                ok = False
                break
            A = M._matoms[m[-1][0]]
            if M.dn(A) != 'msel' or M.ival(A.arg(2)) != 1 or (E is not None and not A.eq(E)):
                ok = False
                break
            E = A
            rest = m[:-1]
            if rest and rest[0] == (sid, False):
                if len(rest) == 2 and rest[1] == (M.mkey(E), False) and c == {(): -1}:
                    continue
                ok = False
                break
            col.append((rest, c))
        if ok and E is not None:
            lo = linear(E.arg(1), t)
            r, cdim = M.dims(x0)
            Vt = M.mp_term(dict(col), (r, z3.IntVal(1)))
            if lo is not None and abs(lo[0]) == 1 and not contains(Vt, lambda x: x.eq(s)) and not hasunk(Vt):
                a, b = lo

                def at(tt):
                    def f(p, q):
                        k = z3.simplify(q - b) if a == 1 else z3.simplify(b - q)
                        hit = z3.simplify(z3.And(k >= 0, k < tt))
                        return z3.If(hit, M.elem(M.subst(Vt, [(t, k)]), p, 0), M.elem(x0, p, q))
                    return M.mk(r, cdim, f)
                return at, 'mcol ' + _vs(Vt)
        return None

    def flat_delta(self, d, t):
        """the difference of two iterations as a literal, when it is the same in all of them"""
        if contains(d, lambda x: x.eq(t)):
            c = z3.simplify(z3.substitute(d, (t, z3.IntVal(0))))
            if z3.is_int_value(c) and self.implied(z3.Implies(t >= 0, d == c)):
                return c
        return d

    # -------- moving cells
    def invert(self, idx, t):
        """tau(q) and match condition for a moving index"""
        for j, e in enumerate(idx):
            if e is None:
                continue
            ln = linear(e, t)
            if ln is not None and abs(ln[0]) == 1 and not contains(ln[1], lambda x: x.eq(t)):
                a, b = ln
                return (lambda q, j=j, a=a, b=b: z3.simplify((q[j] - b) * a)), j
        for j, e in enumerate(idx):
            if e is None or not z3.is_app(e) or e.num_args() == 0:
                continue
            nm = e.decl().name()
            inv = self.injective.get(nm)
            if inv is None and nm.startswith('new!'):
                for pos, a in enumerate(e.children()):
                    ln = linear(a, t)
                    if ln is not None and abs(ln[0]) == 1:
                        own = z3.Function(f'newarg{pos}', I, I)
                        arg = lambda x, pos=pos, f=e.decl(), own=own: x.arg(pos) if z3.is_app(x) and x.decl().eq(f) else own(x)
                        return (lambda q, j=j, ln=ln, arg=arg: z3.simplify((arg(q[j]) - ln[1]) * ln[0])), j
            if inv is not None:
                pos, own = inv
                ln = linear(e.arg(pos), t)
                if ln is not None and abs(ln[0]) == 1:
                    a, b = ln

                    def tau(q, j=j, a=a, b=b, own=own, f=e.decl(), args=e.children(), pos=pos):
                        x = q[j]
                        if z3.is_app(x) and x.decl().eq(f) and all(p == pos or u.eq(v) for p, (u, v) in enumerate(zip(x.children(), args))):
                            o = x.arg(pos)
                        else:
                            o = own(x)
                        return z3.simplify((o - b) * a)
                    return tau, j
        return None, None

    def class_mov(self, loop, key, kind, g, nexts, t):
        idx = g[0]
        tau, j = self.invert(idx, t)
        if tau is None or any(contains(i, _isloopsym_of(loop)) for i in idx):
            may = self.may_fn([idx], [], t)
            return {'k': 'unk', 'may': may}, 'unk'
        decs = None
        allw = all(i in g[1] for i in range(len(nexts)))
        val = None
        items = [(nexts[pi]['decs'], n.val) for pi, n in g[1].items()]
        try:
            val = self.merge_items(items)
        except Unsupported:
            val = None
        wcond = z3.BoolVal(True) if allw else z3.Or(*[z3.And(*d) if d else z3.BoolVal(True) for d, _ in items])

        def cond(q):
            k = tau(q)
            cs = []
            for a, b in zip(q, idx):
                if self.apart(a, b):
                    return z3.BoolVal(False)
                e = z3.simplify(a == z3.substitute(b, (t, k)))
                cs.append(e)
            cs.append(z3.substitute(wcond, (t, k)))
            return z3.simplify(z3.And(*cs))

        def valf(q):
            return subv(val, [(t, tau(q))])
        return {'k': 'mov', 'cond': cond, 'tau': tau, 'val': valf if val is not None else None, 'tmpl': val}, \
            'mov ' + _vs(val) + str(wcond.hash())

    def class_fn(self, loop, key, kind, fns, nexts, t):
        """aggregate writes (copies, fills, inner loops) indexed by the iteration"""
        pats = [getattr(n, 'pat', None) for _, n in fns]
        simple = len({id(n) for _, n in fns}) == len(fns) and len(fns) == len(nexts) == 1
        if simple and pats[0]:
            tau, j = self.invert(pats[0], t)
            if tau is not None:
                node = fns[0][1]
                nq = node.nidx or len(pats[0])
                ph = [z3.Int(f'ph!{i}') for i in range(nq)]
                self.nofork += 1
                try:
                    ct, vt = node.cond(tuple(ph)), node.val(tuple(ph))
                except Unsupported:
                    ct = vt = None
                finally:
                    self.nofork -= 1
                if vt is not None:
                    ct = ct if is_z(ct) else z3.BoolVal(bool(ct))

                    def cond(q):
                        return z3.simplify(z3.substitute(ct, (t, tau(q)), *zip(ph, q)))

                    def valf(q):
                        return subv(vt, [(t, tau(q))] + list(zip(ph, q)))
                    return {'k': 'mov', 'cond': cond, 'tau': tau, 'val': valf, 'tmpl': vt}, 'movfn ' + _vs(vt) + str(ct.hash())
        return {'k': 'unk', 'may': self.may_fn([], fns, t)}, 'unk'

    def loop_map(self, n, rng, var):
        """for (auto& kv : map) over a map whose content is known literally: the body runs once for every key"""
        vt = targs(strip(rng.typ))[1]
        for k in self.map_keys(rng):
            slot = rng.sub('{}', vt, k)
            if not isref(var['t']):
                slot = self.temp(vt)
                if self.T.kind(vt) in ('class', 'vec', 'arr', 'map', 'pair'):
                    self.copy_value(slot, rng.sub('{}', vt, k), vt, True, False)
                else:
                    self.store(slot, self.load(rng.sub('{}', vt, k)))
            self.fr.env[var['id']] = MapPair(k, slot)
            try:
                self.stmt(n['body'])
            except Continue:
                pass
            except Break:
                break


def _once(v, s, t):
    """v == If(t == c and g, w, s) with c independent of t: (c, w, g at c)"""
    if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = v.children()
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    if not b.eq(s):
        return None
    for e in c.children() if z3.is_and(c) else [c]:
        if not (z3.is_eq(e) and e.arg(0).sort() == I):
            continue
        ln = linear(z3.simplify(e.arg(0) - e.arg(1)), t)
        if ln is None or abs(ln[0]) != 1 or contains(ln[1], lambda x: x.eq(t)):
            continue
        tc = z3.simplify(-ln[1] * ln[0])
        return tc, a, z3.simplify(z3.substitute(c, (t, tc)))
    return None


def _setform(v, s):
    """an element of s written differently in different cases: one write of a value that depends on the case"""
    if M.dn(v) != 'if':
        return v
    c, a, b = v.arg(0), _setform(v.arg(1), s), _setform(v.arg(2), s)
    w = a if M.dn(a) == 'mset' else b
    if M.dn(w) != 'mset' or not w.arg(0).eq(s):
        return v
    i, j = w.arg(1), w.arg(2)
    e = []
    for x in (a, b):
        if x.eq(s):
            e.append(M.elem(s, i, j))
        elif M.dn(x) == 'mset' and x.arg(0).eq(s) and x.arg(1).eq(i) and x.arg(2).eq(j):
            e.append(x.arg(3))
        else:
            return v
    return M.setelem(s, i, j, z3.If(c, *e))


def contains_self(v, s, cur):
    for b in (s, cur):
        if b is not None and is_z(b) and contains(v, lambda x: x.eq(b)):
            # numerals and constants are not self references
            if z3.is_int_value(b) or z3.is_rational_value(b) or z3.is_true(b) or z3.is_false(b):
                continue
            if b is s:
                return True
    return False


def _resolved(X, loop, x, t):
    return False


def _isloopsym(x):
    return z3.is_app(x) and x.decl().name()[:2] in ('LP', 'LF')


def _isloopsym_of(loop):
    p = f'LP{loop.lid}'
    return lambda x: z3.is_app(x) and x.decl().name().startswith(p)


def _num(key):
    s = ''
    for ch in key[1:]:
        if not ch.isdigit():
            break
        s += ch
    return int(s) if s else 0


def _kindof(m):
    while not isinstance(m, (Base, LPNode)):
        m = m.prev
    return m.kind


def _lam(t, body):
    return z3.Lambda([t], body)


_alive = {}


def _atoms_named(e, names):
    out = []
    contains(e, lambda x: bool(z3.is_app(x) and x.decl().name() in names and out.append(x)))
    return out


def _vs(v):
    if is_z(v):
        _alive[v.get_id()] = v      # ids stay unique while the term lives
        return str(v.hash()) + ':' + str(v.get_id())
    if isinstance(v, PtrVal):
        return 'p' + _vs(v.lv)
    if isinstance(v, LV):
        return v.key + ','.join(str(i) for i in v.idx)
    if isinstance(v, IterV):
        return 'i' + str(v.i)
    return type(v).__name__


def _ratio(v, s):
    """v == s * q"""
    p = M.spoly(v)
    sid = s.get_id()
    out = {}
    for m, c in p.items():
        if m.count(sid) != 1:
            return None
        mm = list(m)
        mm.remove(sid)
        out[tuple(mm)] = c
    return M.sp_term(out) if out else None


def _maxform(v, s):
    if not (z3.is_app(v) and M.dn(v) == 'if'):
        return None
    c, a, b = v.children()
    neg = False
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    x, y = c.arg(0), c.arg(1)
    if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        x, y = y, x
    elif k not in (z3.Z3_OP_LT, z3.Z3_OP_LE):
        return None
    # x < y ? a : b
    if a.eq(y) and b.eq(x):
        e = y if x.eq(s) else x if y.eq(s) else None
        return ('max', e) if e is not None else None
    return None


def _hidefolds(g):
    """folds replaced by constants (equal ones by the same constant)"""
    sub, seen = [], {}
    for a in _atoms_named(g, {'isum', 'fsum', 'fmax', 'geo'}):
        k = z3.simplify(a).sexpr()
        if k not in seen:
            seen[k] = z3.FreshConst(a.sort(), 'fold')
        sub.append((a, seen[k]))
    return z3.substitute(g, *sub) if sub else g


def _maxwith(x0, tt, arr):
    z = z3.simplify(tt == 0)
    if z3.is_true(z):
        return x0
    m = M.FMAX(z3.IntVal(0), tt, arr)
    r = z3.If(x0 < m, m, x0)
    return r if z3.is_false(z) else z3.If(tt <= 0, x0, r)


def _boolform(v, s):
    """v(s) == s and e, or v(s) == s or e"""
    f = z3.simplify(z3.substitute(v, (s, z3.BoolVal(False))))
    t = z3.simplify(z3.substitute(v, (s, z3.BoolVal(True))))
    if z3.is_false(f):
        return 'and', t
    if z3.is_true(t):
        return 'or', f
    return None


def _delta(v, b):
    """v - b, distributed over the case distinctions of v"""
    if M.dn(v) == 'if':
        x, y = _delta(v.arg(1), b), _delta(v.arg(2), b)
        return x if x.eq(y) else z3.If(v.arg(0), x, y)
    return M.sp_term(M.sp_add(M.spoly(v), M.spoly(b), -1))


_QE = {}


def _qelim(q):
    """quantifier elimination, where the quantified part is linear integer arithmetic"""
    k = q.get_id()
    if k in _QE and _QE[k][0].eq(q):
        return _QE[k][1]
    r = q
    if not contains(q, lambda x: z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and has_bound(x)):
        try:
            g = z3.TryFor(z3.Tactic('qe'), 2000)(q).as_expr()
            if not contains(g, z3.is_quantifier):
                r = z3.simplify(g)
        except z3.Z3Exception:
            pass
    _QE[k] = (q, r)
    return r


def has_bound(x):
    if z3.is_var(x):
        return True
    return any(has_bound(c) for c in x.children())
