"""Rules for the Eigen and standard-library operations that the verified code uses (trusted library semantics)."""
import re
import z3
from . import mat as M
from .core import *

F_posdef = z3.Function('mposdef', Mat, B)
F_strcat = z3.Function('strcat', I, I, I)


class Builtins:
    # ------------------------------------------------ helpers
    def viewof(self, x):
        """an lvalue-like matrix or a matrix term"""
        if isinstance(x, LV):
            v = self.load(x)
            return x if (is_z(v) and v.sort() == Mat) else v
        return x

    def settable(self, x):
        return isinstance(x, (LV, View, TView))

    def mstore(self, x, v):
        """Eigen assignment: resizes plain matrices, checks sizes of fixed-size windows"""
        if not self.settable(x):
            raise Unsupported('assignment to a matrix temporary')
        if isinstance(x, (View, TView)):
            self.samedim(x, v)
        self.mset(x, v)

    def samedim(self, x, v):
        if self.nofork:
            return
        r, c = self.mdims(x)
        r2, c2 = M.dims(v)
        if M.same(r, r2) and M.same(c, c2):
            return
        if not self.choose(z3.And(r == r2, c == c2)):
            raise Abort('matrix size mismatch', self.line)

    def opdims(self, a, b, line='matrix size mismatch'):
        if self.nofork:
            return
        (r, c), (r2, c2) = M.dims(a), M.dims(b)
        if M.same(r, r2) and M.same(c, c2):
            return
        if not self.choose(z3.And(r == r2, c == c2)):
            raise Abort(line, self.line)

    def muldims(self, a, b):
        if self.nofork:
            return
        c, r = M.dims(a)[1], M.dims(b)[0]
        if M.same(c, r):
            return
        if not self.choose(c == r):
            raise Abort('matrix product size mismatch', self.line)

    def inb(self, i, n, what):
        if self.nofork:
            return
        if not self.choose(z3.And(i >= 0, i < n)):
            raise Abort(what, self.line)

    def window(self, x, i, j, r, c):
        x = self.viewof(x)
        if isinstance(x, LV):
            R0, C0 = self.mdims(x)
            if M.same(i, 0) and M.same(j, 0) and M.same(r, R0) and M.same(c, C0):
                return x
            self.winok(i, r, R0)
            self.winok(j, c, C0)
            return View(x, i, j, r, c)
        if isinstance(x, View):
            return View(x.lv, z3.simplify(x.i + i), z3.simplify(x.j + j), r, c)
        m = self.mget(x)
        return M.block(m, i, j, r, c)

    def winok(self, i, r, n):
        if self.nofork or M.same(i + r, n):
            return
        if not self.choose(z3.And(i >= 0, r >= 0, i + r <= n)):
            raise Abort('block out of range', self.line)

    def arr(self, x):
        if isinstance(x, ArrV):
            return x.m
        return self.mget(x)

    # ------------------------------------------------ member calls on library classes
    def builtin_method(self, n, obj):
        cls, fn = n.get('cls', ''), n['fn']
        base = cls.split('<')[0]
        args = n['args']
        if base in ('std::packaged_task', 'std::future', 'std::__basic_future', 'std::thread'):
            c = self.contracts.get(base + '::' + fn)
            if c is not None:
                return c[0][1](self, obj, [self.ev(a) for a in args], None)
            raise Unsupported(base + '::' + fn)
        if isinstance(obj, Opaque):
            if self.T.kind(n['t']) in ('int', 'bool', 'real') and not obj.what.startswith('std::basic_ostr'):
                for a in args:
                    self.ev(a)
                return self.fresh('opaque', SORT[self.T.kind(n['t'])])
            return Opaque('')
        if base.startswith('Eigen::'):
            return self.eigen_method(n, base, fn, obj, args)
        if base == 'std::vector':
            return self.vec_method(n, fn, obj, args)
        if base in ('std::unordered_map', 'std::map'):
            return self.map_method(n, fn, obj, args)
        if base in ('std::__shared_ptr', 'std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr_access'):
            if isinstance(obj, LV):
                p = self.load(obj)
            else:
                p = obj
            if fn == 'operator bool':
                return z3.BoolVal(True) if isinstance(p, PtrVal) else p != 0
            if fn == 'get':
                return p
            if fn == 'reset':
                v = self.rv(args[0]) if args else z3.IntVal(0)
                self.store(obj, v)
                return None
            if fn == 'release':
                self.store(obj, z3.IntVal(0))
                return p
            if fn in ('use_count',):
                return self.fresh('use_count', I)
        if base == 'std::basic_string' or base == 'std::__cxx11::basic_string':
            if fn == 'clear':
                self.store(obj, self.intern(''))
                return None
            if fn == 'operator=':
                self.store(obj, self.rv(args[0]))
                return obj
            if fn in ('c_str', 'data'):
                return self.load(obj) if isinstance(obj, LV) else obj
            if fn == 'empty':
                v = self.load(obj) if isinstance(obj, LV) else obj
                return v == self.intern('')
            if fn in ('size', 'length'):
                v = self.load(obj) if isinstance(obj, LV) else obj
                t = z3.Function('strlen', I, I)(v)
                return t
        if base in ('std::atomic', 'std::__atomic_base'):
            lv = obj.lv if isinstance(obj, PtrVal) else obj
            if fn in ('load',) or fn.startswith('operator ') and not args:
                return self.load(lv)
            if fn == 'store':
                self.store(lv, self.convert(self.num(args[0]), lv.typ))
                return None
            if fn in ('operator=',):
                v = self.convert(self.num(args[0]), lv.typ)
                self.store(lv, v)
                return v
            if fn in ('operator++', 'operator--', 'fetch_add', 'fetch_sub'):
                self.rmw = True
                old = self.load(lv)
                self.rmw = False
                d = self.num(args[0]) if args and fn.startswith('fetch') else z3.IntVal(1)
                new = z3.simplify(old + d if fn in ('operator++', 'fetch_add') else old - d)
                self.rmw = True
                self.store(lv, new)
                self.rmw = False
                return old if args else new
        if base == 'std::condition_variable' and fn in ('notify_one', 'notify_all'):
            return None
        if base in ('std::queue', 'std::deque', 'std::list'):
            raise Unsupported('container ' + base)
        if base in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator'):
            it = self.load(obj) if isinstance(obj, LV) else obj
            if fn == 'operator*' or fn == 'operator->':
                return self.iter_deref(it)
        if base == 'std::function':
            v = self.load(obj) if isinstance(obj, LV) else obj
            if fn == 'operator bool':
                return z3.BoolVal(not isinstance(v, Opaque))
        if base == 'std::numeric_limits':
            return z3.Const(fn.upper(), R)
        if base == 'std::pair' and fn == 'operator=':
            src = self.ev(args[0])
            self.assign(obj, src, obj.typ)
            return obj
        if base == 'std::array':
            if fn == 'fill':
                tmp = self.temp(self.T.elem(obj.typ), self.rv(args[0]))
                self.fill_region(obj, z3.IntVal(0), z3.IntVal(int(targs(strip(obj.typ))[1])), self.T.elem(obj.typ), tmp)
                return None
            if fn == 'size':
                return z3.IntVal(int(targs(strip(obj.typ))[1]))
            if fn == 'at':
                return self.array_elem(obj, self.integer(args[0]))
            if fn in ('front', 'back'):
                return self.array_elem(obj, z3.IntVal(0 if fn == 'front' else int(targs(strip(obj.typ))[1]) - 1))
        raise Unsupported(f'library method {base}::{fn}')

    def array_elem(self, a, i):
        self.inb(i, z3.IntVal(int(targs(strip(a.typ))[1])), 'array index out of range')
        return a.sub('[]', self.T.elem(a.typ), i)

    # ------------------------------------------------ Eigen
    def eigen_method(self, n, base, fn, obj, args):
        if base == 'Eigen::LLT' or base == 'Eigen::SolverBase' or base == 'Eigen::LDLT':
            return self.llt_method(fn, obj, args)
        if isinstance(obj, LV) and self.T.kind(obj.typ) == 'py':
            obj = self.load(obj)
        x = self.viewof(obj)
        targs_ = n.get('q', '')
        if fn in ('transpose',):
            if isinstance(x, (LV, View)) and n.get('lv') is None and self.lhs_transpose:
                return TView(x)
            return M.T(self.arr(x))
        if fn in ('size', 'rows', 'cols', 'rowsAtCompileTime'):
            r, c = self.mdims(x) if not isinstance(x, ArrV) else M.dims(x.m)
            if fn == 'rows':
                return r
            if fn == 'cols':
                return c
            if z3.is_int_value(c) and c.as_long() == 1:
                return r
            if z3.is_int_value(r) and r.as_long() == 1:
                return c
            return z3.simplify(r * c)
        if fn in ('array', 'matrix', 'derived', 'eval', 'noalias', 'const_cast_derived', 'nestedExpression'):
            if fn == 'array':
                return ArrV(self.arr(x), x if self.settable(x) else None)
            if fn == 'eval' or fn == 'matrix':
                return self.arr(x)
            return x
        if fn == 'data':
            return ('data', x)
        if fn in ('head', 'tail', 'segment', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols',
                  'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'block', 'row', 'col'):
            a = [self.integer(q) for q in args]
            if not a or (fn == 'segment' and len(a) == 1) or (fn == 'block' and len(a) == 2):
                t = re.search(r'<(\d+)(?:, (\d+))?>$', n.get('q', ''))
                ta = [int(z) for z in n.get('targs', []) if str(z).isdigit()]
                if not ta and t:
                    ta = [int(z) for z in t.groups() if z]
                if not ta:
                    raise Unsupported('fixed-size block ' + fn)
                a = a + [z3.IntVal(z) for z in ta]
            R0, C0 = self.mdims(x) if not isinstance(x, ArrV) else M.dims(x.m)
            z0 = z3.IntVal(0)
            S = z3.simplify
            w = {'topRows': lambda: (z0, z0, a[0], C0), 'bottomRows': lambda: (S(R0 - a[0]), z0, a[0], C0),
                 'leftCols': lambda: (z0, z0, R0, a[0]), 'rightCols': lambda: (z0, S(C0 - a[0]), R0, a[0]),
                 'middleRows': lambda: (a[0], z0, a[1], C0), 'middleCols': lambda: (z0, a[0], R0, a[1]),
                 'topLeftCorner': lambda: (z0, z0, a[0], a[1]), 'topRightCorner': lambda: (z0, S(C0 - a[1]), a[0], a[1]),
                 'bottomLeftCorner': lambda: (S(R0 - a[0]), z0, a[0], a[1]),
                 'bottomRightCorner': lambda: (S(R0 - a[0]), S(C0 - a[1]), a[0], a[1]),
                 'block': lambda: tuple(a[:4]), 'row': lambda: (a[0], z0, z3.IntVal(1), C0),
                 'col': lambda: (z0, a[0], R0, z3.IntVal(1))}
            if fn in w:
                i, j, r, c = w[fn]()
            else:   # vectors
                isrow = z3.is_int_value(R0) and R0.as_long() == 1 and not (z3.is_int_value(C0) and C0.as_long() == 1)
                L = C0 if isrow else R0
                off, ln = {'head': lambda: (z0, a[0]), 'tail': lambda: (S(L - a[0]), a[0]),
                           'segment': lambda: (a[0], a[1])}[fn]()
                i, j, r, c = (z0, off, z3.IntVal(1), ln) if isrow else (off, z0, ln, C0)
            if isinstance(x, ArrV):
                return ArrV(M.block(x.m, i, j, r, c))
            return self.window(x, i, j, r, c)
        if fn in ('setZero', 'setOnes', 'setConstant', 'setIdentity', 'setRandom', 'resize', 'conservativeResize', 'fill'):
            return self.eigen_set(n, fn, obj, x, args)
        if fn == 'dot':
            a, b = self.mget(x), self.mget(self.ev(args[0]))
            self.opdims_vec(a, b)
            return M.dot(a, b)
        if fn in ('squaredNorm', 'norm', 'lpNorm', 'sum', 'maxCoeff', 'minCoeff', 'prod', 'trace', 'mean'):
            m = self.arr(x)
            if fn == 'squaredNorm':
                return M.sqnorm(m)
            if fn == 'norm':
                return M.F_norm(m)
            if fn == 'lpNorm':
                p = n.get('targs') or re.findall(r'-?\d+', n['q'].rsplit('lpNorm', 1)[1])
                p = int(str(p[0])) if p else None
                if p == -1:
                    return M.linf(m)
                if p == 2:
                    return M.F_norm(m)
                return M.F_normp(z3.IntVal(p if p is not None else 0), m)
            if fn == 'sum':
                return M.vsum(m)
            if fn == 'maxCoeff':
                self.nonempty(m)
                return M.vmax(m)
            if fn == 'minCoeff':
                self.nonempty(m)
                return -M.vmax(M.neg(m))
            if fn == 'mean':
                return M.vsum(m) / z3.ToReal(M.size(m))
        if fn in ('abs', 'cwiseAbs'):
            r = M.ew(M.zabs, self.arr(x))
            return ArrV(r) if isinstance(x, ArrV) else r
        if fn in ('square', 'cwiseAbs2'):
            r = M.ew(lambda e: e * e, self.arr(x))
            return ArrV(r) if isinstance(x, ArrV) else r
        if fn in ('max', 'cwiseMax', 'min', 'cwiseMin'):
            o = self.ev(args[0])
            f = M.zmax if 'ax' in fn else M.zmin
            if isinstance(o, (LV, ElemLV)) and not (isinstance(o, LV) and self.T.kind(o.typ) in ('mat',)):
                o = self.load(o)
            if is_z(o) and o.sort() in (R, I):
                s = zr(o)
                r = M.ew(lambda e: f(e, s), self.arr(x))
            else:
                r = M.ew(f, self.arr(x), self.arr(o))
            return ArrV(r) if isinstance(x, ArrV) else r
        if fn == 'cwiseProduct':
            return M.ew(lambda a, b: a * b, self.arr(x), self.arr(self.ev(args[0])))
        if fn == 'diagonal' and not args:
            r, c = self.mdims(x)
            if not (M.same(r, c) or self.implied(r == c)):
                raise Unsupported('diagonal of a rectangular matrix')
            return DView(x) if isinstance(x, (LV, View)) else M.diagonal(self.arr(x))
        if fn == 'asDiagonal':
            return M.F_diag(self.mget(x))
        if fn == 'inverse':
            return M.inv(self.mget(x))
        if fn == 'isApproxToConstant':
            a, v = self.mget(x), zr(self.num(args[0]))
            r, c = M.dims(a)
            ap = z3.Function('isapproxconst', Mat, R, B)(a, v)
            if M.ival(r) == 1 and M.ival(c) == 1:
                self.assume(z3.Implies(M.elem(a, 0, 0) == v, ap))
            return ap
        if fn == 'isApprox':
            return z3.Function('isapprox', Mat, Mat, B)(self.mget(x), self.mget(self.ev(args[0])))
        if fn in ('allFinite', 'hasNaN'):
            return z3.BoolVal(fn == 'allFinite')
        if fn.startswith('operator const') or fn == 'value' or fn == 'operator double':
            return M.scalar11(self.mget(x))
        if fn == 'format':
            return Opaque('format')
        if fn == 'operator=':
            v = self.mget(self.ev(args[0]))
            self.mstore(x, v)
            return x
        if fn in ('coeff', 'coeffRef', 'operator()', 'operator[]'):
            return self.elem_of(x, [self.integer(a) for a in args])
        raise Unsupported('Eigen method ' + fn)

    lhs_transpose = False

    def nonempty(self, m):
        if self.nofork:
            return
        sz = z3.simplify(M.size(m))
        if not self.choose(sz > 0):
            raise Abort('reduction of an empty matrix', self.line)

    def opdims_vec(self, a, b):
        self.opdims(a, b)

    def eigen_set(self, n, fn, obj, x, args):
        a = [self.num(q) for q in args]
        if isinstance(x, LV) and self.T.kind(x.typ) == 'mat':
            R_, C_ = self.T.matdims(x.typ)
        else:
            R_, C_ = (-1, -1)
        val = None
        if fn in ('setConstant', 'fill'):
            val = zr(a.pop())
        a = [self.to_int(q) for q in a]
        if len(a) == 2:
            r, c = a
        elif len(a) == 1:
            r, c = (z3.IntVal(1), a[0]) if R_ == 1 and C_ != 1 else (a[0], z3.IntVal(1))
        else:
            r, c = self.mdims(x)
        if a:
            for q in a:
                self.nonneg_dim(q)
        if fn == 'setZero':
            v = M.zero(r, c)
        elif fn == 'setOnes':
            v = M.mk(r, c, lambda i, j: z3.RealVal(1))
        elif fn in ('setConstant', 'fill'):
            v = M.mk(r, c, lambda i, j: val)
        elif fn == 'setIdentity':
            v = M.ident(r, c)
        else:
            v = self.fresh_mat('random', r, c)
        if not self.settable(x):
            raise Unsupported('set on temporary')
        self.mset(x, v)
        return x

    def llt_method(self, fn, obj, args):
        L = self.load(obj) if isinstance(obj, LV) else obj
        if fn == 'compute':
            v = LLT(self.mget(self.ev(args[0])))
            if isinstance(obj, LV):
                self.store(obj, v)
                return obj
            return v
        if not isinstance(L, LLT) or L.m is None:
            raise Abort('LLT used before compute', self.line)
        if fn == 'info':
            return z3.If(F_posdef(L.m), z3.IntVal(0), z3.IntVal(1))
        if fn == 'solve':
            b = self.mget(self.ev(args[0]))
            self.muldims(L.m, b)
            return M.mul(M.inv(L.m), b)
        raise Unsupported('LLT ' + fn)

    def elem_of(self, x, idx):
        x = self.viewof(x)
        if isinstance(x, ArrV):
            x = x.m
        r, c = self.mdims(x)
        if len(idx) == 1:
            if z3.is_int_value(r) and r.as_long() == 1 and not (z3.is_int_value(c) and c.as_long() == 1):
                i, j = z3.IntVal(0), idx[0]
            else:
                i, j = idx[0], z3.IntVal(0)
        else:
            i, j = idx
        self.inb(i, r, 'matrix index out of range')
        if not (z3.is_int_value(j) and j.as_long() == 0 and z3.is_int_value(c) and c.as_long() == 1):
            self.inb(j, c, 'matrix index out of range')
        if isinstance(x, LV):
            return ElemLV(x, i, j)
        if isinstance(x, View):
            return ElemLV(x.lv, z3.simplify(x.i + i), z3.simplify(x.j + j))
        if isinstance(x, DView):
            return self.elem_of(x.x, [i, i])
        if isinstance(x, TView):
            return self.elem_of(x.x, [j, i])
        return M.elem(x, i, j)

    # ------------------------------------------------ std::vector
    def vec_method(self, n, fn, v, args):
        if isinstance(v, PtrVal):
            v = v.lv
        if not isinstance(v, LV):
            raise Unsupported('vector method on ' + type(v).__name__)
        size = v.sub('.#', 'int')
        et = self.T.elem(v.typ)
        if fn == 'size':
            return self.load(size)
        if fn == 'empty':
            return self.load(size) == 0
        if fn in ('capacity',):
            return self.fresh('capacity', I)
        if fn in ('reserve', 'shrink_to_fit'):
            for a in args:
                self.ev(a)
            return None
        if fn == 'clear':
            self.store(size, z3.IntVal(0))
            return None
        if fn in ('at', 'operator[]'):
            i = self.integer(args[0])
            self.bounds(v, i, 'vector index')
            return v.sub('[]', et, i)
        if fn in ('back', 'front'):
            sz = self.load(size)
            if not self.nofork and not self.choose(sz > 0):
                raise Abort('front/back of an empty vector', self.line)
            return v.sub('[]', et, z3.simplify(sz - 1) if fn == 'back' else z3.IntVal(0))
        if fn in ('emplace_back', 'push_back'):
            sz = self.load(size)
            dst = v.sub('[]', et, sz)
            self.emplace_into(dst, et, args)
            self.store(size, z3.simplify(sz + 1))
            return dst
        if fn == 'pop_back':
            self.store(size, z3.simplify(self.load(size) - 1))
            return None
        if fn == 'resize':
            k = self.integer(args[0])
            sz = self.load(size)
            tmp = self.temp(et)
            if len(args) > 1:
                self.init_into(tmp, args[1])
            else:
                self.default_init(tmp, None, True)
            if M.same(k, sz):
                return None
            if self.choose(k > sz):
                self.fill_region(v, sz, k, et, tmp)
            self.store(size, k)
            return None
        if fn == 'assign' and len(args) == 2:
            k = self.integer(args[0])
            tmp = self.temp(et)
            self.init_into(tmp, args[1])
            self.fill_region(v, z3.IntVal(0), k, et, tmp)
            self.store(size, k)
            return None
        if fn in ('begin', 'cbegin'):
            return IterV(v, 0)
        if fn in ('end', 'cend'):
            return IterV(v, self.load(size))
        if fn in ('rbegin', 'crbegin'):
            return IterV(v, 0, True)
        if fn in ('rend', 'crend'):
            return IterV(v, self.load(size), True)
        if fn == 'insert' and len(args) == 2:
            it = self.ev(args[0])
            it = self.load(it) if isinstance(it, LV) else it
            val = self.rv(args[1])
            sz = self.load(size)
            pos = it.i
            for s, k, lt in self.T.leaves(et):
                if k or s:
                    raise Unsupported('insert of aggregates')
                kind = self.T.kind(lt)
                key = v.key + '[]'
                self.baseinfo.setdefault(key, strip(lt))
                prev = self.fmap(key, kind)
                nd = len(v.idx)
                pre = self._pref(v.idx)
                self.mem[key] = Fn(prev, lambda q, pre=pre, nd=nd: z3.And(pre(q), q[nd] >= pos),
                                   lambda q, prev=prev, nd=nd: self.ite(z3.simplify(q[nd] == pos), val, self.mread(
                                       prev, q[:nd] + (z3.simplify(q[nd] - 1),))))
            self.store(size, z3.simplify(sz + 1))
            return IterV(v, pos)
        raise Unsupported('vector::' + fn)

    def construct_vec(self, lv, n, args):
        size = lv.sub('.#', 'int')
        et = self.T.elem(lv.typ)
        if not args:
            self.store(size, z3.IntVal(0))
            return
        args = [a for a in args if not strip(a['t']).startswith('std::allocator')]
        v = self.ev(args[0])
        if isinstance(v, LV) and self.T.kind(v.typ) == 'vec' and len(args) == 1:
            move = n.get('move') or v.xv
            return self.copy_value(lv, LV(v.key, v.idx, v.typ), lv.typ, True, bool(move))
        if isinstance(v, LV) and self.T.kind(v.typ) == 'arr' and len(args) == 1:   # initializer_list backing array
            m = re.match(r'^.*\[(\d+)\]$', strip(v.typ))
            k = int(m.group(1)) if m else int(targs(strip(v.typ))[1])
            for i in range(k):
                self.assign(lv.sub('[]', et, i), v.sub('[]', self.T.elem(v.typ), i), et)
            self.store(size, z3.IntVal(k))
            return
        if isinstance(v, IterV):
            w = self.ev(args[1])
            w = self.load(w) if isinstance(w, LV) else w
            raise Unsupported('vector range constructor')
        v = self.load(v) if isinstance(v, (LV, ElemLV)) else v
        if is_z(v) and v.sort() in (I, B):
            k = self.to_int(v)
            if not self.nofork and not self.choose(k >= 0):
                raise Abort('negative vector size', self.line)
            tmp = self.temp(et)
            if len(args) > 1:
                self.init_into(tmp, args[1])
            else:
                self.default_init(tmp, None, True)
            self.fill_region(lv, z3.IntVal(0), k, et, tmp)
            self.store(size, k)
            return
        raise Unsupported('vector constructor')

    # ------------------------------------------------ std::unordered_map
    def mkey_(self, k):
        if isinstance(k, LV):
            k = self.load(k)
        if isinstance(k, PtrVal):
            raise Unsupported('pointer map key')
        return k

    def map_method(self, n, fn, m, args):
        size = m.sub('.#', 'int')
        vt = targs(strip(m.typ))[1]
        if fn == 'size':
            return self.load(size)
        if fn == 'empty':
            return self.load(size) == 0
        if fn in ('end', 'cend'):
            return MapIter(m, None)
        if fn in ('begin', 'cbegin'):
            ks = self.map_keys(m)
            return MapIter(m, ks[0] if ks else None, ks[1:])
        if fn == 'find':
            k = self.mkey_(self.ev(args[0]))
            if self.choose(self.load(m.sub('.?', 'bool', k))):
                return MapIter(m, k)
            return MapIter(m, None)
        if fn in ('count',):
            k = self.mkey_(self.ev(args[0]))
            return z3.If(self.load(m.sub('.?', 'bool', k)), z3.IntVal(1), z3.IntVal(0))
        if fn == 'clear':
            self.default_init(m, None, True)
            return None
        if fn in ('emplace', 'insert'):
            a = [self.ev(x) for x in args]
            if len(a) == 1 and isinstance(a[0], tuple):
                k, v = a[0]
            elif len(a) == 1 and isinstance(a[0], LV) and self.T.kind(a[0].typ) == 'pair':
                k, v = a[0].sub('.first', targs(strip(a[0].typ))[0]), a[0].sub('.second', targs(strip(a[0].typ))[1])
            elif len(a) == 2:
                k, v = a
            else:
                raise Unsupported('map emplace')
            k = self.mkey_(k)
            slot = m.sub('{}', vt, k)
            if self.choose(self.load(m.sub('.?', 'bool', k))):
                return (MapIter(m, k), z3.BoolVal(False))
            if isinstance(v, LV) and self.T.kind(vt) in ('class', 'vec', 'arr', 'map', 'pair'):
                self.assign(slot, v, vt)
            else:
                self.store(slot, self.load(v) if isinstance(v, (LV, ElemLV)) else v)
            self.store(m.sub('.?', 'bool', k), z3.BoolVal(True))
            self.store(size, z3.simplify(self.load(size) + 1))
            return (MapIter(m, k), z3.BoolVal(True))
        if fn in ('operator[]', 'at'):
            return self.map_at(m, self.mkey_(self.ev(args[0])), fn == 'at')
        raise Unsupported('map::' + fn)

    def map_keys(self, m):
        """the keys of a map whose content is known literally, in one of two opposite orders (the order is unspecified)"""
        if self.T.kind(targs(strip(m.typ))[0]) != 'str':
            raise Unsupported('iteration over a map')
        lits = [self.intern(s) for s in list(self.strs) if not s.startswith('&')]
        ks = []
        self.nofork += 1
        try:
            for k in lits:
                p = z3.simplify(self.load(m.sub('.?', 'bool', k)))
                if not z3.is_true(p) and not z3.is_false(p):
                    p = z3.BoolVal(True) if self.implied(p) else z3.BoolVal(False) if self.implied(z3.Not(p)) else p
                if z3.is_true(p):
                    ks.append(k)
                elif not z3.is_false(p):
                    raise Unsupported('iteration over a map of unknown content')
            g = z3.FreshInt('anykey')
            p = self.load(m.sub('.?', 'bool', g))
        finally:
            self.nofork -= 1
        if not self.implied(z3.Implies(z3.And(*[g != k for k in lits]), z3.Not(p))):
            raise Unsupported('iteration over a map of unknown content')
        if len(ks) > 1 and not self.choose(z3.Bool('map_order')):
            ks.reverse()
        return ks

    def map_at(self, m, k, must=False):
        vt = targs(strip(m.typ))[1]
        slot = m.sub('{}', vt, k)
        if not self.choose(self.load(m.sub('.?', 'bool', k))):
            if must:
                raise Abort('map::at of a missing key', self.line)
            tmp = self.temp(vt)
            self.default_init(tmp, None, True)
            self.assign(slot, tmp, vt)
            self.store(m.sub('.?', 'bool', k), z3.BoolVal(True))
            sz = m.sub('.#', 'int')
            self.store(sz, z3.simplify(self.load(sz) + 1))
        return slot

    # ------------------------------------------------ overloaded operators of library types
    def builtin_op(self, n, op):
        cls = (n.get('cls') or '').split('<')[0]
        q = n.get('q', '')
        args = n['args']
        if op == '()' and q in self.contracts:      # functor of the driver: only its contract is known
            return self.contracts[q][0][1](self, None, [self.ev(a) for a in args[1:]], None)
        if cls.startswith('(lambda') or '(lambda at' in (n.get('cls') or '').split('<')[0]:
            c = self.ev(args[0])
            c = self.load(c) if isinstance(c, LV) else c
            return self.call_closure(c, [self.ev(a) for a in args[1:]], n.get('fid'))
        if cls == 'std::function':
            if op == '()':
                c = self.ev(args[0])
                c = self.load(c) if isinstance(c, LV) else c
                vals = [self.ev(a) for a in args[1:]]
                if isinstance(c, Closure) or callable(c):
                    return self.call_closure(c, vals)
                h = self.virtual.get('std::function')
                if h:
                    return h(self, c, vals, n)
                raise Unsupported('call of unknown std::function')
            if op == '=':
                lv = self.ev(args[0])
                v = self.ev(args[1])
                v = self.load(v) if isinstance(v, LV) else v
                self.store(lv, v)
                return lv
        if cls == 'Eigen::CommaInitializer' or (cls.startswith('Eigen') and op == '<<'):
            return self.comma(n, op, args)
        if cls.startswith('Eigen') or q.startswith('Eigen::'):
            return self.eigen_op(n, op, args)
        if cls in ('std::vector', 'std::array'):
            v = self.ev(args[0])
            if op == '[]':
                i = self.integer(args[1])
                if cls == 'std::array':
                    return self.array_elem(v, i)
                self.bounds(v, i, 'vector index')
                return v.sub('[]', self.T.elem(v.typ), i)
            if op == '=':
                src = self.ev(args[1])
                if isinstance(src, LV):
                    if strip(src.typ) == strip(v.typ) or self.T.kind(src.typ) == 'vec':
                        self.copy_value(v, LV(src.key, src.idx, src.typ), v.typ, False, src.xv)
                        return v
                raise Unsupported('vector assignment')
        if cls in ('std::unordered_map', 'std::map'):
            m = self.ev(args[0])
            if op == '[]':
                return self.map_at(m, self.mkey_(self.ev(args[1])))
            if op == '=':
                src = self.ev(args[1])
                self.copy_value(m, LV(src.key, src.idx, src.typ), m.typ, False, src.xv)
                return m
        if cls in ('std::__shared_ptr_access', 'std::unique_ptr', 'std::shared_ptr'):
            if op in ('*', '->'):
                p = self.rv(args[0])
                if isinstance(p, Opaque):
                    return p
                t = n['t'] if op == '*' else self.T.pointee(n['t'])
                lv = self.deref(p, t)
                return lv if op == '*' else PtrVal(lv)
            if op == '=':
                lv = self.ev(args[0])
                src = self.ev(args[1])
                v = self.load(src) if isinstance(src, LV) else src
                if isinstance(lv, Opaque):
                    return lv
                if isinstance(src, LV) and src.xv and self.T.kind(src.typ) == 'ptr' and not isinstance(v, PtrVal):
                    self.store(src, z3.IntVal(0))
                self.store(lv, v)
                return lv
            if op == '[]':
                raise Unsupported('pointer subscript')
        if cls in ('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::__detail::_Node_iterator',
                   'std::__detail::_Node_iterator_base') or q.startswith('__gnu_cxx::') or q.startswith('std::__detail'):
            return self.iter_op(n, op, args)
        if cls in ('std::__atomic_base', 'std::atomic'):
            lv = self.ev(args[0])
            if op in ('++', '--'):
                self.rmw = True
                old = self.load(lv)
                new = z3.simplify(old + 1 if op == '++' else old - 1)
                self.store(lv, new)
                self.rmw = False
                return old if len(args) > 1 else new
            if op == '=':
                v = self.convert(self.num(args[1]), lv.typ)
                self.store(lv, v)
                return v
            if op in ('+=', '-='):
                d = self.num(args[1]) * (1 if op == '+=' else -1)
                self.rmw = True
                new = z3.simplify(self.load(lv) + d)
                self.store(lv, new)
                self.rmw = False
                return new
        if q.startswith('std::chrono::operator'):
            for a in args:
                self.ev(a)
            return self.fresh('ticks', SORT[self.T.kind(n['t'])])
        if cls == 'std::chrono::duration' and op == '=':
            lv = self.ev(args[0])
            self.store(lv, self.num(args[1]))
            return lv
        if cls in ('std::packaged_task', 'std::future') and op == '=':
            lv, src = self.ev(args[0]), self.ev(args[1])
            v = self.load(src) if isinstance(src, LV) else src
            if isinstance(src, LV):
                self.store(src, z3.IntVal(0))
            self.store(lv, v)
            return lv
        if cls == 'std::packaged_task' and op == '()' and 'std::packaged_task::()' in self.contracts:
            return self.contracts['std::packaged_task::()'][0][1](self, None, [self.ev(args[0])], None)
        if 'basic_string' in cls:
            lv = self.ev(args[0])
            if op == '=':
                v = self.rv(args[1])
                if isinstance(lv, LV):
                    self.store(lv, v if is_z(v) else self.fresh('str', I))
                return lv
            if op == '+=':
                v = self.rv(args[1])
                v = v if is_z(v) else self.fresh('str', I)
                if isinstance(lv, LV):
                    self.store(lv, F_strcat(self.load(lv), v))
                return lv
        if op in ('==', '!='):
            a, b = self.rv(args[0]), self.rv(args[1])
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('comparison of opaque values')
            if isinstance(a, (IterV, MapIter, PtrVal)) or isinstance(b, (IterV, MapIter, PtrVal)) or \
                    (is_z(a) and is_z(b) and a.sort() == I and b.sort() == I):
                r = self.ptrcmp('==', a, b)
                return r if op == '==' else z3.simplify(z3.Not(r))
        if op == '+' and self.T.kind(n['t']) == 'str':
            a, b = self.rv(args[0]), self.rv(args[1])
            a = a if is_z(a) else self.fresh('str', I)
            b = b if is_z(b) else self.fresh('str', I)
            return F_strcat(a, b)
        if op == '<<':
            for a in args[1:]:
                self.ev(a)
            return Opaque('std::basic_ostream')
        if cls == 'std::pair' and op == '=':
            d, s = self.ev(args[0]), self.ev(args[1])
            self.assign(d, s, d.typ)
            return d
        raise Unsupported(f'operator {op} of {cls or q}')

    def iter_op(self, n, op, args):
        a = self.ev(args[0])
        if op in ('++', '--', '+=', '-='):
            it = self.load(a)
            if isinstance(it, MapIter):
                if it.key is None or it.rest is None or op != '++':
                    raise Unsupported('map iteration')
                self.store(a, MapIter(it.map, it.rest[0] if it.rest else None, it.rest[1:]))
                return it if len(args) > 1 else a
            d = z3.IntVal(1) if op in ('++', '--') else self.integer(args[1])
            new = IterV(it.vec, z3.simplify(it.i + d if op[0] == '+' else it.i - d), it.rev)
            self.store(a, new)
            return it if op in ('++', '--') and len(args) > 1 else a
        if op == '=':
            v = self.rv(args[1])
            self.store(a, v)
            return a
        a = self.load(a) if isinstance(a, LV) else a
        if op in ('*', '->'):
            if isinstance(a, MapIter):
                if a.key is None:
                    raise Abort('dereference of end()', self.line)
                slot = a.map.sub('{}', targs(strip(a.map.typ))[1], a.key)
                return (a.key, slot) if op == '*' else MapPair(a.key, slot)
            sz = self.vec_size(a.vec)
            self.inb(a.i, sz, 'iterator out of range')
            lv = self.iter_deref(a)
            return lv if op == '*' else PtrVal(lv)
        if op in ('+', '-'):
            b = self.rv(args[1])
            if isinstance(b, IterV):
                return z3.simplify(a.i - b.i)
            return IterV(a.vec, z3.simplify(a.i + b if op == '+' else a.i - b), a.rev)
        if op == '[]':
            it = IterV(a.vec, z3.simplify(a.i + self.integer(args[1])), a.rev)
            self.inb(it.i, self.vec_size(a.vec), 'iterator out of range')
            return self.iter_deref(it)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.ptrcmp(op, a, self.rv(args[1]))
        raise Unsupported('iterator operator ' + op)

    def eigen_op(self, n, op, args):
        if op in ('()', '[]'):
            x = self.ev(args[0])
            if isinstance(x, LV) and self.T.kind(x.typ) == 'py':
                x = self.load(x)
            return self.elem_of(x, [self.integer(a) for a in args[1:]])
        if op == '=':
            # right operand first (C++17 order is immaterial here: no side effects in either)
            v = self.mval(args[1])
            x = self.ev(args[0])
            if isinstance(x, ArrV):
                if x.x is None:
                    raise Unsupported('array assignment')
                if is_z(v) and v.sort() != Mat:
                    raise Unsupported('scalar assigned to an array')
                x = x.x
            x = x if isinstance(x, (View, TView)) else x
            self.mstore(x, v)
            return x
        if op in ('+=', '-=', '*=', '/='):
            x = self.ev(args[0])
            if isinstance(x, LV):
                x = self.viewof(x)
            arrayx = isinstance(x, ArrV)
            if arrayx:
                if x.x is None:
                    raise Unsupported('compound assignment to temporary')
                x = x.x
            old = self.mget(x)
            y = self.ev(args[1])
            y = self.load(y) if isinstance(y, (LV, ElemLV)) and not (isinstance(y, LV) and self.T.kind(y.typ) == 'class') else y
            if isinstance(y, (View, TView)):
                y = self.mget(y)
            if isinstance(y, ArrV):
                y = y.m
            if arrayx and not (op in ('+=', '-=') and y.sort() == Mat):
                g = {'+=': lambda a, b: a + b, '-=': lambda a, b: a - b, '*=': lambda a, b: a * b, '/=': lambda a, b: a / b}[op]
                if y.sort() == Mat:
                    self.opdims(old, y)
                    v = M.ew(g, old, y)
                elif op in ('*=', '/='):
                    v = M.scale(zr(y), old) if op == '*=' else M.div(old, zr(y))
                else:
                    s = zr(y)
                    v = M.ew(lambda a: g(a, s), old)
            elif op in ('+=', '-='):
                if y.sort() != Mat:
                    raise Unsupported('matrix += scalar')
                self.opdims(old, y)
                v = M.add(old, y) if op == '+=' else M.sub(old, y)
            elif y.sort() == Mat:
                if op == '/=':
                    raise Unsupported('matrix /= matrix')
                self.muldims(old, y)
                v = M.mul(old, y)
            else:
                v = M.scale(zr(y), old) if op == '*=' else M.div(old, zr(y))
            if not self.settable(x):
                raise Unsupported('compound assignment to temporary')
            self.mset(x, v)
            return x
        vals = []
        isarr = False
        for a in args:
            v = self.ev(a)
            if isinstance(v, (LV, ElemLV, View, TView)):
                v = self.load(v)
            if isinstance(v, ArrV):
                isarr = True
                v = v.m
            if not is_z(v):
                raise Unsupported('Eigen operand ' + type(v).__name__)
            vals.append(v)
        W = (lambda m: ArrV(m)) if isarr else (lambda m: m)
        if len(vals) == 1:
            if op == '-':
                return W(M.neg(vals[0]))
            raise Unsupported('Eigen unary ' + op)
        a, b = vals
        am, bm = a.sort() == Mat, b.sort() == Mat
        if isarr:
            f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y}.get(op)
            if op in ('<', '<=', '>', '>=', '=='):
                raise Unsupported('array comparison')
            if am and bm:
                self.opdims(a, b)
                return ArrV(M.ew(f, a, b))
            if am:
                s = zr(b)
                return ArrV(M.ew(lambda x: f(x, s), a))
            s = zr(a)
            return ArrV(M.ew(lambda x: f(s, x), b))
        if op in ('+', '-'):
            if not (am and bm):
                raise Unsupported('matrix + scalar')
            self.opdims(a, b)
            return M.add(a, b) if op == '+' else M.sub(a, b)
        if op == '*':
            if am and bm:
                self.muldims(a, b)
                return M.mul(a, b)
            return M.scale(zr(b), a) if am else M.scale(zr(a), b)
        if op == '/':
            return M.div(a, zr(b))
        if op in ('==', '!='):
            r = a == b
            return r if op == '==' else z3.Not(r)
        raise Unsupported('Eigen operator ' + op)

    def mval(self, node):
        v = self.ev(node)
        return self.mget(v)

    def comma(self, n, op, args):
        """z << a, b, c  for vectors (stacked) and scalars"""
        if op == '<<':
            x = self.viewof(self.ev(args[0]))
            ci = CommaInit(x)
        else:
            ci = self.ev(args[0])
        v = self.ev(args[1])
        if isinstance(v, (LV, ElemLV, View, TView)):
            v = self.load(v)
        x = ci.x
        r, c = self.mdims(x)
        if v.sort() == Mat:
            vr, vc = M.dims(v)
            if not (M.same(c, vc)):
                if not self.choose(c == vc):
                    raise Abort('comma initializer size mismatch', self.line)
            self.winok(ci.off, vr, r)
            w = self.window(x, ci.off, z3.IntVal(0), vr, c)
            self.mset(w, v)
            ci.off = z3.simplify(ci.off + vr)
        else:
            if not M.same(c, 1):
                raise Unsupported('comma initializer of a matrix')
            self.inb(ci.off, r, 'comma initializer too long')
            self.mset(x, M.setelem(self.mget(x), ci.off, 0, zr(v)))
            ci.off = z3.simplify(ci.off + 1)
        return ci
