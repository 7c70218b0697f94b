"""Core of the verification-condition generator: path exploration, memory model, program loading."""
import json, re, time
import z3
from . import mat as M

I, R, B, Mat = z3.IntSort(), z3.RealSort(), z3.BoolSort(), M.Mat


class Unsupported(Exception):
    """The executor met a construct it has no rule for: the function is not decided deductively."""


class Infeasible(Exception):
    pass


class Abort(Exception):
    """An ALTRO_ASSERT failed (or abort/throw was reached) on this path."""
    def __init__(self, what, line=None):
        self.what, self.line = what, line


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


def zr(x):
    if isinstance(x, (int, float)):
        return z3.RealVal(x)
    if z3.is_int_value(x):
        return z3.RealVal(x.as_long())
    if z3.is_int(x):
        return z3.ToReal(x)
    return x


class LV:
    __slots__ = ('key', 'idx', 'typ', 'xv')

    def __init__(self, key, idx, typ, xv=False):
        self.key, self.idx, self.typ, self.xv = key, tuple(idx), typ, xv

    def sub(self, suffix, typ, *more):
        return LV(self.key + suffix, self.idx + tuple(zi(m) for m in more), typ)

    def __repr__(self):
        return f'LV({self.key},{self.idx})'


class View:
    """a rectangular window of a matrix lvalue"""
    __slots__ = ('lv', 'i', 'j', 'r', 'c')

    def __init__(self, lv, i, j, r, c):
        self.lv, self.i, self.j, self.r, self.c = lv, zi(i), zi(j), zi(r), zi(c)


class TView:
    """transposed view of a matrix lvalue"""
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x


class DView(TView):
    """the diagonal of a square matrix lvalue, as a column vector"""
    __slots__ = ()


class ElemLV:
    __slots__ = ('x', 'i', 'j')

    def __init__(self, x, i, j):
        self.x, self.i, self.j = x, zi(i), zi(j)


class PtrVal:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class IterV:
    __slots__ = ('vec', 'i', 'rev')

    def __init__(self, vec, i, rev=False):
        self.vec, self.i, self.rev = vec, zi(i), rev


class MapIter:
    __slots__ = ('map', 'key', 'rest')

    def __init__(self, mp, key, rest=None):
        self.map, self.key, self.rest = mp, key, rest   # key None => end; rest: keys visited after this one


class MapPair:
    """result of map iterator operator->"""
    __slots__ = ('first', 'second')

    def __init__(self, k, slot):
        self.first, self.second = k, slot


class Closure:
    __slots__ = ('node', 'env', 'this', 'name')

    def __init__(self, node, env, this, name=None):
        self.node, self.env, self.this, self.name = node, env, this, name


class FnRef:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ArrV:
    """coefficient-wise view; x: the lvalue it views, if any"""
    __slots__ = ('m', 'x')

    def __init__(self, m, x=None):
        self.m, self.x = m, x


class LLT:
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = m


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what=''):
        self.what = what


class CommaInit:
    __slots__ = ('x', 'off')

    def __init__(self, x):
        self.x, self.off = x, z3.IntVal(0)


def is_z(v):
    return isinstance(v, z3.ExprRef)


# ---------------------------------------------------------------- memory maps
class FMap:
    pass


class Base(FMap):
    def __init__(self, key, kind, tag='B'):
        self.key, self.kind, self.tag = key, kind, tag
        self.nidx = None
        self.pat = None

    def read(self, X, idx):
        return X.base_read(self, idx)


class Store(FMap):
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val


class Fn(FMap):
    def __init__(self, prev, cond, val, note=''):
        self.prev, self.cond, self.val, self.note = prev, cond, val, note
        self.nidx = None
        self.pat = None


SORT = {'real': R, 'int': I, 'bool': B, 'ptr': I, 'mat': Mat, 'str': I, 'opaque': I, 'fn': I}

F_kind = z3.Function('refkind', I, I)
F_round = z3.Function('nearest_double', R, R)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = d['funcs']
        self.by_fid, self.by_q, self.by_cls = {}, {}, {}
        for f in self.funcs:
            self.by_fid[f['fid']] = f
            self.by_q.setdefault(f['q'], []).append(f)
            self.by_cls.setdefault(f.get('cls', ''), []).append(f)
        self.recs = {r['name']: r for r in d['recs']}
        self.enums = {}
        for e in d['enums']:
            self.enums[e['q']] = e['v']
        self.enum_types = set(self.enums)
        self.vars = {v['id']: v for v in d['vars']}
        self.typedefs = d.get('typedefs', {})
        self.over = {}
        for f in self.funcs:
            for o in f.get('over', []):
                self.over.setdefault(o, []).append(f)
        self.lambdas = {}

    def fn(self, q, nparams=None, pred=None):
        c = [f for f in self.by_q.get(q, []) if f.get('body') is not None or f.get('pure') or f.get('defaulted')]
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if len(c) != 1:
            raise Unsupported(f'function {q} not found uniquely ({len(c)})')
        return c[0]

    def bases(self, cls):
        out = [cls]
        for b in self.recs.get(cls, {}).get('bases', []):
            out += self.bases(b)
        return out

    def override(self, fid, cls):
        """the function that a virtual call to fid runs on an object of exact dynamic class cls"""
        cand = [self.by_fid[fid]] if fid in self.by_fid else []
        todo = [fid]
        allf = []
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for f in self.over.get(x, []):
                allf.append(f)
                todo.append(f['fid'])
        chain = self.bases(cls)
        best = None
        for f in allf + cand:
            if f['cls'] in chain:
                if best is None or chain.index(f['cls']) < chain.index(best['cls']):
                    best = f
        return best


# ---------------------------------------------------------------- types
def strip(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:].strip()
        elif t.endswith('&&'):
            t = t[:-2].strip()
        elif t.endswith('&'):
            t = t[:-1].strip()
        elif t.endswith(' const'):
            t = t[:-6].strip()
        elif t.endswith('*const'):
            t = t[:-5].strip()
        else:
            return t


def isref(t):
    return t.strip().endswith('&')


def is_task(t):
    return strip(t).startswith(('std::packaged_task<', 'std::future<'))


def targs(t):
    """template arguments of a type string"""
    i = t.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for ch in t[i + 1:]:
        if ch == '>' and depth == 0:
            break
        if ch in '<(':
            depth += 1
        if ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


REALS = {'double', 'float', 'long double'}
INTS = {'int', 'long', 'unsigned long', 'unsigned int', 'short', 'char', 'signed char', 'unsigned char', 'long long',
        'unsigned long long', 'unsigned short', 'size_t'}


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.cache = {}

    def kind(self, t):
        k = self.cache.get(t)
        if k is None:
            k = self.cache[t] = self._kind(strip(t))
        return k

    def _kind(self, t):
        if t in REALS:
            return 'real'
        if t in INTS:
            return 'int'
        if t == 'bool':
            return 'bool'
        if t == 'void':
            return 'void'
        if t.endswith('::*'):
            return 'int'        # pointer to data member: identifies the member
        if t.endswith('*') or t.startswith(('std::shared_ptr<', 'std::unique_ptr<')) or t == 'std::nullptr_t' or t == 'nullptr_t':
            return 'ptr'
        if t.startswith('std::atomic<'):
            return self._kind(strip(targs(t)[0]))
        if t.startswith('Eigen::Matrix<'):
            return 'mat'
        if t.startswith(('Eigen::Ref<', 'Eigen::Block<', 'Eigen::Map<', 'Eigen::VectorBlock<')):
            return 'view'
        if t.startswith('Eigen::LLT<'):
            return 'py'
        if t.startswith('Eigen::ComputationInfo'):
            return 'int'
        if t.startswith('Eigen::IOFormat'):
            return 'opaque'
        if t.startswith('Eigen::'):
            return 'mexpr'
        if t.startswith('std::vector<'):
            return 'vec'
        if t.startswith('std::array<'):
            return 'arr'
        if t.startswith(('std::unordered_map<', 'std::map<')):
            return 'map'
        if t.startswith(('std::__cxx11::basic_string', 'std::basic_string')):
            return 'str'
        if t.startswith(('std::packaged_task<', 'std::future<', 'std::__basic_future<', 'std::chrono::duration<')) or t == 'std::future_status':
            return 'int'        # identity of the task, number of ticks
        if t.startswith('std::function<') or t == 'std::thread' or '(lambda at' in t and not t.startswith('altro::utils'):
            return 'py'
        if t.startswith(('__gnu_cxx::__normal_iterator', 'std::reverse_iterator', 'std::__detail::_Node')):
            return 'py'
        if t in self.prog.enum_types:
            return 'int'
        if t in self.prog.recs:
            return 'class'
        if t.startswith('std::pair<'):
            return 'pair'
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            return 'arr'
        return 'opaque'

    def matdims(self, t):
        a = targs(strip(t))
        return int(a[1]), int(a[2])

    def elem(self, t):
        t = strip(t)
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            return m.group(1).strip()
        return targs(t)[0]

    def pointee(self, t):
        t = strip(t)
        if t.endswith('*'):
            return strip(t[:-1])
        return strip(targs(t)[0])

    def leaves(self, t, prefix=''):
        """[(suffix, extra_index_count, leaf type)] of every scalar location inside a value of type t"""
        k = self.kind(t)
        t = strip(t)
        if k == 'class':
            out = []
            for c in self.prog.bases(t):
                for f in self.prog.recs[c]['fields']:
                    out += [('.' + f['n'] + s, n, lt) for s, n, lt in self.leaves(f['t'])]
            return out
        if k == 'vec':
            return [('.#', 0, 'int')] + [('[]' + s, n + 1, lt) for s, n, lt in self.leaves(self.elem(t))]
        if k == 'arr':
            return [('[]' + s, n + 1, lt) for s, n, lt in self.leaves(self.elem(t))]
        if k == 'map':
            a = targs(t)
            return [('.#', 0, 'int'), ('.?', 1, 'bool')] + [('{}' + s, n + 1, lt) for s, n, lt in self.leaves(a[1])]
        if k == 'pair':
            a = targs(t)
            return [('.first' + s, n, lt) for s, n, lt in self.leaves(a[0])] + \
                   [('.second' + s, n, lt) for s, n, lt in self.leaves(a[1])]
        return [('', 0, t)]


# ---------------------------------------------------------------- exploration
def _open(x):
    st = [x]
    while st:
        y = st.pop()
        if z3.is_var(y):
            return True
        st += y.children()
    return False


class Explorer:
    """path exploration by re-execution with decision prefixes"""
    MAXPATHS = 4000

    def __init__(self, timeout_ms=4000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.trace, self.pos = [], 0
        self.pending = None
        self.facts = []          # facts on the current path
        self.decs = []           # the branch decisions among them
        self.stats = {'checks': 0, 'time': 0.0, 'paths': 0}
        self.deadline = None
        self.loopalloc, self.kinded, self.keep = {}, set(), []
        self.rounding, self.roundeds = False, []

    def check(self, *extra):
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Unsupported('time budget exceeded')
        r = self.solver.check(*extra)
        self.stats['checks'] += 1
        self.stats['time'] += time.time() - t0
        return r

    def assume(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)
        if z3.is_false(f):
            raise Infeasible()

    def implied(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.new_facts(c)
        return self.check(z3.Not(c)) == z3.unsat

    def new_facts(self, c):
        """facts about the terms of c: objects allocated in a loop (one per iteration, distinct from every other object), and
        rounded values"""
        if self.rounding:
            self.round_facts(c)
        if not self.loopalloc:
            return
        st, seen = [c], set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                st += x.children()
                if x.num_args() and x.decl().name() in self.loopalloc and x.get_id() not in self.kinded and not _open(x):
                    self.kinded.add(x.get_id())
                    k = self.loopalloc[x.decl().name()]
                    self.keep.append(x)
                    self.assume(z3.And(F_kind(x) == k, x > 0, *[z3.Function(f'newarg{j}', I, I)(x) == a for j, a in enumerate(x.children())]))

    def round_facts(self, c):
        """round to nearest double: monotone, exact on integers up to 2^53, relative error at most 2^-53 (no overflow or underflow)"""
        u = z3.RealVal('1/9007199254740992')
        st, seen = [c] + list(self.facts), set()
        self.roundeds = [r for r in self.roundeds if r[1] < len(self.facts) and self.facts[r[1]] is r[2]]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not z3.is_app(x):
                continue
            st += x.children()
            if x.decl().eq(F_round) and not _open(x) and not any(x.eq(y) for y, _, _ in self.roundeds):
                a = x.arg(0)
                A = z3.Real(f'exact!{x.get_id()}')
                fs = [A == a, z3.Implies(A >= 0, z3.And(x >= 0, x - A <= u * A, A - x <= u * A)),
                      z3.Implies(A <= 0, z3.And(x <= 0, x - A <= -u * A, A - x <= -u * A)),
                      z3.Implies(z3.And(z3.IsInt(a), a <= 2**53, a >= -2**53), x == a)]
                den = self.denominator(a)
                if den is not None:
                    p, q = den
                    P, Q = z3.Real(f'exact_p!{x.get_id()}'), z3.Real(f'exact_q!{x.get_id()}')
                    fs += [P == p, Q == q, z3.Implies(z3.And(Q > 0, P >= 0), z3.And(x * Q - P <= u * P, P - x * Q <= u * P, x >= 0))]
                for y, _, _ in self.roundeds:
                    b = y.arg(0)
                    fs += [z3.Implies(a <= b, x <= y), z3.Implies(b <= a, y <= x)]
                self.assume(z3.And(*fs))
                self.roundeds.append((x, len(self.facts) - 1, self.facts[-1]))

    @staticmethod
    def denominator(a):
        """(p, q) with a = p / q for a quotient, else None"""
        if a.decl().kind() == z3.Z3_OP_DIV:
            return a.arg(0), a.arg(1)
        fs = a.children() if z3.is_mul(a) else [a]
        inv = [f for f in fs if z3.is_app(f) and f.decl().name() == 'rinv']
        if not inv:
            return None
        rest = [f for f in fs if not any(f is g for g in inv)]
        return z3.Product([z3.RealVal(1)] + rest), z3.Product([z3.RealVal(1)] + [f.arg(0) for f in inv])

    def choose(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.new_facts(c)
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            forced = False
            if isinstance(v, tuple):
                v, forced = v
        else:
            ct = self.check(c) != z3.unsat
            cf = self.check(z3.Not(c)) != z3.unsat
            if not ct and not cf:
                raise Infeasible()
            v = ct
            forced = not (ct and cf)
            if not forced:
                self.pending.append(list(self.trace) + [False])
            self.trace.append((v, True) if forced else v)
            self.pos += 1
        if not forced:
            f = c if v else z3.Not(c)
            self.facts.append(f)
            self.decs.append(f)
            self.solver.add(f)
        return v

    def choose_n(self, n):
        """nondeterministic choice among n alternatives (no condition)"""
        if n == 1:
            return 0
        if self.pos < len(self.trace):
            v = self.trace[self.pos]
            self.pos += 1
            return v
        for j in range(1, n):
            self.pending.append(list(self.trace) + [j])
        self.trace.append(0)
        self.pos += 1
        return 0

    def explore(self, fn, snapshot, restore):
        """run fn on every feasible path; fn's result (or None when infeasible) is collected"""
        sv = (self.trace, self.pos, self.pending, list(self.facts), list(self.decs))
        snap = snapshot()
        todo = [[]]
        outs = []
        n = 0
        try:
            while todo:
                self.trace = todo.pop()
                self.pos = 0
                self.pending = todo
                self.facts = list(sv[3])
                self.decs = list(sv[4])
                restore(snap)
                M.clear_path_caches()
                self.solver.push()
                try:
                    n += 1
                    if n > self.MAXPATHS:
                        raise Unsupported('too many paths')
                    outs.append(fn())
                except Infeasible:
                    pass
                finally:
                    self.solver.pop()
        finally:
            self.trace, self.pos, self.pending, self.facts, self.decs = sv
            restore(snap)
            M.clear_path_caches()
        self.stats['paths'] += n
        return outs
