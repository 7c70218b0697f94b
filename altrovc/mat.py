"""Dimension-generic matrix algebra on z3 terms of an uninterpreted sort Mat.

Every Mat term built here is kept in a canonical form: a sum of (scalar polynomial) * (product of atoms), where an
atom is any Mat term that is not one of the algebra's own operators, possibly transposed.  Two terms that are equal in
every (noncommutative, transposed) matrix ring therefore become the same polynomial.
"""
import z3
from fractions import Fraction

Mat = z3.DeclareSort('Mat')
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F_add = z3.Function('madd', Mat, Mat, Mat)
F_mul = z3.Function('mmul', Mat, Mat, Mat)
F_sc = z3.Function('mscale', R, Mat, Mat)
F_T = z3.Function('mT', Mat, Mat)
F_zero = z3.Function('mzero', I, I, Mat)
F_id = z3.Function('mid', I, I, Mat)          # square identity (r == c)
F_inv = z3.Function('minv', Mat, Mat)
F_sel = z3.Function('msel', I, I, I, Mat)      # msel(total, off, len): total x len, selects columns off..off+len
F_diag = z3.Function('mdiag', Mat, Mat)        # vector -> diagonal matrix
F_rows = z3.Function('mrows', Mat, I)
F_cols = z3.Function('mcols', Mat, I)
F_elem = z3.Function('melem', Mat, I, I, R)
ARR = z3.ArraySort(I, I, R)
F_mk = z3.Function('mk', I, I, ARR, Mat)       # elementwise matrix
F_11 = z3.Function('m11', Mat, R)              # scalar value of a 1x1 product
FSUM = z3.Function('fsum', I, I, z3.ArraySort(I, R), R)
FMAX = z3.Function('fmax', I, I, z3.ArraySort(I, R), R)   # max over [lo,hi), floor handled by caller
FMSUM = z3.Function('fmsum', I, I, z3.ArraySort(I, Mat), Mat)
F_norm = z3.Function('mnorm', Mat, R)
F_approx1 = z3.Function('mapprox1', Mat, B)
F_normp = z3.Function('mnormp', I, Mat, R)

OPS = {'madd', 'mmul', 'mscale', 'mT', 'mzero', 'mid'}


def dn(t):
    return t.decl().name() if z3.is_app(t) else ''


def simp(t):
    return z3.simplify(t)


def ival(t):
    if isinstance(t, int):
        return t
    t = simp(t)
    return t.as_long() if z3.is_int_value(t) else None


def same(a, b):
    if isinstance(a, int):
        a = z3.IntVal(a)
    if isinstance(b, int):
        b = z3.IntVal(b)
    if a.eq(b):
        return True
    d = simp(a - b)
    if z3.is_int_value(d):
        return d.as_long() == 0
    if _ENTAIL[0] is not None:
        return _ENTAIL[0](a, b)
    return False


_ENTAIL = [None]   # hook fn(a,b)->bool : does the current path condition entail a == b ?


# ---------- scalar polynomials: {tuple(sorted atom keys): Fraction}
_satoms = {}


def skey(t):
    k = t.get_id()
    _satoms[k] = t
    return k


_sp_cache = {}


def spoly(t):
    """z3 Real term -> polynomial {monomial(tuple of atom ids): Fraction}"""
    if isinstance(t, (int, float, Fraction)):
        f = Fraction(t)
        return {(): f} if f else {}
    k = t.get_id()
    if k in _sp_cache:
        return _sp_cache[k][1]
    r = _spoly(t)
    _sp_cache[k] = (t, r)
    return r


def _spoly(t):
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        return {(): f} if f else {}
    if z3.is_int_value(t):
        f = Fraction(t.as_long())
        return {(): f} if f else {}
    if z3.is_add(t):
        r = {}
        for c in t.children():
            r = sp_add(r, spoly(c))
        return r
    if z3.is_sub(t):
        cs = t.children()
        r = spoly(cs[0])
        for c in cs[1:]:
            r = sp_add(r, spoly(c), -1)
        return r
    if z3.is_mul(t):
        r = {(): Fraction(1)}
        for c in t.children():
            r = sp_mul(r, spoly(c))
        return r
    if dn(t) == '-' and t.num_args() == 1:
        return sp_add({}, spoly(t.arg(0)), -1)
    if z3.is_div(t):
        d = spoly(t.arg(1))
        n = spoly(t.arg(0))
        return sp_mul(n, sp_inv(d, t.arg(1)))
    if z3.is_to_real(t) and not z3.is_int_value(t.arg(0)):
        a = t.arg(0)
        if z3.is_add(a) or z3.is_mul(a) or z3.is_sub(a):
            return spoly(z3.simplify(z3.ToReal(a))) if not z3.simplify(z3.ToReal(a)).eq(t) else {(skey(t),): Fraction(1)}
    if z3.is_app(t) and dn(t) == 'power' or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_POWER):
        e = t.arg(1)
        if z3.is_rational_value(e) and e.denominator_as_long() == 1 and 0 <= e.numerator_as_long() <= 6:
            r = {(): Fraction(1)}
            for _ in range(e.numerator_as_long()):
                r = sp_mul(r, spoly(t.arg(0)))
            return r
    if dn(t) == 'rinv':
        p = spoly(t.arg(0))
        if len(p) == 1 and (1 not in p.values() or len(next(iter(p))) != 1):
            return sp_inv(p)
    return {(skey(t),): Fraction(1)}


F_rinv = z3.Function('rinv', R, R)


def sp_inv(p, t=None):
    if len(p) == 1:
        (m, c), = p.items()
        if c != 0:
            # inverse of a monomial: product of inverse atoms
            out = {(): 1 / c}
            for a in m:
                at = _satoms[a]
                if dn(at) == 'rinv':
                    out = sp_mul(out, spoly(at.arg(0)))
                else:
                    out = sp_mul(out, {(skey(F_rinv(at)),): Fraction(1)})
            return out
    return {(skey(F_rinv(sp_term(p))),): Fraction(1)}


def sp_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, Fraction(0)) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mono_mul(m1, m2):
    m = list(m1) + list(m2)
    # cancel x * rinv(x)
    changed = True
    while changed:
        changed = False
        for i, a in enumerate(m):
            at = _satoms[a]
            if dn(at) == 'rinv':
                x = at.arg(0).get_id()
                if x in m:
                    m.remove(a)
                    m.remove(x)
                    changed = True
                    break
    return tuple(sorted(m))


def sp_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, Fraction(0)) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def rv(f):
    f = Fraction(f)
    return z3.RealVal(f'{f.numerator}/{f.denominator}') if f.denominator != 1 else z3.RealVal(f.numerator)


def sp_term(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    for m in sorted(p):
        c = p[m]
        fs = [_satoms[a] for a in m]
        if c != 1 or not fs:
            fs = [rv(c)] + fs
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        ts.append(t)
    t = ts[0]
    for x in ts[1:]:
        t = t + x
    return t


def rnorm(t):
    """canonical Real term"""
    return sp_term(spoly(t))


ONE = {(): Fraction(1)}

# ---------- matrix polynomials: {tuple((atom_id, transposed)): scalar poly}
_matoms = {}


def mkey(t):
    k = t.get_id()
    _matoms[k] = t
    return k


_mp_cache = {}


def mpoly(t):
    k = t.get_id()
    if k in _mp_cache:
        return _mp_cache[k][1]
    r = _mpoly(t)
    _mp_cache[k] = (t, r)
    return r


def _mpoly(t):
    n = dn(t)
    if n == 'madd':
        return mp_add(mpoly(t.arg(0)), mpoly(t.arg(1)))
    if n == 'mmul':
        return mp_mul(mpoly(t.arg(0)), mpoly(t.arg(1)))
    if n == 'mscale':
        return mp_scale(mpoly(t.arg(1)), spoly(t.arg(0)))
    if n == 'mT':
        return mp_T(mpoly(t.arg(0)))
    if n == 'mzero':
        return {}
    if n == 'mid':
        return {(): ONE}
    if n == 'mset' and dn(t.arg(0)) == 'mzero' and ival(t.arg(0).arg(1)) == 1 and ival(t.arg(2)) == 0:
        return mp_scale(mpoly(F_sel(simp(t.arg(0).arg(0)), simp(t.arg(1)), z3.IntVal(1))), spoly(t.arg(3)))
    return {((mkey(t), False),): ONE}


def mp_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = sp_add(r.get(m, {}), c, s)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mp_scale(a, s):
    r = {}
    for m, c in a.items():
        v = sp_mul(c, s)
        if v:
            r[m] = v
    return r


def mp_T(a):
    return {tuple((x, (not tr)) if not _issym(x) else (x, False) for x, tr in reversed(m)): c for m, c in a.items()}


def _issym(x):
    return dn(_matoms[x]) == 'mdiag'


def _reduce(fs):
    """rewrite a product (list of factors); returns list, or None for zero"""
    i = 0
    fs = list(fs)
    while i + 1 < len(fs):
        (a, ta), (b, tb) = fs[i], fs[i + 1]
        A, Bm = _matoms[a], _matoms[b]
        na, nb = dn(A), dn(Bm)
        if na == 'msel' and nb == 'msel' and ta and not tb:
            if same(A.arg(1), Bm.arg(1)) and same(A.arg(2), Bm.arg(2)):
                del fs[i:i + 2]
                i = max(0, i - 1)
                continue
            if _disjoint(A, Bm) or _disjoint(Bm, A):
                return None
        if na == 'minv' and not ta:
            p = mpoly(A.arg(0))
            if len(p) == 1 and list(p.items())[0] == (((b, tb),), ONE):
                del fs[i:i + 2]
                i = max(0, i - 1)
                continue
        if nb == 'minv' and not tb:
            p = mpoly(Bm.arg(0))
            if len(p) == 1 and list(p.items())[0] == (((a, ta),), ONE):
                del fs[i:i + 2]
                i = max(0, i - 1)
                continue
        i += 1
    return fs


def _disjoint(A, Bm):
    d = simp(A.arg(1) + A.arg(2) - Bm.arg(1))
    return z3.is_int_value(d) and d.as_long() <= 0


def mp_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _reduce(list(m1) + list(m2))
            if m is None:
                continue
            m = tuple(m)
            v = sp_add(r.get(m, {}), sp_mul(c1, c2))
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def atomT(x, tr):
    t = _matoms[x]
    return F_T(t) if tr else t


def mp_term(p, dims):
    """canonical Mat term of polynomial; dims = (rows, cols) used for zero/identity"""
    if not p:
        return F_zero(*dims)
    ts = []
    for m in sorted(p):
        if m:
            t = atomT(*m[-1])
            for f in reversed(m[:-1]):
                t = F_mul(atomT(*f), t)
        else:
            t = F_id(*dims)
        c = p[m]
        if c != ONE:
            t = F_sc(sp_term(c), t)
        ts.append(t)
    t = ts[-1]
    for x in reversed(ts[:-1]):
        t = F_add(x, t)
    return t


# ---------- dimensions
def rows(t):
    return dims(t)[0]


def cols(t):
    return dims(t)[1]


_dims_cache = {}
SIMPDIM = {}


def dims(t):
    k = t.get_id()
    if k in _dims_cache:
        return _dims_cache[k][1]
    d = _dims(t)
    d = (simp(d[0]), simp(d[1]))
    _dims_cache[k] = (t, d)
    return d


KNOWN_DIMS = []   # hooks: fn(term) -> (r,c) or None


_decl_dims = {}


def reg_dims(t, r, c):
    """register the dimensions of an uninterpreted Mat term, as a template over its arguments"""
    fix = lambda v: None if v is None else (z3.IntVal(v) if isinstance(v, int) else simp(v))
    _decl_dims[t.decl().name()] = (t.children(), fix(r), fix(c))
    _dims_cache.pop(t.get_id(), None)


def has_dims(t):
    return t.decl().name() in _decl_dims


def _tmpl(t):
    d = _decl_dims.get(t.decl().name())
    if d is None:
        return None
    args, r, c = d
    out = []
    for v, F in ((r, F_rows), (c, F_cols)):
        if v is None:
            out.append(F(t))
        elif args and any(not a.eq(b) for a, b in zip(args, t.children())):
            out.append(z3.substitute(v, *[(a, b) for a, b in zip(args, t.children())]))
        else:
            out.append(v)
    return tuple(out)


def const11(v):
    """a 1x1 matrix holding scalar v"""
    return mk(1, 1, lambda i, j: v)


def _dims(t):
    n = dn(t)
    if n == 'madd':
        return dims(t.arg(0))
    if n == 'mmul':
        return (dims(t.arg(0))[0], dims(t.arg(1))[1])
    if n == 'mscale':
        return dims(t.arg(1))
    if n == 'mT':
        r, c = dims(t.arg(0))
        return (c, r)
    if n in ('mzero', 'mid'):
        return (t.arg(0), t.arg(1))
    if n == 'minv':
        return dims(t.arg(0))
    if n == 'msel':
        return (t.arg(0), t.arg(2))
    if n == 'mk':
        return (t.arg(0), t.arg(1))
    if n == 'mdiag':
        r = dims(t.arg(0))[0]
        return (r, r)
    if n == 'if':
        return dims(t.arg(1)) if dn(t.arg(1)) not in ('mzero',) else dims(t.arg(2))
    if n == 'mset':
        return dims(t.arg(0))
    d = _tmpl(t)
    if d is not None:
        return d
    for h in KNOWN_DIMS:
        d = h(t)
        if d is not None:
            r, c = d
            return (z3.IntVal(r) if isinstance(r, int) else r if r is not None else F_rows(t),
                    z3.IntVal(c) if isinstance(c, int) else c if c is not None else F_cols(t))
    return (F_rows(t), F_cols(t))


# ---------- constructors (canonicalising)
def add(a, b):
    p = mp_add(mpoly(a), mpoly(b))
    return mp_term(p, dims(a))


def sub(a, b):
    return mp_term(mp_add(mpoly(a), mpoly(b), -1), dims(a))


def neg(a):
    return mp_term(mp_add({}, mpoly(a), -1), dims(a))


def mul(a, b):
    return mp_term(mp_mul(mpoly(a), mpoly(b)), (dims(a)[0], dims(b)[1]))


def scale(s, a):
    return mp_term(mp_scale(mpoly(a), spoly(s)), dims(a))


def div(a, s):
    return mp_term(mp_scale(mpoly(a), sp_inv(spoly(s))), dims(a))


def T(a):
    r, c = dims(a)
    return mp_term(mp_T(mpoly(a)), (c, r))


def zero(r, c):
    return F_zero(_i(r), _i(c))


def _i(x):
    return z3.IntVal(x) if isinstance(x, int) else simp(x)


def ident(r, c):
    r, c = _i(r), _i(c)
    if same(r, c):
        return F_id(r, c)
    # rectangular identity: r x c with r <= c  = msel(c,0,r)^T ; r >= c = msel(r,0,c)
    d = simp(c - r)
    if z3.is_int_value(d) and d.as_long() < 0:
        return F_sel(r, z3.IntVal(0), c)
    return T(F_sel(c, z3.IntVal(0), r))


def sel(total, off, ln):
    return F_sel(_i(total), _i(off), _i(ln))


def inv(a):
    return F_inv(a)


def block(M, i0, j0, r, c):
    R0, C0 = dims(M)
    i0, j0, r, c = _i(i0), _i(j0), _i(r), _i(c)
    t = M
    if dn(t) == 'mk' or dn(t) == 'if':
        pass
    if not (same(r, R0) and same(i0, 0)):
        t = mul(T(sel(R0, i0, r)), t)
    if not (same(c, C0) and same(j0, 0)):
        t = mul(t, sel(C0, j0, c))
    return t


def setblock(M, i0, j0, r, c, V):
    """M with block (i0,j0,r,c) replaced by V.  Only full-row or full-column blocks and corner blocks are supported."""
    R0, C0 = dims(M)
    i0, j0, r, c = _i(i0), _i(j0), _i(r), _i(c)
    Er = None if (same(r, R0) and same(i0, 0)) else sel(R0, i0, r)
    Ec = None if (same(c, C0) and same(j0, 0)) else sel(C0, j0, c)
    # M' = M - Er Er' M Ec Ec' + Er V Ec'
    old, new = M, V
    if Er is not None:
        old = mul(Er, mul(T(Er), old))
        new = mul(Er, new)
    if Ec is not None:
        old = mul(mul(old, Ec), T(Ec))
        new = mul(new, T(Ec))
    return add(sub(M, old), new)


def scalar11(a):
    """scalar value of a 1x1 matrix expression (linear, invariant under transposition)"""
    p = mpoly(a)
    out = {}
    for m, c in p.items():
        if not m:
            out = sp_add(out, c)
            continue
        mt = tuple((x, (not tr)) if not _issym(x) else (x, False) for x, tr in reversed(m))
        mm = min(m, mt)
        t = mp_term({mm: ONE}, (z3.IntVal(1), z3.IntVal(1)))
        out = sp_add(out, sp_mul(c, {(skey(F_11(t)),): Fraction(1)}))
    return sp_term(out)


def dot(a, b):
    return scalar11(mul(T(a), b))


_depth = [0]


def lam1(fn):
    """Lambda over one Int; bound names are unique per nesting depth so nested lambdas never capture"""
    i = z3.Int('_l%d' % _depth[0])
    _depth[0] += 1
    try:
        body = fn(i)
        body = simp(body)
    finally:
        _depth[0] -= 1
    return z3.Lambda([i], body)


def mk(r, c, fn):
    i, j = z3.Int('_i%d' % _depth[0]), z3.Int('_j%d' % _depth[0])
    _depth[0] += 1
    try:
        body = simp(fn(i, j))
    finally:
        _depth[0] -= 1
    return F_mk(_i(r), _i(c), z3.Lambda([i, j], body))


def elem(M, i, j=0):
    i, j = _i(i), _i(j)
    n = dn(M)
    if n == 'mk':
        return simp(z3.Select(M.arg(2), i, j))
    if n == 'if':
        return z3.If(M.arg(0), elem(M.arg(1), i, j), elem(M.arg(2), i, j))
    if n == 'mset':
        hit = simp(z3.And(i == M.arg(1), j == M.arg(2)))
        if z3.is_true(hit):
            return M.arg(3)
        if z3.is_false(hit):
            return elem(M.arg(0), i, j)
        return z3.If(hit, M.arg(3), elem(M.arg(0), i, j))
    p = mpoly(M)
    tot = {}
    for m, c in p.items():
        tot = sp_add(tot, sp_mul(c, spoly(_elem_mono(m, i, j, dims(M)))))
    return sp_term(tot)


def _elem_mono(m, i, j, d):
    if not m:
        return z3.RealVal(1) if same(i, j) else z3.If(i == j, z3.RealVal(1), z3.RealVal(0))
    if len(m) >= 2 and ival(d[0]) == 1 and ival(d[1]) == 1 and ival(i) == 0 and ival(j) == 0:
        return scalar11(mp_term({m: ONE}, d))
    x, tr = m[0]
    A = _matoms[x]
    if dn(A) == 'mdiag' and len(m) >= 1:
        if len(m) == 1:
            return z3.If(i == j, elem(A.arg(0), i, 0), z3.RealVal(0))
        return elem(A.arg(0), i, 0) * elem(mp_term({m[1:]: ONE}, d), i, j)
    if dn(A) == 'msel':
        if tr:   # E^T X : row i -> row off+i of X
            if len(m) == 1:
                return z3.If(A.arg(1) + i == j, z3.RealVal(1), z3.RealVal(0))
            return elem(mp_term({m[1:]: ONE}, d), simp(A.arg(1) + i), j)
        if not tr and len(m) == 1:
            return z3.If(i == A.arg(1) + j, z3.RealVal(1), z3.RealVal(0))
        if not tr:
            return z3.If(z3.And(i >= A.arg(1), i < A.arg(1) + A.arg(2)),
                         elem(mp_term({m[1:]: ONE}, d), simp(i - A.arg(1)), j), z3.RealVal(0))
    x2, tr2 = m[-1]
    A2 = _matoms[x2]
    if dn(A2) == 'msel' and len(m) > 1:
        if not tr2:
            return elem(mp_term({m[:-1]: ONE}, d), i, simp(A2.arg(1) + j))
        return z3.If(z3.And(j >= A2.arg(1), j < A2.arg(1) + A2.arg(2)),
                     elem(mp_term({m[:-1]: ONE}, d), i, simp(j - A2.arg(1))), z3.RealVal(0))
    if len(m) == 1:
        if tr:
            i, j = j, i
        if dn(A) in ('mk', 'if', 'mset'):
            return elem(A, i, j)
        return F_elem(A, i, j)
    return F_elem(mp_term({m: ONE}, d), i, j)


F_set = z3.Function('mset', Mat, I, I, R, Mat)


def setelem(M, i, j, v):
    i, j = _i(i), _i(j)
    return F_set(M, i, j, v)


def ew(fn, *Ms):
    r, c = dims(Ms[0])
    return mk(r, c, lambda i, j: fn(*[elem(M, i, j) for M in Ms]))


def zmax(a, b):
    return z3.If(a < b, b, a)


def zmin(a, b):
    return z3.If(b < a, b, a)


def fold_sum(lo, hi, fn):
    return FSUM(_i(lo), _i(hi), lam1(fn))


def fold_max(lo, hi, fn):
    a, b = ival(_i(lo)), ival(_i(hi))
    if a is not None and b is not None and 0 < b - a <= 8:
        r = fn(z3.IntVal(a))
        for i in range(a + 1, b):
            r = zmax(r, fn(z3.IntVal(i)))
        return r
    return FMAX(_i(lo), _i(hi), lam1(fn))


def vsum(M):
    if dn(M) in ('mzero',):
        return z3.RealVal(0)
    return fold_sum(0, size(M), lambda i: elem(M, i, 0))


def size(M):
    r, c = dims(M)
    if ival(c) == 1:
        return r
    if ival(r) == 1:
        return c
    return r * c


def vmax(M):
    return fold_max(0, size(M), lambda i: elem(M, i, 0))


def zabs(x):
    return z3.If(x >= 0, x, -x)


def linf(M):
    return fold_max(0, size(M), lambda i: zabs(elem(M, i, 0)))


def sqnorm(M):
    """squared norm of a vector"""
    if has_lam(M):
        return fold_sum(0, size(M), lambda i: elem(M, i, 0) * elem(M, i, 0))
    return dot(M, M)


def has_lam(M):
    return any(dn(_matoms[x]) in ('mk', 'mset') for m in mpoly(M) for x, _ in m)


# ---------- rebuilding after substitution
_canon_cache = {}


def canon(t):
    """rebuild a term bottom-up through the canonicalising constructors (needed after substitution)"""
    k = t.get_id()
    c = _canon_cache.get(k)
    if c is not None:
        return c[1]
    r = _canon(t)
    _canon_cache[k] = (t, r)
    return r


_cm_cache = {}


def canon_mats(t):
    """canonical matrix subterms, scalar structure left as it is"""
    k = t.get_id()
    c = _cm_cache.get(k)
    if c is not None:
        return c[1]
    if t.sort() == Mat:
        r = canon(t)
    elif not z3.is_app(t) or t.num_args() == 0:
        r = t
    else:
        ch = [canon_mats(c) for c in t.children()]
        r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
    _cm_cache[k] = (t, r)
    return r


_ARITH = {z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER}


def _canon(t):
    if not z3.is_app(t) or t.num_args() == 0:
        return t
    n = dn(t)
    ch = [canon(c) for c in t.children()]
    if t.sort() == Mat:
        if n == 'madd':
            return add(ch[0], ch[1])
        if n == 'mmul':
            return mul(ch[0], ch[1])
        if n == 'mscale':
            return scale(ch[0], ch[1])
        if n == 'mT':
            return T(ch[0])
    if n == 'm11':
        return scalar11(ch[0])
    if n == 'melem':
        return elem(*ch)
    if t.sort() == R and t.decl().kind() in _ARITH:
        return rnorm(t.decl()(*ch))
    if all(a.eq(b) for a, b in zip(ch, t.children())):
        return t
    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED or t.sort() == Mat:
        return t.decl()(*ch)
    return z3.simplify(t.decl()(*ch))


def diagonal(A):
    """the diagonal of a square matrix as a column"""
    return mk(dims(A)[0], z3.IntVal(1), lambda i, j: elem(A, i, i))


def set_diagonal(A, v):
    """A with its diagonal replaced by the column v"""
    r, c = dims(A)
    i = z3.Int('_diag')
    d = sp_term(sp_add(spoly(elem(v, i, z3.IntVal(0))), spoly(elem(A, i, i)), -1))
    from .loops import contains
    if not contains(d, lambda x: x.eq(i)):
        return add(A, scale(d, ident(r, r)))
    return mk(r, c, lambda p, q: z3.If(p == q, elem(v, p, z3.IntVal(0)), elem(A, p, q)))


def subst(t, pairs):
    """z3.substitute followed by re-canonicalisation"""
    r = z3.substitute(t, *pairs)
    if r.eq(t):
        return t
    return canon(r)


def clear_path_caches():
    """results that may depend on the current path condition"""
    _sp_cache.clear()
    _mp_cache.clear()
    _canon_cache.clear()
    _cm_cache.clear()


def reset():
    clear_path_caches()
    _dims_cache.clear()
    _decl_dims.clear()
