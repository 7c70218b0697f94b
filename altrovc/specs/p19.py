"""P19: the task queue is first-in first-out and its size is truthful.
The queue is a linked list; the representation invariant names its nodes by a ghost sequence and every method is proved to
preserve it and to have the effect of the abstract operation on the sequence of values."""
from .common import *

ASSUME = ['one thread at a time uses the queue: no mutex is held when a method is entered',
          'allocation does not fail; the nodes of a list are owned by that list alone']
TRUST = ['std::unique_ptr, std::shared_ptr, std::atomic, std::mutex and std::lock_guard behave as documented']
TQ = 'altro::ThreadSafeQueue<'


class Queue:
    """a queue object whose list is node(0), ..., node(len)"""

    def __init__(self, Q, X, name):
        self.Q, self.X, self.name = Q, X, name
        self.node = z3.Function(name + 'node', I, I)
        self.own = z3.Function(name + 'pos', I, I)
        self.val = z3.Function(name + 'val', I, I)       # address of the i-th element
        self.vpos = z3.Function(name + 'vpos', I, I)     # every element has an address of its own
        X.sequences.add(name + 'node')
        X.injective[name + 'node'] = (0, self.own)
        self.len = z3.Int(name + 'len')

    def at(self, i):
        return self.X.seq_term(self.node, z3.simplify(i) if is_z(i) else z3.IntVal(i))

    def make(self):
        X, Q = self.X, self.Q
        ref = z3.Int(self.name)
        X.assume(z3.And(ref > 0, F_kind(ref) <= 0, self.len >= 0))
        X.dyn[ref.get_id()] = (ref, Q.cls)
        self.this = LV('H:' + Q.cls, (ref,), Q.cls)
        X.store(self.f(Q.head), self.at(0))
        X.store(self.f(Q.tail), self.at(self.len))
        ms = []
        for m in Q.mutexes:
            p = z3.Int(self.name + m[0])
            X.assume(z3.And(p > 0, F_kind(p) <= 0))
            X.store(self.f(m), p)
            lk = self.locked(p)
            X.assume(z3.Not(X.load(lk)))
            ms.append(p)
        if len(ms) > 1:
            X.assume(z3.Distinct(*ms))
        self.mutex = ms
        p = z3.Int(self.name + 'size')
        X.assume(z3.And(p > 0, F_kind(p) <= 0))
        X.store(self.f(Q.size), p)
        sz = X.deref(p, Q.sizet)
        X.store(sz, self.len)
        self.sz = sz
        for c in Q.others:
            p = z3.Int(self.name + c[0])
            X.assume(z3.And(p > 0, F_kind(p) <= 0))
            X.store(self.f(c), p)
        return self.this

    def f(self, fd):
        return self.X.field(self.this, fd[0], fd[1], self.Q.cls)

    def locked(self, p):
        return LV('G:locked', (p,), 'bool')


class Shape:
    """the fields of the queue and of its nodes, found by their types"""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.ncls = cls + '::Node'
        if self.ncls not in prog.recs:
            ns = {targs(strip(f['t']))[0] for f in prog.recs[cls]['fields'] if strip(f['t']).startswith('std::unique_ptr<altro::')}
            if len(ns) != 1:
                raise Unsupported('node type of ' + cls)
            self.ncls = strip(ns.pop())
        self.mutexes, self.others = [], []
        self.head = self.tail = self.size = None
        for f in prog.recs[cls]['fields']:
            t = strip(f['t'])
            fd = (f['n'], t)
            a = strip(targs(t)[0]) if t.startswith('std::unique_ptr<') else t
            if a == self.ncls:
                self.head = fd
            elif t == self.ncls + ' *':
                self.tail = fd
            elif a == 'std::mutex':
                self.mutexes.append(fd)
            elif a.startswith('std::atomic'):
                self.size, self.sizet = fd, a
            elif t.startswith('std::unique_ptr<'):
                self.others.append(fd)
            else:
                raise Unsupported(f'field {f["n"]} of the queue')
        self.data = self.next = None
        for f in prog.recs[self.ncls]['fields']:
            t = strip(f['t'])
            if t.startswith('std::shared_ptr<'):
                self.data = (f['n'], t)
                self.elem = strip(targs(t)[0])
            elif self.ncls in t:
                self.next = (f['n'], t)
        if None in (self.head, self.tail, self.size, self.data, self.next):
            raise Unsupported('members of the queue')

    def interp(self, names=('q',)):
        X = new_interp(self.prog)
        qs = [Queue(self, X, n) for n in names]
        knext = X.field(LV('H:' + self.ncls, (), self.ncls), self.next[0], self.next[1], self.ncls).key
        kdata = X.field(LV('H:' + self.ncls, (), self.ncls), self.data[0], self.data[1], self.ncls).key

        def alias(X, key, idx, kind):
            if key not in (knext, kdata) or len(idx) != 1 or not z3.is_app(idx[0]):
                return None
            for q in qs:
                if idx[0].decl().eq(q.node):
                    i = idx[0].arg(0)
                    if key == knext:
                        e = z3.simplify(i == q.len)
                        if z3.is_true(e):
                            return z3.IntVal(0)
                        n = q.at(i + 1)
                        return n if z3.is_false(e) or (X.nofork == 0 and X.implied(z3.Not(e))) else z3.If(e, z3.IntVal(0), n)
                    d = q.val(i)
                    if X.nofork == 0 and ('seq', d.get_id()) not in X.kinded:
                        X.kinded.add(('seq', d.get_id()))
                        X.assume(z3.And(F_kind(d) <= 0, d >= 0, q.vpos(d) == i, z3.Implies(z3.And(i >= 0, i < q.len), d > 0)))
                    return d
            return None
        X.base_alias.append(alias)
        return X, qs

    def nodelv(self, p):
        return p.lv if isinstance(p, PtrVal) else LV('H:' + self.ncls, (p,), self.ncls)

    def nodef(self, X, p, fd):
        return X.load(X.field(self.nodelv(p), fd[0], fd[1], self.ncls))

    def value(self, X, i_val):
        """the element stored at an address"""
        p = i_val
        lv = p.lv if isinstance(p, PtrVal) else LV('H:' + self.elem, (p,), self.elem)
        return X.load(lv)


def ptr_is(c, what, got, want):
    g, w = [p.lv.idx[0] if isinstance(p, PtrVal) else p for p in (got, want)]
    c.eq(what, g, w)


def holds_list(c, Q, q, this, seq, n, vals, what=''):
    """this queue is the list seq(0..n) with values vals(0..n-1) and its size is n"""
    X = c.X
    fl = lambda fd: X.load(X.field(this, fd[0], fd[1], Q.cls))
    ptr_is(c, what + 'head is the first node', fl(Q.head), seq(z3.IntVal(0)))
    ptr_is(c, what + 'tail is the last node', fl(Q.tail), seq(n))
    sp = fl(Q.size)
    lv = sp.lv if isinstance(sp, PtrVal) else X.deref(sp, Q.sizet)
    c.eq(what + 'size is the number of elements', X.load(LV(lv.key, lv.idx, Q.sizet)), n)
    ms = []
    for m in Q.mutexes:
        p = fl(m)
        p = p.lv.idx[0] if isinstance(p, PtrVal) else p
        ms.append(p)
        c.holds(what + 'mutexes exist and are free', z3.And(p != 0, z3.Not(X.load(q.locked(p) if q else LV('G:locked', (p,), 'bool')))))
    if len(ms) > 1:
        c.holds(what + 'mutexes are distinct', z3.Distinct(*ms))
    last = Q.nodef(X, seq(n), Q.next)
    ptr_is(c, what + 'nothing follows the last node', last, z3.IntVal(0))
    for fd in Q.others:
        p = fl(fd)
        c.holds(what + 'members are set', z3.BoolVal(True) if isinstance(p, PtrVal) else p != 0)
    i = X.fresh('el', I)
    if X.choose(n > 0):
        X.assume(z3.And(i >= 0, i < n))
        X.instantiate(i)
        nd = seq(i)
        ptr_is(c, what + 'nodes are linked in order', Q.nodef(X, nd, Q.next), seq(z3.simplify(i + 1)))
        d = Q.nodef(X, nd, Q.data)
        c.holds(what + 'every element has a value', z3.BoolVal(True) if isinstance(d, PtrVal) else d != 0)
        c.eq(what + 'elements are in order', Q.value(X, d), vals(i))


def run_for(job, cls):
    prog = job.prog
    Q = Shape(prog, cls)
    nm = 'ThreadSafeQueue'
    scalar = lambda X: X.T.kind(Q.elem) in ('int', 'real', 'bool')

    def m(fn, pred=lambda f: True):
        c = [f for f in prog.by_cls.get(cls, []) if f['fn'] == fn and f.get('body') is not None and pred(f)]
        if len(c) != 1:
            raise Unsupported(f'{fn}: {len(c)} candidates')
        return c[0]

    def oldval(X, q, i):
        return X.load(LV('H:' + Q.elem, (q.val(i),), Q.elem))

    # constructor
    X, _ = Q.interp(())
    ctor = [f for f in prog.by_cls[cls] if f['kind'] == 'CXXConstructor' and not f['params'] and f.get('body') is not None]
    if len(ctor) != 1:
        raise Unsupported('default constructor')

    def s0(X):
        ref = z3.Int('q')
        X.assume(ref > 0)
        X.dyn[ref.get_id()] = (ref, cls)
        return LV('H:' + cls, (ref,), cls), []

    def p0(c):
        h = c.X.load(c.X.field(c.this, Q.head[0], Q.head[1], cls))
        if not isinstance(h, PtrVal):
            return c.holds('head exists', h != 0)
        holds_list(c, Q, None, c.this, lambda i: h, z3.IntVal(0), None)
    verify(job, X, ctor[0], s0, p0, nm + '::ThreadSafeQueue()')

    # observers
    for fn, want in (('IsEmpty', lambda q: q.len == 0), ('Size', lambda q: q.len)):
        X, (q,) = Q.interp()

        def post(c, want=want, q=q, fn=fn):
            c.eq('tells the number of elements' if fn == 'Size' else 'true exactly when there are none', c.ret, want(q))
            c.frame()
        verify(job, X, m(fn), lambda X, q=q: (q.make(), []), post, f'{nm}::{fn}')

    # push
    X, (q,) = Q.interp()

    def sp(X, q=q):
        this = q.make()
        a = X.temp(Q.elem)
        X.store(a, z3.Const('pushed', SORT[X.T.kind(Q.elem)]))
        return this, [a]

    def pp(c, q=q):
        X = c.X
        tail = X.load(X.field(c.this, Q.tail[0], Q.tail[1], cls))
        old = c.old(lambda: [X.load(LV('H:' + Q.elem, (q.val(z3.Int('pk')),), Q.elem))])

        def seq(i):
            e = z3.simplify(i == q.len + 1)
            if z3.is_true(e) or X.implied(e):
                return tail
            if X.implied(z3.Not(e)):
                return q.at(i)
            return tail if X.choose(e) else q.at(i)

        def vals(i):
            if X.choose(i == q.len):
                return z3.Const('pushed', SORT[X.T.kind(Q.elem)])
            return c.old(lambda: oldval(X, q, i))
        c.holds('the new last node is a new one', z3.BoolVal(isinstance(tail, PtrVal)) if not is_z(tail) else tail != q.at(q.len))
        holds_list(c, Q, q, c.this, seq, z3.simplify(q.len + 1), vals)
    verify(job, X, m('Push'), sp, pp, nm + '::Push')

    # pop
    X, (q,) = Q.interp()

    def st(X, q=q):
        this = q.make()
        a = X.temp(Q.elem)
        X.store(a, z3.Const('given', SORT[X.T.kind(Q.elem)]))
        return this, [a]

    def pt(c, q=q):
        X = c.X
        if X.choose(q.len == 0):
            c.holds('reports that there is nothing to take', z3.Not(c.ret))
            c.eq('the argument keeps its value', X.load(c.vals[0]), z3.Const('given', SORT[X.T.kind(Q.elem)]))
            c.frame()
            return
        c.holds('reports that an element was taken', c.ret)
        c.eq('takes the oldest element', X.load(c.vals[0]), c.old(lambda: oldval(X, q, z3.IntVal(0))))
        ptr_is(c, 'the node taken no longer owns the rest', Q.nodef(X, q.at(0), Q.next), z3.IntVal(0))
        holds_list(c, Q, q, c.this, lambda i: q.at(i + 1), z3.simplify(q.len - 1), lambda i: c.old(lambda: oldval(X, q, z3.simplify(i + 1))))
    verify(job, X, m('TryPop'), st, pt, nm + '::TryPop')

    # clear
    X, (q,) = Q.interp()

    def pc(c, q=q):
        X = c.X
        X.instantiate(q.len - 1)
        holds_list(c, Q, q, c.this, lambda i: q.at(q.len), z3.IntVal(0), None)
    verify(job, X, m('Clear'), lambda X, q=q: (q.make(), []), pc, nm + '::Clear')

    # moves
    X, (q,) = Q.interp()
    mv = [f for f in prog.by_cls[cls] if f['kind'] == 'CXXConstructor' and len(f['params']) == 1 and f.get('body') is not None
          and f['params'][0]['t'].rstrip().endswith('&&')]
    if len(mv) != 1:
        raise Unsupported('move constructor')

    def smc(X, q=q):
        o = q.make()
        ref = z3.Int('new')
        X.assume(z3.And(ref > 0, ref != o.idx[0]))
        X.dyn[ref.get_id()] = (ref, cls)
        return LV('H:' + cls, (ref,), cls), [LV(o.key, o.idx, o.typ, xv=True)]

    def pmc(c, q=q):
        X = c.X
        holds_list(c, Q, q, c.this, lambda i: q.at(i), q.len, lambda i: c.old(lambda: oldval(X, q, i)))
        given_up(c, q)

    def given_up(c, q):
        h = c.X.load(q.f(Q.head))
        ptr_is(c, 'the source no longer owns the nodes', h, z3.IntVal(0))
    verify(job, X, mv[0], smc, pmc, nm + '::ThreadSafeQueue(&&)')

    X, (q, r) = Q.interp(('q', 'r'))

    def sma(X, q=q, r=r):
        X.assume(z3.Int(q.name) != z3.Int(r.name))
        a, b = q.make(), r.make()
        X.assume(z3.Distinct(*q.mutex, *r.mutex))
        X.assume(q.sz.idx[0] != r.sz.idx[0])
        return a, [LV(b.key, b.idx, b.typ, xv=True)]

    def pma(c, q=q, r=r):
        X = c.X
        X.instantiate(q.len - 1)
        holds_list(c, Q, r, c.this, lambda i: r.at(i), r.len, lambda i: c.old(lambda: oldval(X, r, i)))
        given_up(c, r)
    verify(job, X, m('operator=', lambda f: f['params'][0]['t'].rstrip().endswith('&&')), sma, pma, nm + '::operator=(&&)')


def run(job):
    run_for(job, TQ + 'int>')


if __name__ == '__main__':
    from ._main import main
    main('P19', run)
