"""P13: task division covers every knot point exactly once."""
from .ilqrlib import *
from .ilqrlib import ASSUME as _A
from .p16 import block, kpf_state

ASSUME = _A + ['the thread pool runs every task that was added exactly once before Wait returns (the contract of the pool, P21)',
               'double arithmetic in DefaultTaskAssignment is real arithmetic followed by a rounding which is monotone, exact on integers and has relative error at most 2^-53 (IEEE round to nearest; no overflow or underflow with int operands)',
               'at least one thread and one task per thread']
INT_MAX = 2**31 - 1


def run(job):
    sz = '-1, -1'
    custom(job, sz)
    default(job, sz)
    getter(job, sz)
    launch(job, sz)
    expansions(job, sz)
    for s in sizes(job):
        block(job, s)
    partition(job)


def inds(S):
    X, this = S.X, S.this
    return one_field(X, this, lambda f: strip(f['t']).startswith('std::vector<int'), 'block boundaries')


def custom_flag(X, this):
    fs = fields(X.prog, strip(this.typ), lambda f: strip(f['t']) == 'bool' and 'custom' in f['n'])
    if len(fs) != 1:
        raise Unsupported('custom division flag')
    return X.fieldof(this, fs[0]['n'])


def ln(X, v):
    return X.load(v.sub('.#', 'int'))


def el(X, v, i):
    return X.load(v.sub('[]', 'int', i))


def threads(X):
    nt = z3.Int('nthreads')
    X.assume(nt >= 1)
    X.contracts['altro::SolverOptions::NumThreads'] = [(lambda f: True, lambda X, this, vals, f: nt)]
    return nt


def weakly_increasing(c, what, v, n):
    """consecutive boundaries are ordered"""
    X = c.X
    i = X.fresh('i', I)
    X.assume(z3.And(i >= 0, i + 1 < n))
    X.instantiate(i, i + 1)
    c.holds(what, el(X, v, i) <= el(X, v, i + 1))


def custom(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    f = prog.fn(cls + '::SetTaskAssignment')
    threads(X)
    LT = strip(f['params'][0]['t'])
    n = z3.Int('count')

    def setup(X):
        this = S.make()
        arg = LV('H:given', (z3.Int('given'),), LT)
        X.aliastab[arg.key + '.#'] = lambda X, idx: n
        X.assume(n >= 0)
        return this, [arg]

    def post(c):
        arg = c.vals[0]
        g = lambda i: c.old(lambda: el(X, arg, i))
        c.holds('at least one block', n >= 2)
        c.eq('starts at knot point 0', g(z3.IntVal(0)), z3.IntVal(0))
        c.eq('ends one past the terminal knot point', g(n - 1), S.N + 1)
        i = X.fresh('i', I)
        X.assume(z3.And(i >= 0, i + 1 < n))
        X.instantiate(i, i + 1)
        c.holds('strictly increasing', g(i) < g(i + 1))
        w = inds(S)
        c.eq('division kept: number', ln(X, w), n)
        c.eq('division kept: boundaries', el(X, w, i), g(i))
        c.eq('division kept: last', el(X, w, n - 1), g(n - 1))
        r = call(X, cls, 'ShouldRedoTaskAssignment', S.this)
        c.holds('and is not replaced by the default', z3.Not(r))

    def rejected(c, a):
        arg = c.vals[0]
        q = z3.Int('q!')
        X.nofork += 1
        try:
            g = lambda i: el(X, LV(arg.key, arg.idx, arg.typ), i)
            valid = z3.And(n >= 2, c.old(lambda: g(z3.IntVal(0))) == 0, c.old(lambda: g(n - 1)) == S.N + 1,
                           z3.ForAll([q], z3.Implies(z3.And(q >= 0, q + 1 < n), c.old(lambda: g(q)) < c.old(lambda: g(q + 1)))))
        finally:
            X.nofork -= 1
        c.holds('rejected only when not a division', z3.Not(valid))
    verify(job, X, f, setup, post, 'SetTaskAssignment', on_abort=rejected)


def default(job, sz):
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)

    def setup(X):
        this = S.make()
        nt = threads(X)
        tp = S.opt('tasks_per_thread')
        X.assume(tp >= 1)
        X.assume(nt * tp >= 1)
        X.assume(nt * tp <= INT_MAX)
        X.assume(S.N < INT_MAX)
        X.rounding = True
        return this, []

    def post(c):
        nt = z3.Int('nthreads')
        w = inds(S)
        n = ln(X, w)
        c.eq('one block per task', n, nt * c.old(lambda: S.opt('tasks_per_thread')) + 1)
        c.eq('starts at knot point 0', el(X, w, z3.IntVal(0)), z3.IntVal(0))
        c.eq('ends one past the terminal knot point', el(X, w, n - 1), S.N + 1)
        weakly_increasing(c, 'blocks are ordered and do not overlap', w, n)
    verify(job, X, prog.fn(cls + '::DefaultTaskAssignment'), setup, post, 'DefaultTaskAssignment')


# ghost: what a division is, as a predicate over the block boundary list of one solver
GV = LV('G:valid', (), 'bool')


def default_contract(X, S):
    """DefaultTaskAssignment by contract (proved above): the boundaries become the default division"""
    def fn(X, this, vals, f):
        nt = z3.Int('nthreads')
        w = inds(S)
        X.store(w.sub('.#', 'int'), nt * S.opt('tasks_per_thread') + 1)
        D = z3.Function('default_boundary', I, I)
        key = w.key + '[]'
        prev = X.fmap(key, 'int')
        r = Fn(prev, lambda q: q[0] == S.this.idx[0], lambda q: D(q[1]), 'default')
        r.nidx = 2
        X.mem[key] = r
        X.store(GV, z3.BoolVal(True))
    X.contracts[S.cls + '::DefaultTaskAssignment'] = [(lambda f: True, fn)]


def getter(job, sz):
    """the division in use is a valid one: the custom one if set, else the default for the current options"""
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    default_contract(X, S)

    def setup(X):
        this = S.make()
        nt = threads(X)
        tp = S.opt('tasks_per_thread')
        X.assume(z3.And(tp >= 1, nt * tp >= 1))
        # representation invariant: a custom division is valid; any list of the default length was made by DefaultTaskAssignment
        v0 = z3.Bool('valid0')
        X.store(GV, v0)
        cf = X.load(custom_flag(X, this))
        X.assume(z3.Implies(z3.Or(cf, ln(X, inds(S)) == nt * tp + 1), v0))
        return this, []

    def post(c):
        nt = z3.Int('nthreads')
        w = inds(S)
        c.holds('the division returned is valid', X.load(GV))
        cf = c.old(lambda: X.load(custom_flag(X, S.this)))
        tp = c.old(lambda: S.opt('tasks_per_thread'))
        n0 = c.old(lambda: ln(X, w))
        i = X.fresh('i', I)
        X.assume(z3.And(i >= 0, i < n0))
        c.holds('a custom division is kept: number', z3.Implies(cf, ln(X, w) == n0))
        c.holds('a custom division is kept: boundaries', z3.Implies(cf, el(X, w, i) == c.old(lambda: el(X, w, i))))
        c.holds('a default division has one block per requested task', z3.Implies(z3.Not(cf), ln(X, w) == nt * tp + 1))
        same = isinstance(c.ret, LV) and c.ret.key == w.key
        c.holds('the division in use is returned', z3.BoolVal(same))
    verify(job, X, prog.fn(cls + '::GetTaskAssignment'), setup, post, 'GetTaskAssignment')


def launch(job, sz):
    """each task updates exactly one block of the division in use; nothing but tasks, division and pool changes"""
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    RUN, START, STOP = [LV('G:' + v, (), 'int') for v in ('pool_started', 'ran_start', 'ran_stop')]
    who = LV('G:ran_on', (), 'int')
    fresh_div = z3.Function('division', I, I)
    nd = z3.Int('division_len')
    size = z3.Int('pool_size')
    running = z3.Bool('pool_running')

    def get(X, this, vals, f):
        w = inds(S)
        X.store(w.sub('.#', 'int'), nd)
        key = w.key + '[]'
        r = Fn(X.fmap(key, 'int'), lambda q: q[0] == S.this.idx[0], lambda q: fresh_div(q[1]), 'division')
        r.nidx = 2
        X.mem[key] = r
        return LV(w.key, w.idx, w.typ)
    X.contracts[cls + '::GetTaskAssignment'] = [(lambda f: True, get)]

    def ran(X, this, vals, f):
        X.store(START, sval_int(X, vals[0]))
        X.store(STOP, sval_int(X, vals[1]))
        X.store(who, this.idx[0])
    X.contracts[cls + '::UpdateExpansionsBlock'] = [(lambda f: True, ran)]
    X.contracts['altro::ThreadPool::NumThreads'] = [(lambda f: True, lambda X, this, vals, f: size)]
    X.contracts['altro::ThreadPool::IsRunning'] = [(lambda f: True, lambda X, this, vals, f: running)]
    X.contracts['altro::ThreadPool::StopThreads'] = [(lambda f: True, lambda X, this, vals, f: X.store(RUN, z3.IntVal(0)))]
    X.contracts['altro::ThreadPool::LaunchThreads'] = [(lambda f: True, lambda X, this, vals, f: X.store(RUN, sval_int(X, vals[0])))]

    def tasks():
        return one_field(X, S.this, lambda f: strip(f['t']).startswith('std::vector<std::function<'), 'task list')

    def setup(X):
        this = S.make()
        threads(X)
        X.assume(z3.And(S.opt('tasks_per_thread') >= 1, nd >= 2, size >= 0))
        return this, []

    def post(c):
        nt = z3.Int('nthreads')
        t = tasks()
        touched = t.key + '[]' in c.changed() or t.key + '.#' in c.changed()
        w = inds(S)
        redo = c.old(lambda: call(X, cls, 'ShouldRedoTaskAssignment', S.this))
        want = z3.And(z3.Or(nt != 1, size != 0), z3.Or(nt != size, redo))
        c.holds('tasks are rebuilt exactly when the threads or the division changed', want if touched else z3.Not(want))
        if touched:
            c.eq('one task per block', ln(X, t), nd - 1)
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < nd - 1))
            fn = X.load(t.sub('[]', X.T.elem(strip(t.typ)), i))
            if not isinstance(fn, Closure):
                raise Unsupported('task is not a closure of this function')
            keep = dict(X.mem)
            X.call_closure(fn, [])
            c.eq('task i runs on this solver', X.load(who), S.this.idx[0])
            c.eq('task i starts at boundary i', X.load(START), fresh_div(i))
            c.eq('task i stops at boundary i + 1', X.load(STOP), fresh_div(i + 1))
            X.mem.clear()
            X.mem.update(keep)
            c.holds('the pool has the requested number of threads', z3.Implies(nt > 1, X.load(RUN) == nt))
        c.frame(ignore=('!',), allow=[w, t, RUN])
    verify(job, X, prog.fn(cls + '::LaunchThreads'), setup, post, 'LaunchThreads')


def sval_int(X, v):
    return X.load(v) if isinstance(v, LV) else v


def expansions(job, sz):
    """one serial pass, or every task exactly once and then a wait"""
    prog, cls = job.prog, ilqr(sz)
    X, S = solver(job, sz)
    size = z3.Int('pool_size')
    ADD = LV('H:pool_added', (z3.Int('pool'),), 'std::vector<int>')
    WAIT, BLK, B0, B1 = [LV('G:' + v, (), 'int') for v in ('waits', 'blocks', 'b0', 'b1')]
    X.contracts['altro::ThreadPool::NumThreads'] = [(lambda f: True, lambda X, this, vals, f: size)]

    def add(X, this, vals, f):
        v = vals[0]
        if not (isinstance(v, LV) and v.idx):
            raise Unsupported('task added to the pool')
        n = X.load(ADD.sub('.#', 'int'))
        X.store(ADD.sub('[]', 'int', n), v.idx[-1])
        X.store(ADD.sub('.#', 'int'), z3.simplify(n + 1))
    X.contracts['altro::ThreadPool::AddTask'] = [(lambda f: True, add)]

    def wait(X, this, vals, f):
        X.store(WAIT, X.load(WAIT) + 1)
        X.store(B1, X.load(ADD.sub('.#', 'int')))
    X.contracts['altro::ThreadPool::Wait'] = [(lambda f: True, wait)]

    def blk(X, this, vals, f):
        X.store(BLK, X.load(BLK) + 1)
        X.store(B0, sval_int(X, vals[0]))
        X.store(B1, sval_int(X, vals[1]))
    X.contracts[cls + '::UpdateExpansionsBlock'] = [(lambda f: True, blk)]

    def setup(X):
        this = S.make()
        X.assume(size >= 0)
        X.store(ADD.sub('.#', 'int'), z3.IntVal(0))
        X.store(WAIT, z3.IntVal(0))
        X.store(BLK, z3.IntVal(0))
        return this, []

    def post(c):
        t = one_field(X, S.this, lambda f: strip(f['t']).startswith('std::vector<std::function<'), 'task list')
        if X.choose(size <= 1):
            c.eq('one serial pass', X.load(BLK), z3.IntVal(1))
            c.eq('from the first knot point', X.load(B0), z3.IntVal(0))
            c.eq('through the terminal one', X.load(B1), S.N + 1)
            c.eq('nothing queued', X.load(ADD.sub('.#', 'int')), z3.IntVal(0))
        else:
            n = ln(X, t)
            c.eq('as many tasks queued as there are', X.load(ADD.sub('.#', 'int')), n)
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < n))
            c.eq('each task queued exactly once, in order', X.load(ADD.sub('[]', 'int', i)), i)
            c.eq('waits once', X.load(WAIT), z3.IntVal(1))
            c.eq('after all were queued', X.load(B1), n)
            c.eq('no serial pass besides', X.load(BLK), z3.IntVal(0))
    verify(job, X, prog.fn(cls + '::UpdateExpansions'), setup, post, 'UpdateExpansions')


def partition(job):
    """lemma: ordered boundaries from 0 to N + 1 put every knot point in exactly one block (induction over the boundaries)"""
    X = new_interp(job.prog)
    P = Prover(X, job)
    w = z3.Function('w', I, I)
    k, i, j, n, N = z3.Ints('k i j n N')
    name = lambda s: 'Lemma partition: ' + s
    inb = lambda a: z3.And(w(a) <= k, k < w(a + 1))
    cov = lambda m, wit: None
    # boundaries are ordered at any distance
    P.prove(name('order, base'), w(i) <= w(i))
    P.prove(name('order, step'), z3.Implies(z3.And(w(i) <= w(j), w(j) <= w(j + 1)), w(i) <= w(j + 1)))
    # disjoint: using order for i + 1 <= j
    P.prove(name('at most one block'), z3.Implies(z3.And(i < j, z3.Implies(i + 1 <= j, w(i + 1) <= w(j)), inb(i)), z3.Not(inb(j))))
    # covered: c(m) = every k in [w(0), w(m)) is in some block below m
    q = z3.Int('q')
    some = lambda m: z3.Exists([q], z3.And(q >= 0, q < m, w(q) <= k, k < w(q + 1)))
    P.prove(name('at least one block, base'), z3.Implies(z3.And(w(0) <= k, k < w(0)), some(z3.IntVal(0))))
    P.prove(name('at least one block, step'),
            z3.Implies(z3.And(j >= 0, z3.Implies(z3.And(w(0) <= k, k < w(j)), some(j)), w(0) <= k, k < w(j + 1)), some(j + 1)))


if __name__ == '__main__':
    from ._main import main
    main('P13', run)
