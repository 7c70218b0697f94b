"""P21: every submitted task runs exactly once before waiting returns.
Thread-modular contracts: every method of the pool and of its queue is proved against what any interleaving with the other threads
can do to the memory it shares (resource invariants of the two mutexes, the running flag may change at any time)."""
from .common import *
from . import p19

ASSUME = ['tasks are submitted, waited for, launched and stopped from one thread at a time (the pool\'s own documentation); workers run concurrently',
          'allocation and the creation of a thread do not fail',
          'composition: a shared object that is only touched under its mutex behaves as its resource invariant says (soundness of lock invariants); no liveness: a worker is scheduled eventually',
          'a task that runs longer than the per-task timeout is given up by Wait, as documented']
TRUST = ['std::packaged_task, std::future, std::thread, std::mutex and std::atomic behave as documented']
HARNESS_FLAGS = ['-fsanitize=thread']
POOL = 'altro::ThreadPool'
TASKQ = 'altro::ThreadSafeQueue<std::packaged_task<void ()>>'
G = lambda n, t='int': LV('G:' + n, (), t)
PENDING, LOOKED, SEEN, TRIED = G('pending'), G('looked', 'bool'), G('seen_running', 'bool'), G('tried', 'bool')


def method(job, cls, fn, pred=lambda f: True):
    c = [f for f in job.prog.by_cls.get(cls, []) if f['fn'] == fn and f.get('body') is not None and pred(f)]
    if len(c) != 1:
        raise Unsupported(f'{cls}::{fn}: {len(c)} candidates')
    return c[0]


class Pool:
    def __init__(self, job):
        self.X = X = new_interp(job.prog)
        self.prog = job.prog
        fs = {strip(f['t']).split('<')[0] + ('<' + strip(targs(strip(f['t']))[0]).split('<')[0] if strip(f['t']).startswith('std::vector') else ''): f['n']
              for f in job.prog.recs[POOL]['fields']}
        try:
            self.running, self.threads, self.futures = fs['std::atomic'], fs['std::vector<std::thread'], fs['std::vector<std::future']
            self.queue, self.timeout = fs['altro::ThreadSafeQueue'], fs['std::chrono::duration']
        except KeyError as e:
            raise Unsupported('members of the pool: ' + str(e))
        self.nfut, self.nthr = z3.Int('futures'), z3.Int('threads')
        X.contracts[TASKQ + '::Push'] = [(lambda f: True, self.push)]

    def obj(self, name='pool'):
        X = self.X
        ref = z3.Int(name)
        X.assume(z3.And(ref > 0, F_kind(ref) <= 0))
        X.dyn[ref.get_id()] = (ref, POOL)
        return LV('H:' + POOL, (ref,), POOL)

    def make(self):
        X = self.X
        self.this = self.obj()
        X.assume(z3.And(self.nfut >= 0, self.nthr >= 0))
        X.store(self.size(self.f(self.futures)), self.nfut)
        X.store(self.size(self.f(self.threads)), self.nthr)
        return self.this

    def f(self, n, this=None):
        return self.X.fieldof(this or self.this, n)

    def get(self, n, this=None):
        return self.X.load(self.f(n, this))

    def size(self, v):
        return v.sub('.#', 'int')

    def el(self, v, i):
        return v.sub('[]', self.X.T.elem(strip(v.typ)), i)

    def is_queue(self, lv):
        q = self.f(self.queue)
        return isinstance(lv, LV) and lv.key == q.key and all(self.X.implied(a == b) for a, b in zip(lv.idx, q.idx))

    def push(self, X, this, vals, f):
        if not self.is_queue(this):
            raise Abort('a task goes to another queue', X.line)
        v = vals[0]
        v = X.load(v) if isinstance(v, LV) else v
        X.store(G('pushes'), z3.simplify(X.load(G('pushes')) + 1))
        X.store(G('pushed'), v)


def run(job):
    p19.run_for(job, TASKQ)
    add_task(job)
    wait(job)
    launch(job)
    stop(job)
    worker(job)
    counts(job)
    lifetime(job)
    interference(job)


def add_task(job):
    S = Pool(job)
    X = S.X

    def ctor(X, this, vals, f):
        X.store(G('wrapped'), z3.simplify(X.load(G('wrapped')) + 1))
        v = vals[0]
        given = S.arg
        X.store(G('right_function', 'bool'), z3.BoolVal(isinstance(v, LV) and v.key == given.key and len(v.idx) == len(given.idx)
                                                        and all(a.eq(b) for a, b in zip(v.idx, given.idx))))
        return z3.Int('task')
    X.contracts['std::packaged_task'] = [(lambda f: True, ctor)]

    def future(X, obj, vals, f):
        v = X.load(obj)
        if not X.choose(v != 0):
            raise Abort('future of a task without state', X.line)
        return v
    X.contracts['std::packaged_task::get_future'] = [(lambda f: True, future)]
    f = method(job, POOL, 'AddTask')

    def setup(X):
        this = S.make()
        X.assume(z3.Int('task') > 0)
        X.store(G('pushes'), z3.IntVal(0))
        X.store(G('wrapped'), z3.IntVal(0))
        S.arg = LV('H:given', (z3.Int('given'),), strip(f['params'][0]['t']))
        return this, [S.arg]

    def post(c):
        fu = S.f(S.futures)
        c.eq('the task is wrapped once', X.load(G('wrapped')), z3.IntVal(1))
        c.holds('and it is the task given', X.load(G('right_function', 'bool')))
        c.eq('it is queued exactly once', X.load(G('pushes')), z3.IntVal(1))
        c.eq('it is this task that is queued', X.load(G('pushed')), z3.Int('task'))
        c.eq('one more completion to wait for', X.load(S.size(fu)), S.nfut + 1)
        c.eq('which is that of this task', X.load(S.el(fu, S.nfut)), z3.Int('task'))
        c.frame(ignore=('!',), allow=[S.size(fu), S.el(fu, S.nfut)])
    verify(job, X, f, setup, post, 'ThreadPool::AddTask')


def wait(job):
    S = Pool(job)
    X = S.X
    W = lambda i: LV('G:waited', (i,), 'bool')
    U_status = z3.Function('completion_status', I, I)

    def waited(X, obj, vals, f, timed):
        fu = S.f(S.futures)
        if not (isinstance(obj, LV) and obj.key == fu.key + '[]'):
            raise Abort('waits for something that is not a completion of this pool', X.line)
        if timed:
            t = X.load(vals[0]) if isinstance(vals[0], LV) else vals[0]
            if not X.choose(t == S.get(S.timeout)):
                raise Abort('waits for another time than the one set', X.line)
        X.store(W(obj.idx[-1]), z3.BoolVal(True))
        return U_status(obj.idx[-1])
    for b in ('std::future', 'std::__basic_future'):
        X.contracts[b + '::wait_for'] = [(lambda f: True, lambda X, o, v, f: waited(X, o, v, f, True))]
        for n in ('wait', 'get'):
            X.contracts[f'{b}::{n}'] = [(lambda f: True, lambda X, o, v, f: waited(X, o, v, f, False))]

    def setup(X):
        this = S.make()
        X.aliastab['G:waited'] = lambda X, idx: z3.BoolVal(False)
        return this, []

    def post(c):
        fu = S.f(S.futures)
        if X.choose(S.nfut > 0):
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < S.nfut))
            X.instantiate(i)
            c.holds('every task submitted since the last wait is waited for', X.load(W(i)))
        c.eq('nothing is left to wait for', X.load(S.size(fu)), z3.IntVal(0))
        c.frame(ignore=('!', fu.key + '[]'), allow=[S.size(fu)])
    verify(job, X, method(job, POOL, 'Wait'), setup, post, 'ThreadPool::Wait')


def launch(job):
    S = Pool(job)
    X = S.X
    who, which = G('who'), G('which')

    def work(X, this, vals, f):
        X.store(who, this.idx[0])
    X.contracts[POOL + '::WorkerThread'] = [(lambda f: True, work)]
    f = method(job, POOL, 'LaunchThreads')
    n = z3.Int('requested')

    def on_store(X, lv, val):
        th = S.f(S.threads)
        if lv.key == th.key + '[]':
            if not X.choose(S.get(S.running)):
                raise Abort('a worker starts while the pool is not running: it ends at once', X.line)

    def setup(X):
        X.on_store = None
        this = S.make()
        X.on_store = on_store
        return this, [n]

    def rejected(c, a):
        if 'worker starts' in str(a):
            return c.holds('the pool is marked running before its workers start', z3.BoolVal(False))
        c.holds('refused only while running', c.old(lambda: S.get(S.running)))

    def post(c):
        was = c.old(lambda: S.get(S.running))
        th = S.f(S.threads)
        if X.choose(was):
            c.frame()
            return
        want = z3.If(n > 0, n, 0)
        c.eq('as many workers as requested', X.load(S.size(th)), want)
        c.holds('the pool is running', S.get(S.running))
        if X.choose(n > 0):
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < n))
            X.instantiate(i)
            fn = X.load(S.el(th, i))
            keep = dict(X.mem)
            X.store(who, z3.IntVal(0))
            X.call_closure(fn, [])
            c.eq('every worker serves this pool', X.load(who), S.this.idx[0])
            X.mem.clear()
            X.mem.update(keep)
        c.frame(ignore=('!', th.key + '[]'), allow=[S.size(th), S.f(S.running)])
    verify(job, X, f, setup, post, 'ThreadPool::LaunchThreads', on_abort=rejected)


def stop(job):
    S = Pool(job)
    X = S.X
    J = lambda i: LV('G:joined', (i,), 'bool')
    U_joinable = z3.Function('joinable', I, B)

    def thread(obj):
        th = S.f(S.threads)
        if not (isinstance(obj, LV) and obj.key == th.key + '[]'):
            raise Abort('not a worker of this pool', X.line)
        return obj.idx[-1]

    def join(X, obj, vals, f):
        i = thread(obj)
        if not X.choose(z3.Not(S.get(S.running))):
            raise Abort('joins a worker that has not been told to end', X.line)
        if not X.choose(z3.And(U_joinable(i), z3.Not(X.load(J(i))))):
            raise Abort('joins a thread that cannot be joined', X.line)
        X.store(J(i), z3.BoolVal(True))
    X.contracts['std::thread::join'] = [(lambda f: True, join)]
    X.contracts['std::thread::joinable'] = [(lambda f: True, lambda X, o, v, f: z3.And(U_joinable(thread(o)), z3.Not(X.load(J(thread(o))))))]

    def setup(X):
        this = S.make()
        X.aliastab['G:joined'] = lambda X, idx: z3.BoolVal(False)
        return this, []

    def post(c):
        th = S.f(S.threads)
        c.holds('the pool is told to end', z3.Not(S.get(S.running)))
        if X.choose(S.nthr > 0):
            i = X.fresh('i', I)
            X.assume(z3.And(i >= 0, i < S.nthr))
            X.instantiate(i)
            c.eq('every worker is waited for before it is given up', X.load(J(i)), U_joinable(i))
        c.eq('no worker is left', X.load(S.size(th)), z3.IntVal(0))
        c.frame(ignore=('!', th.key + '[]'), allow=[S.size(th), S.f(S.running)])
    verify(job, X, method(job, POOL, 'StopThreads'), setup, post, 'ThreadPool::StopThreads')


def worker(job):
    S = Pool(job)
    X = S.X

    def on_load(X, lv):
        if lv.key == S.runkey and X.shared:
            X.shared = False
            try:
                v = X.fresh('running', B)     # any other thread may have changed it
                X.store(S.f(S.running), v)
                X.store(LOOKED, z3.BoolVal(True))
                X.store(SEEN, v)
            finally:
                X.shared = True

    def pop(X, this, vals, f):
        if not S.is_queue(this):
            raise Abort('takes from another queue', X.line)
        X.store(TRIED, z3.BoolVal(True))
        if not X.choose(X.load(PENDING) == 0):
            raise Abort('another task is taken before the first one ran', X.line)
        if X.choose(X.fresh('available', B)):
            t = X.fresh('taken', I)
            X.assume(t > 0)
            X.store(PENDING, t)
            X.store(vals[0], t)
            return z3.BoolVal(True)
        return z3.BoolVal(False)

    def empty(X, this, vals, f):
        X.store(TRIED, z3.BoolVal(True))
        return X.fresh('empty', B)

    def count(X, this, vals, f):
        X.store(TRIED, z3.BoolVal(True))
        k = X.fresh('waiting', I)
        X.assume(k >= 0)
        return k
    X.contracts[TASKQ + '::TryPop'] = [(lambda f: True, pop)]
    X.contracts[TASKQ + '::IsEmpty'] = [(lambda f: True, empty)]
    X.contracts[TASKQ + '::Size'] = [(lambda f: True, count)]

    def call(X, this, vals, f):
        t = X.load(vals[0]) if isinstance(vals[0], LV) else vals[0]
        if not X.choose(z3.And(X.load(PENDING) != 0, t == X.load(PENDING))):
            raise Abort('runs something that was not just taken from the queue', X.line)
        X.store(PENDING, z3.IntVal(0))
    X.contracts['std::packaged_task::()'] = [(lambda f: True, call)]

    def handler(X, n, kind, cond, body, inc):
        if X.inv_seen or kind == 'range':
            return False
        X.inv_seen = True
        if X.choose_n(2) == 0:
            X.inv_mode = 'base'
            raise Return(None)
        for v in X.fr.env.values():
            if isinstance(v, LV) and v.key[0] in 'LT' and X.T.kind(v.typ) in ('int', 'bool'):
                X.store(v, X.fresh('loop', SORT[X.T.kind(v.typ)]))
        X.store(PENDING, z3.IntVal(0))
        for g in (LOOKED, SEEN, TRIED):
            X.store(g, z3.BoolVal(False))
        try:
            if kind == 'do' or X.choose(cond()):
                try:
                    body()
                except Continue:
                    pass
                inc()
                X.inv_mode = 'step'
                if kind == 'do' and not X.choose(cond()):
                    X.inv_mode = 'exit'
                    return True
                raise Return(None)
        except Break:
            pass
        X.inv_mode = 'exit'
        return True
    X.loop_handler = handler

    def setup(X):
        X.on_load = None
        X.shared, X.inv_seen, X.inv_mode = False, False, 'none'
        this = S.make()
        S.runkey = S.f(S.running).key
        X.on_load = on_load
        X.store(PENDING, z3.IntVal(0))
        X.store(SEEN, z3.BoolVal(True))
        X.shared = True
        return this, [z3.Int('id')]

    def post(c):
        X.shared = False
        m = X.inv_mode
        c.holds('a task that was taken has been run', X.load(PENDING) == 0)
        if m == 'step':
            c.holds('goes on only while the pool is running', z3.And(X.load(LOOKED), X.load(SEEN)))
            c.holds('looks for a task each time', X.load(TRIED))
        elif m != 'base':
            c.holds('ends only when the pool has been stopped', z3.Not(X.load(SEEN)))
        c.frame(ignore=('!',), allow=[S.f(S.running)])
    verify(job, X, method(job, POOL, 'WorkerThread'), setup, post, 'ThreadPool::WorkerThread')


def counts(job):
    for fn, want in (('NumTasks', lambda S: z3.Int('queued')), ('NumThreads', lambda S: S.nthr), ('IsRunning', lambda S: S.get(S.running))):
        S = Pool(job)
        X = S.X

        def qsize(X, this, vals, f, S=S):
            if not S.is_queue(this):
                raise Abort('another queue', X.line)
            return z3.Int('queued')
        X.contracts[TASKQ + '::Size'] = [(lambda f: True, qsize)]

        def post(c, S=S, want=want):
            c.eq('tells the truth', c.ret, want(S))
            c.frame()
        verify(job, X, method(job, POOL, fn), lambda X, S=S: (S.make(), []), post, 'ThreadPool::' + fn)


def lifetime(job):
    # construction
    ctors = [f for f in job.prog.by_cls[POOL] if f['kind'] == 'CXXConstructor' and f.get('body') is not None]
    default = [f for f in ctors if not f['params']]
    moves = [f for f in ctors if len(f['params']) == 1 and f['params'][0]['t'].rstrip().endswith('&&')]
    if len(default) != 1 or len(moves) != 1:
        raise Unsupported('constructors of the pool')
    qctors = {len(f['params']): f for f in job.prog.by_cls[TASKQ] if f['kind'] == 'CXXConstructor' and f.get('body') is not None}
    S = Pool(job)
    X = S.X

    def post(c):
        S.this = c.this
        c.holds('not running', z3.Not(S.get(S.running)))
        c.eq('no worker', X.load(S.size(S.f(S.threads))), z3.IntVal(0))
        c.eq('nothing to wait for', X.load(S.size(S.f(S.futures))), z3.IntVal(0))
    fresh_ctor = lambda X: (S.obj('made'), [])
    verify(job, X, default[0], fresh_ctor, post, 'ThreadPool::ThreadPool()')

    # moves: the queue's own move is proved above
    for mv, name in ((moves[0], 'ThreadPool::ThreadPool(&&)'), (method(job, POOL, 'operator=', lambda f: f['params'][0]['t'].rstrip().endswith('&&')), 'ThreadPool::operator=(&&)')):
        S = Pool(job)
        X = S.X
        moved = LV('G:moved_from', (), 'int')

        def qmove(X, this, vals, f, S=S):
            v = vals[0]
            if not (isinstance(this, LV) and S.is_queue(LV(this.key, (S.dst.idx[0],), this.typ))):
                raise Abort('moves into something else', X.line)
            if not (isinstance(v, LV) and v.key == this.key):
                raise Abort('moves from something else', X.line)
            X.store(LV('G:queue_of', (this.idx[0],), 'int'), v.idx[0])
        X.contracts[TASKQ + '::ThreadSafeQueue'] = [(lambda f: True, qmove)]
        X.contracts[TASKQ + '::operator='] = [(lambda f: True, qmove)]

        def setup(X, S=S):
            src = S.make()
            S.src = src
            S.dst = S.obj('target')
            S.this = S.dst
            X.assume(S.dst.idx[0] != src.idx[0])
            X.store(LV('G:queue_of', (S.dst.idx[0],), 'int'), z3.IntVal(0))
            return S.dst, [LV(src.key, src.idx, src.typ, xv=True)]

        def post(c, S=S):
            X = c.X
            o = lambda n: S.f(n, S.src)
            c.holds('taken from a pool that is not running', c.old(lambda: z3.Not(S.get(S.running, S.src))))
            c.holds('not running', z3.Not(S.get(S.running)))
            c.eq('all completions are kept', X.load(S.size(S.f(S.futures))), S.nfut)
            c.eq('the queue is the one of the source', X.load(LV('G:queue_of', (S.dst.idx[0],), 'int')), S.src.idx[0])
            c.eq('the time to wait is kept', S.get(S.timeout), c.old(lambda: S.get(S.timeout, S.src)))
            if X.choose(S.nfut > 0):
                i = X.fresh('i', I)
                X.assume(z3.And(i >= 0, i < S.nfut))
                c.eq('in order', X.load(S.el(S.f(S.futures), i)), c.old(lambda: X.load(S.el(o(S.futures), i))))

        def running(c, a, S=S):
            c.holds('refused only for a running pool', c.old(lambda: S.get(S.running, S.src)))
        verify(job, X, mv, setup, post, name, on_abort=running)

    # destruction
    S = Pool(job)
    X = S.X
    X.contracts[POOL + '::StopThreads'] = [(lambda f: True, lambda X, this, vals, f: X.store(G('stopped'), X.load(G('stopped')) + 1))]
    d = [f for f in job.prog.by_cls[POOL] if f['kind'] == 'CXXDestructor' and f.get('body') is not None]
    if len(d) != 1:
        raise Unsupported('destructor of the pool')

    def setup(X, S=S):
        this = S.make()
        X.store(G('stopped'), z3.IntVal(0))
        return this, []

    def post(c, S=S):
        c.holds('a running pool is stopped', z3.Implies(c.old(lambda: S.get(S.running)), c.X.load(G('stopped')) > 0))
    verify(job, X, d[0], setup, post, 'ThreadPool::~ThreadPool')


class Shared(p19.Queue):
    """a queue that other threads use at the same time. Its elements are node(0), node(1), ... for all time; H and T are the positions
    of the first and of the last (empty) node. Whoever holds the head mutex owns H, nodes H..T-1 and the field head_; whoever holds the
    tail mutex owns T, node T and the field tail_. Between two lock operations other threads may have moved H and T forward."""

    def make(self):
        X, Q = self.X, self.Q
        self.H, self.T, self.obs, self.popped, self.appended, self.published = None, None, [], [], [], []
        self.hheld = self.theld = self.torn = self.off = False
        self.quiet()
        X.rmw = False
        this = super().make()
        by = lambda w: [self.mutex[k] for k, m in enumerate(Q.mutexes) if w in m[0]]
        if len(by('head')) != 1 or len(by('tail')) != 1:
            raise Unsupported('mutexes of the queue')
        self.hm, self.tm = by('head')[0], by('tail')[0]
        self.hkey, self.tkey = self.f(Q.head).key, self.f(Q.tail).key
        self.nkey, self.dkey = [X.field(LV('H:' + Q.ncls, (), Q.ncls), fd[0], fd[1], Q.ncls).key for fd in (Q.next, Q.data)]
        self.vkey = 'H:' + Q.elem
        X.store(self.sz, z3.Int('size_before'))
        X.on_load = lambda X, lv: self.access(X, lv, False)
        X.on_store = lambda X, lv, v: self.access(X, lv, True)
        X.on_lock = self.lock
        return this

    def quiet(self):
        X = self.X
        X.on_load = X.on_store = X.on_lock = None

    def need(self, cond, what):
        cond = z3.BoolVal(cond) if isinstance(cond, bool) else cond
        if not self.X.choose(cond):
            raise Abort(what, self.X.line)

    def is_(self, a, b):
        return self.X.implied(a == b)

    def owns(self, i):
        """node i may be touched by this thread now"""
        X = self.X
        if self.theld and self.is_(i, self.T):
            return True
        if self.hheld and any(X.implied(z3.And(self.H <= i, i < T)) for T in self.seen()):
            return True
        return any(self.is_(i, k) for k in self.popped)

    def seen(self):
        return [t for _, t in self.obs]

    def access(self, X, lv, write):
        if self.off or X.nofork:
            return
        self.off = True
        try:
            k = lv.key
            if k == self.hkey:
                self.need(self.hheld, 'head touched without its mutex')
            elif k == self.tkey:
                self.need(self.theld, 'tail touched without its mutex')
            elif k == self.sz.key:
                if write and not X.rmw:
                    self.torn = True
            elif k in (self.nkey, self.dkey, self.vkey) and len(lv.idx) == 1 and z3.is_app(lv.idx[0]):
                p = lv.idx[0]
                f = self.val if k == self.vkey else self.node
                if p.decl().eq(f):
                    self.need(self.owns(p.arg(0)), 'list node touched without its mutex')
                    if write and k != self.vkey and self.theld and self.is_(p.arg(0), self.T):
                        self.twrites += 1
                elif p.decl().name().startswith('new!'):
                    self.need(not any(p.eq(q) for q in self.published) or self.theld, 'new node touched after it was handed over')
                else:
                    raise Unsupported('access to an unknown node')
            elif any(k == self.f(m).key for m in [*self.Q.mutexes, self.Q.size, *self.Q.others]):
                self.need(not write, 'a shared pointer is replaced while others use the queue')
        finally:
            self.off = False

    def lock(self, X, lv, acquire):
        self.off = True
        try:
            p = lv.idx[0]
            if self.is_(p, self.hm):
                self.head_acquire() if acquire else self.head_release()
            elif self.is_(p, self.tm):
                self.tail_acquire() if acquire else self.tail_release()
            else:
                raise Unsupported('another mutex')
        finally:
            self.off = False

    def head_acquire(self):
        X = self.X
        self.need(not self.theld, 'the mutexes are taken in the wrong order')
        H = X.fresh('H', I)
        X.assume(H >= 0 if self.H is None else H >= self.H)
        self.obs = []
        self.H, self.hheld = H, True
        X.store(self.f(self.Q.head), self.at(H))

    def head_release(self):
        X = self.X
        h = X.load(self.f(self.Q.head))
        h = h.lv.idx[0] if isinstance(h, PtrVal) else h
        if not self.is_(h, self.at(self.H)):
            self.need(h == self.at(self.H + 1), 'the first element is not removed as it should be')
            self.need(any(X.implied(self.H < T) for T in self.seen()), 'an element is removed that was not seen to be there')
            self.popped.append(self.H)
            self.H = z3.simplify(self.H + 1)
        self.hheld = False

    def tail_acquire(self):
        X = self.X
        T = X.fresh('T', I)
        X.assume(T >= 0 if self.T is None else T >= self.T)
        if self.hheld:
            X.assume(T >= self.H)
            self.obs.append((self.H, T))
        self.T, self.theld, self.twrites = T, True, 0
        self.len = T
        X.store(self.f(self.Q.tail), self.at(T))

    def tail_release(self):
        X, Q = self.X, self.Q
        t = X.load(self.f(Q.tail))
        t = t.lv.idx[0] if isinstance(t, PtrVal) else t
        last = self.at(self.T)
        if self.is_(t, last):
            self.need(self.twrites == 0, 'the last node is changed but nothing is appended')
        else:
            self.need(z3.is_app(t) and t.decl().name().startswith('new!'), 'the new last node is not a new one')
            val = lambda p: p.lv.idx[0] if isinstance(p, PtrVal) else p
            self.need(val(Q.nodef(X, last, Q.next)) == t, 'the new last node is not linked')
            d = val(Q.nodef(X, last, Q.data))
            self.need(d != 0, 'an element without a value')
            self.need(Q.value(X, d) == z3.Const('pushed', I), 'the value appended is not the one given')
            self.need(val(Q.nodef(X, t, Q.next)) == 0, 'something follows the new last node')
            self.appended.append(self.T)
            self.published += [t, d]
            self.T = z3.simplify(self.T + 1)
        self.theld = False


def interference(job):
    prog = job.prog

    def shared():
        Q = p19.Shape(prog, TASKQ)
        keep = p19.Queue
        p19.Queue = Shared
        try:
            X, (q,) = Q.interp()
        finally:
            p19.Queue = keep
        return X, Q, q

    def done(c, q, pops, pushes):
        X = c.X
        c.holds('holds no mutex at the end', z3.And(*[z3.Not(X.load(q.locked(m))) for m in q.mutex]))
        c.holds(f'removes {pops} elements', z3.BoolVal(len(q.popped) == pops))
        c.holds(f'appends {pushes} elements', z3.BoolVal(len(q.appended) == pushes))
        c.eq('the counter follows', X.load(q.sz), z3.Int('size_before') + pushes - pops)
        c.holds('in one step each', z3.BoolVal(not q.torn))

    X, Q, q = shared()

    def sp(X, q=q):
        this = q.make()
        a = X.temp(Q.elem)
        X.store(a, z3.Const('pushed', I))
        return this, [a]

    def pp(c, q=q):
        q.quiet()
        done(c, q, 0, 1)
    verify(job, X, method(job, TASKQ, 'Push'), sp, pp, 'Push among other threads')

    X, Q, q = shared()

    def st(X, q=q, Q=Q):
        this = q.make()
        a = X.temp(Q.elem)
        X.store(a, z3.Const('given', I))
        return this, [a]

    def empty_seen(c, q):
        return z3.Or(*[h == t for h, t in q.obs]) if q.obs else z3.BoolVal(False)

    def pt(c, q=q):
        q.quiet()
        X = c.X
        if X.choose(c.ret):
            done(c, q, 1, 0)
            if len(q.popped) == 1:
                k = q.popped[0]
                c.eq('hands out the element it removed', X.load(c.vals[0]), c.old(lambda: X.load(LV('H:' + Q.elem, (q.val(k),), Q.elem))))
        else:
            done(c, q, 0, 0)
            c.holds('reports an empty queue only when it saw one', empty_seen(c, q))
            c.eq('the argument keeps its value', X.load(c.vals[0]), z3.Const('given', I))
    verify(job, X, method(job, TASKQ, 'TryPop'), st, pt, 'TryPop among other threads')

    X, Q, q = shared()

    def pe(c, q=q):
        q.quiet()
        done(c, q, 0, 0)
        c.holds('tells what it saw while holding both mutexes', z3.Or(*[c.ret == (h == t) for h, t in q.obs]) if q.obs else z3.BoolVal(False))
    verify(job, X, method(job, TASKQ, 'IsEmpty'), lambda X, q=q: (q.make(), []), pe, 'IsEmpty among other threads')


if __name__ == '__main__':
    from ._main import main
    main('P21', run)
