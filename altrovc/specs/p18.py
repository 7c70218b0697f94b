"""P18: the solver history is one aligned record per iteration.
The statistics object of the pre-state is the one its constructor builds (so that whatever table the constructor sets up is
used as it is), with arbitrary counters, options and histories of a common, arbitrary length and content; every method is proved
to have the effect of the abstract operation and to leave the table and everything else alone."""
from .common import *
from .p15 import call, fresh_obj, ctor
from .ilqrlib import TRACKED

ASSUME = ['the table that connects names with histories is visited in one of two opposite orders (every pair of its entries in both)',
          'the options asked for at a reset are usable: a non-negative iteration limit and header frequency']
TRUST = ['std::unordered_map, std::vector and std::string behave as documented; formatting and printing a value change no history',
         'SolverLogger::AddEntry, GetEntry, Log, Print and Clear work on the logger alone; AddEntry returns the entry with the title given']
SS = 'altro::SolverStats'
COUNTERS = ('iterations_inner', 'iterations_outer', 'iterations_total')
OTHER = 'name'


class Stats:
    def __init__(self, prog, X):
        self.prog, self.X = prog, X
        # the console logger by contract: its methods work on the logger alone; an entry added has the title asked for
        X.effectful = ('altro::LogEntry',)
        quiet = lambda X, this, vals, f: None

        def entry(X, this, vals, f):
            e = X.temp('altro::LogEntry')
            t = vals[1] if f['fn'] == 'AddEntry' else vals[0]
            X.store(X.fieldof(e, title), X.load(t) if isinstance(t, LV) else t)
            return e
        title = None
        g = [f for f in prog.by_q.get('altro::LogEntry::GetTitle', []) if f.get('body') is not None]
        if len(g) == 1:
            e = X.temp('altro::LogEntry')
            r = X.call_body(g[0], e, [])
            ks = [f['n'] for f in prog.recs['altro::LogEntry']['fields'] if X.fieldof(e, f['n']).key == r.key]
            title = ks[0] if ks else None
        if title is None:
            raise Unsupported('title of a log entry')
        LG = 'altro::SolverLogger::'
        for q in ('Log', 'Print', 'Clear', 'PrintHeader', 'PrintData'):
            X.contracts[LG + q] = [(lambda f: True, quiet)]
        X.contracts['altro::LogEntry::SetLowerBound'] = [(lambda f: True, lambda X, this, vals, f: this)]
        for q in ('AddEntry', 'GetEntry'):
            X.contracts[LG + q] = [(lambda f: True, entry)]
        self.n = z3.Int('len0')
        pub = set(TRACKED.values()) | set(COUNTERS) | {'initial_cost'}
        self.ints = [f for f in prog.recs[SS]['fields'] if X.T.kind(f['t']) == 'int' and f['n'] not in pub]
        self.loggers = [f for f in prog.recs[SS]['fields'] if strip(f['t']) == 'altro::SolverLogger']

    def val(self, t, i):
        return z3.Function('hist_' + t, I, R)(i)

    def hist(self, this, t):
        return self.X.fieldof(this, TRACKED[t])

    def len(self, this, t):
        return self.X.load(self.hist(this, t).sub('.#', 'int'))

    def at(self, this, t, i):
        h = self.hist(this, t)
        return self.X.load(LV(h.key + '[]', h.idx + (z3.simplify(i) if is_z(i) else z3.IntVal(i),), 'double'))

    def make(self, name='stats', n=None):
        X = self.X
        this = fresh_obj(X, SS, name)
        X.run_ctor(this, ctor(self.prog, SS, lambda g: not g['params']), [])
        n = self.n if n is None else n
        X.assume(n >= 0)
        for t in TRACKED:
            h = self.hist(this, t)
            X.store(h.sub('.#', 'int'), n)
            key = h.key + '[]'
            fn = z3.Function(f'hist_{t}', I, R) if name == 'stats' else z3.Function(f'hist_{name}_{t}', I, R)
            nd = Fn(X.fmap(key, 'real'), lambda q, r=h.idx: z3.And(*[a == b for a, b in zip(q, r)]), lambda q, fn=fn: fn(q[-1]))
            nd.nidx = len(h.idx) + 1
            X.mem[key] = nd
            X.baseinfo.setdefault(key, 'real')
        for f in self.ints:
            X.store(X.fieldof(this, f['n']), n)
        for c in COUNTERS:
            X.store(X.fieldof(this, c), z3.Int(name + '_' + c))
        X.store(X.fieldof(this, 'initial_cost'), z3.Real(name + '_c0'))
        o = call(X, SS, 'GetOptions', this, const=False)
        for f in self.prog.recs[strip(o.typ)]['fields']:
            k = X.T.kind(f['t'])
            if k in SORT:
                v = z3.Const(name + '_opt_' + f['n'], SORT[k])
                if k == 'int' and f['n'] in ('header_frequency', 'max_iterations_total'):
                    X.assume(v >= 0)
                X.store(X.fieldof(o, f['n']), v)
        self.this = this
        return this

    def allow(self, c):
        return [self.X.fieldof(c.this, TRACKED[t]) for t in TRACKED] + [self.X.fieldof(c.this, f['n']) for f in self.ints + self.loggers]

    def records(self, c, n, val, this=None):
        """every history has n entries; entry i of history t is val(t, i)"""
        X = self.X
        this = this or c.this
        for t in TRACKED:
            c.eq(f'length of the history of {t}', self.len(this, t), n)
        i = X.fresh('rec', I)
        if X.implied(n <= 0):
            return
        X.assume(z3.And(i >= 0, i < n))
        last = X.choose(i == z3.simplify(n - 1))
        i = z3.simplify(n - 1) if last else i
        for t in TRACKED:
            c.eq(f'history of {t}', self.at(this, t, i), val(t, i, last))

    def internal(self, c, n, this=None):
        for f in self.ints:
            c.eq('number of records', self.X.load(self.X.fieldof(this or c.this, f['n'])), n)


def run(job):
    prog = job.prog

    def m(q, pred=lambda f: True):
        c = [f for f in prog.by_q.get(q, []) if f.get('body') is not None and pred(f)]
        if len(c) != 1:
            raise Unsupported(f'{q}: {len(c)} candidates')
        return c[0]

    # construction
    X = new_interp(prog)
    S = Stats(prog, X)

    def p0(c, S=S):
        S.records(c, z3.IntVal(0), None)
        S.internal(c, z3.IntVal(0))
        for n in COUNTERS:
            c.eq(n, c.get(c.this, n), z3.IntVal(0))
        c.eq('initial cost', c.get(c.this, 'initial_cost'), z3.RealVal(0))
    verify(job, X, ctor(prog, SS, lambda g: not g['params']), lambda X: (fresh_obj(X, SS, 'stats'), []), p0, 'SolverStats()')

    # logging
    logs = [f for f in prog.by_q.get(SS + '::Log', []) if f.get('body') is not None]
    if not logs:
        raise Unsupported('SolverStats::Log')
    for f in logs:
        vt = strip(f['params'][1]['t'])
        for title in list(TRACKED) + [None]:
            X = new_interp(prog)
            S = Stats(prog, X)

            def setup(X, S=S, title=title, vt=vt):
                this = S.make()
                s = X.temp('std::basic_string<char>')
                if title is None:
                    nm = z3.Int(OTHER)
                    X.assume(z3.And(*[nm != X.intern(t) for t in TRACKED]))
                    X.store(s, nm)
                else:
                    X.store(s, X.intern(title))
                v = X.temp(vt)
                X.store(v, z3.Const('logged', SORT[X.T.kind(vt)]))
                return this, [s, v]

            def post(c, S=S, title=title, vt=vt):
                X = c.X
                n0 = S.n
                first = X.choose(n0 == 0)
                n = z3.IntVal(1) if first else n0
                new = z3.Const('logged', SORT[X.T.kind(vt)])
                new = z3.ToReal(new) if new.sort() == I else new

                def val(t, i, last):
                    if last and t == title:
                        return new
                    return z3.RealVal(0) if first else S.val(t, i)
                S.records(c, n, val)
                S.internal(c, n)
                c.frame(allow=S.allow(c))
            verify(job, X, f, setup, post, f'SolverStats::Log<{vt}>' + (f' of {title}' if title else ' of an untracked name'))

    # a new iteration
    X = new_interp(prog)
    S = Stats(prog, X)

    def pn(c, S=S):
        X = c.X
        first = X.choose(S.n == 0)

        def val(t, i, last):
            if last:
                return z3.RealVal(0) if first else S.val(t, z3.simplify(S.n - 1))
            return S.val(t, i)
        S.records(c, z3.simplify(S.n + 1), val)
        S.internal(c, z3.simplify(S.n + 1))
        c.frame(allow=S.allow(c))
    verify(job, X, m(SS + '::NewIteration'), lambda X, S=S: (S.make(), []), pn, 'SolverStats::NewIteration')

    # reset
    X = new_interp(prog)
    S = Stats(prog, X)

    def pr(c, S=S):
        X = c.X
        S.records(c, z3.IntVal(0), None)
        S.internal(c, z3.IntVal(0))
        for n in COUNTERS:
            c.eq(n, c.get(c.this, n), z3.IntVal(0))
        c.eq('initial cost', c.get(c.this, 'initial_cost'), z3.RealVal(0))
        c.frame(allow=S.allow(c) + [X.fieldof(c.this, n) for n in COUNTERS + ('initial_cost',)])
    verify(job, X, m(SS + '::Reset'), lambda X, S=S: (S.make(), []), pr, 'SolverStats::Reset')

    # copies and moves refer to their own histories
    dbl = [f for f in logs if strip(f['params'][1]['t']) == 'double']
    for move in (False, True):
        for title in TRACKED:
            X = new_interp(prog)
            S = Stats(prog, X)

            def sc(X, S=S, move=move, title=title):
                src = S.make()
                dst = obj(X, SS, 'other')
                X.memberwise(dst, src, SS, True, move)
                s = X.temp('std::basic_string<char>')
                X.store(s, X.intern(title))
                return dst, [s, real_arg(X, 'logged')]

            def pc(c, S=S, title=title, move=move):
                X = c.X
                first = X.choose(S.n == 0)
                n = z3.IntVal(1) if first else S.n
                S.records(c, n, lambda t, i, last: z3.Real('logged') if last and t == title else z3.RealVal(0) if first else S.val(t, i))
                if not move:
                    S.records(c, S.n, lambda t, i, last: S.val(t, i), S.this)
                c.frame(allow=S.allow(c))
            if not dbl:
                raise Unsupported('SolverStats::Log<double>')
            verify(job, X, dbl[0], sc, pc, f'SolverStats::Log of {title} after a ' + ('move' if move else 'copy'))

    # capacity, tolerances, printing: no effect on the history
    for fn, args in (('SetCapacity', 'i'), ('SetTolerances', 'rrr'), ('PrintLast', '')):
        X = new_interp(prog)
        S = Stats(prog, X)

        def su(X, S=S, args=args):
            this = S.make()
            vs = []
            for k, a in enumerate(args):
                v = (int_arg if a == 'i' else real_arg)(X, f'arg{k}')
                if a == 'i':
                    X.assume(z3.Int(f'arg{k}') >= 0)
                vs.append(v)
            return this, vs

        def pq(c, S=S):
            S.records(c, S.n, lambda t, i, last: S.val(t, i))
            c.frame(allow=[S.X.fieldof(c.this, f['n']) for f in S.loggers])
        verify(job, X, m(f'{SS}::{fn}'), su, pq, f'SolverStats::{fn}')


if __name__ == '__main__':
    from ._main import main
    main('P18', run)
