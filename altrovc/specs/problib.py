"""Spec-side view of a Problem: representation invariant and accessors."""
from .ilqrlib import *

PROB = 'altro::problem::Problem'
CONT = {'eq': 'altro::constraints::Constraint<altro::constraints::ZeroCone>', 'ineq': 'altro::constraints::Constraint<altro::constraints::NegativeOrthant>'}
GETV = {'eq': 'GetEqualityConstraints', 'ineq': 'GetInequalityConstraints'}
ASSUME_P = ['a problem has at least one segment (N >= 1) and a non-null initial state vector',
            'the per-knot-point lists of a problem have N + 1 entries (established by the constructor and proved preserved by every setter and copy)',
            'stored constraints are non-null (SetConstraint rejects null pointers)']


class Prob:
    """one existing problem object; horizon(ref) is its number of segments"""

    def __init__(self, X, horizon=None):
        self.X = X
        self.hor = horizon or (lambda idx: X.prob_N(idx[0]))
        X.prob_N = z3.Function('prob_N', I, I)
        prog = X.prog

        def vecfield(what, inner):
            fs = [g for g in prog.recs[PROB]['fields'] if strip(g['t']).startswith('std::vector<') and inner(strip(g['t']))]
            if len(fs) != 1:
                raise Unsupported(f'{what} list of the problem: {len(fs)} candidates')
            return f'H:{PROB}.{fs[0]["n"]}', strip(fs[0]['t'])
        self.vk = {'cost': vecfield('cost', lambda t: 'CostFunction' in t), 'dyn': vecfield('dynamics', lambda t: 'Dynamics' in t),
                   'eq': vecfield('equality', lambda t: CONT['eq'] in t), 'ineq': vecfield('inequality', lambda t: CONT['ineq'] in t)}
        for k, (key, ty) in self.vk.items():
            X.aliastab[key + '.#'] = lambda X, idx: self.hor(idx) + 1
            if k in ('eq', 'ineq'):
                X.nonnull[key + '[][]'] = lambda idx: True
                X.ptrfacts[key + '[][]'] = lambda t, idx: U_odim(t) > 0
        nf = [g for g in prog.recs[PROB]['fields'] if strip(g['t']).replace('const ', '') == 'int']
        if len(nf) != 1:
            raise Unsupported('horizon of the problem')
        X.aliastab[f'H:{PROB}.{nf[0]["n"]}'] = lambda X, idx: self.hor(idx)
        xf = [g for g in prog.recs[PROB]['fields'] if 'shared_ptr<' + VEC in g['t']]
        if len(xf) != 1:
            raise Unsupported('initial state of the problem')
        self.xf = f'H:{PROB}.{xf[0]["n"]}'
        X.nonnull[self.xf] = lambda idx: True
        X.dimtab['H:' + VEC] = lambda X, idx: (self.xlen(idx[0]), z3.IntVal(1))
        self.xlen = z3.Function('veclen', I, I)

    def make(self, name='prob'):
        X = self.X
        this = obj(X, PROB, name)
        X.assume(self.hor(this.idx) >= 1)
        return this

    # observers, all through the public interface
    def N(self, this):
        return call(self.X, PROB, 'NumSegments', this)

    def cost(self, this, k):
        return self.val(call(self.X, PROB, 'GetCostFunction', this, k))

    def dyn(self, this, k):
        """stored dynamics, 0 when the getter reports that none is defined"""
        try:
            return self.val(call(self.X, PROB, 'GetDynamics', this, k))
        except Abort:
            return z3.IntVal(0)

    def clist(self, this, kind, k):
        v = call(self.X, PROB, GETV[kind], this)
        inner = self.X.T.elem(strip(v.typ))
        return v.sub('[]', inner, k)

    def ncon(self, this, kind, k):
        return self.X.load(self.clist(this, kind, k).sub('.#', 'int'))

    def con(self, this, kind, k, i):
        lst = self.clist(this, kind, k)
        return self.X.load(lst.sub('[]', self.X.T.elem(strip(lst.typ)), i))

    def x0(self, this):
        return self.X.mget(call(self.X, PROB, 'GetInitialState', this))

    def val(self, v):
        return self.X.load(v) if isinstance(v, LV) else v
