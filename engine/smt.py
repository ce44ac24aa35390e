"""SMT back end (z3): inequalities, branch feasibility, boolean structure."""
import sys
import time
from fractions import Fraction

from . import expr as X
from .expr import E, SymBool
from .norm import Rat, patoms, CONST, pscale, Budget

_SP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def _load():
    try:
        import z3
        return z3
    except ImportError:
        pass
    sys.path.append(_SP)
    try:
        import z3
        return z3
    finally:
        sys.path.remove(_SP)


z3 = _load()

STATS = dict(z3_queries=0, z3_time=0.0)


class Translator(object):
    """normal-form atoms -> z3 reals, with the facts that define them"""

    def __init__(self, nz, extra_facts=()):
        self.nz = nz
        self.vars = {}
        self.facts = []
        self.queue = []
        self.extra = list(extra_facts)
        self.angs = []

    def atom(self, i):
        v = self.vars.get(i)
        if v is None:
            a = self.nz.atoms[i]
            name = 'x%d_%s' % (i, a.kind)
            v = z3.ToReal(z3.Int(name)) if a.integer else z3.Real(name)
            self.vars[i] = v
            self.queue.append(i)
        return v

    def poly(self, p):
        if not p:
            return z3.RealVal(0)
        terms = []
        for m, c in p.items():
            c = Fraction(c)
            t = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            for a, e in m:
                v = self.atom(a)
                for _ in range(abs(e)):
                    t = t * v if e > 0 else t / v
            terms.append(t)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def rat(self, r):
        n = self.poly(r.num)
        if not r.den:
            return n
        d = z3.RealVal(1)
        for f, m in r.den.values():
            z = self.poly(f)
            self.facts.append(z != 0)
            for _ in range(m):
                d = d * z
        return n / d

    def signed(self, r):
        """polynomial with the same sign as r"""
        p = r.num
        flip = 1
        extra = None
        for f, m in r.den.values():
            if m % 2:
                s = self.nz.sign(f)
                z = self.poly(f)
                self.facts.append(z != 0)
                if s is None:
                    extra = z if extra is None else extra * z
                else:
                    flip *= s
        q = self.poly(pscale(p, flip))
        return q if extra is None else q * extra

    def boolean(self, b):
        if b.op == 'const':
            return z3.BoolVal(b.args[0])
        if b.op == 'not':
            return z3.Not(self.boolean(b.args[0]))
        if b.op == 'and':
            return z3.And(self.boolean(b.args[0]), self.boolean(b.args[1]))
        r = self.nz.norm(X.add(b.args[0], X.neg(b.args[1])))
        if b.op == 'eq':
            if not r.num:
                return z3.BoolVal(True)
            return self.poly(r.num) == 0
        s = self.signed(r)
        return s < 0 if b.op == 'lt' else s <= 0

    def close(self):
        done = 0
        while self.queue:
            i = self.queue.pop()
            done += 1
            if done > 300:
                return
            a = self.nz.atoms[i]
            v = self.vars[i]
            F = self.facts
            if a.kind == 'pi':
                F += [v > z3.RealVal('3.14159'), v < z3.RealVal('3.1416')]
            if a.pos:
                F.append(v > 0)
            elif a.nonneg:
                F.append(v >= 0)
            if a.lb is not None:
                F.append(v >= int(a.lb))
            if a.sq is not None and len(a.sq) <= 200:
                F.append(v * v == self.poly(a.sq))
            if a.kind in ('sin', 'cos', 'osin', 'ocos'):
                F += [v >= -1, v <= 1]
            if a.kind in ('sin', 'cos') and isinstance(a.data[0], tuple) and len(a.data[0][0]) <= 3:
                self._quadrants(a, v)
            if a.kind == 'ang':
                s, c = a.data
                F += [v > -1, v <= 1]
                if len(s.num) <= 150 and len(c.num) <= 150:
                    ss, cc = self.signed(s), self.signed(c)
                    F += [z3.Implies(ss > 0, z3.And(v > 0, v < 1)),
                          z3.Implies(ss < 0, v < 0),
                          z3.Implies(ss == 0, z3.Or(v == 0, v == 1)),
                          z3.Implies(cc > 0, z3.And(v > -0.5, v < 0.5)),
                          z3.Implies(cc < 0, z3.Or(v > 0.5, v < -0.5)),
                          z3.Implies(cc == 0, z3.Or(v == 0.5, v == -0.5))]
                    self.angs.append(i)
            if a.kind == 'floor':
                arg = self.rat(a.data[0])
                F += [v <= arg, arg < v + 1]
            if a.kind == 'cosh':
                F.append(v >= 1)
            if a.kind == 'exp':
                F.append(v > 0)
        # pairwise comparison of angles in the first quadrant
        if len(self.angs) <= 6:
            for n1 in range(len(self.angs)):
                for n2 in range(n1 + 1, len(self.angs)):
                    self._pair(self.angs[n1], self.angs[n2])
            if self.queue:
                self.close_rest()

    def _quadrants(self, a, v):
        """sign of sin and cos from the range of their argument"""
        m, unit = a.data[0]
        pi = self.nz.pi.id
        d = dict(m)
        if d.get(pi) == 1:
            m2 = tuple(i for i in m if i[0] != pi)
            if not m2:
                return
            x = self.poly({m2: unit})            # in units of pi
            one = z3.RealVal(1)
        elif pi not in d:
            x = self.poly({m: unit})
            one = self.atom(pi)
        else:
            return
        lo, hi = (z3.RealVal(0) * one, one) if a.kind == 'sin' else (-one / 2, one / 2)
        self.facts += [z3.Implies(z3.And(lo <= x, x <= hi), v >= 0),
                       z3.Implies(z3.And(lo < x, x < hi), v > 0),
                       z3.Implies(z3.And(hi < x, x < hi + one), v < 0),
                       z3.Implies(z3.And(lo - one < x, x < lo), v < 0)]

    def _pair(self, i, j):
        nz = self.nz
        a, b = nz.atoms[i], nz.atoms[j]
        try:
            d = nz.rsub(nz.rmul(a.data[0], b.data[1]), nz.rmul(b.data[0], a.data[1]))
        except Budget:
            return
        if len(d.num) > 150:
            return
        u, v = self.vars[i], self.vars[j]
        s = self.signed(d)
        quad = z3.And(u >= 0, v >= 0, u <= 0.5, v <= 0.5)
        self.facts += [z3.Implies(z3.And(quad, s > 0), u > v),
                       z3.Implies(z3.And(quad, s < 0), u < v),
                       z3.Implies(z3.And(quad, s == 0), u == v)]

    def close_rest(self):
        angs, self.angs = self.angs, list(range(99))
        self.close()
        self.angs = angs


def widen(nz, atoms):
    """atoms together with those in the arguments of their sines and cosines"""
    out = set(atoms)
    for i in atoms:
        a = nz.atoms[i]
        if a.kind in ('sin', 'cos') and isinstance(a.data[0], tuple):
            out |= {j for j, _ in a.data[0][0] if j != nz.pi.id}
    return out


def _atoms_of(nz, b):
    out = set()
    for e in X.bool_atoms(b):
        r = nz.norm(e)
        out |= patoms(r.num)
        for f, _ in r.den.values():
            out |= patoms(f)
    return out


def check(nz, hyps, goal=None, timeout=2000, want_model=False):
    """'unsat' (hyps |- goal), 'sat', 'unknown'; optionally with a model"""
    t0 = time.time()
    STATS['z3_queries'] += 1
    try:
        tr = Translator(nz)
        fs = []
        for h in hyps:
            fs.append(tr.boolean(h))
        if goal is not None:
            fs.append(z3.Not(tr.boolean(goal)))
        tr.close()
        s = z3.SolverFor('QF_NRA') if not any(a.integer for a in nz.atoms) else z3.Solver()
        s.set('timeout', timeout)
        for f in tr.facts:
            s.add(f)
        for f in fs:
            s.add(f)
        r = str(s.check())
        m = None
        if r == 'sat' and want_model:
            m = {}
            mod = s.model()
            for i, v in tr.vars.items():
                val = mod.eval(v, model_completion=True)
                try:
                    if z3.is_algebraic_value(val):
                        val = val.approx(20)
                    m[i] = Fraction(val.numerator_as_long(), val.denominator_as_long())
                except Exception:
                    pass
        return (r, m) if want_model else r
    except Budget:
        return ('unknown', None) if want_model else 'unknown'
    finally:
        STATS['z3_time'] += time.time() - t0


def prove(nz, hyps, goal, timeout=2000):
    """True if goal follows from hyps (staged: none, related, all)"""
    try:
        ga = widen(nz, _atoms_of(nz, goal))
    except Budget:
        return False
    rel = []
    for h in hyps:
        try:
            if _atoms_of(nz, h) & ga:
                rel.append(h)
        except Budget:
            pass
    tried = set()
    for hs in ([], rel, hyps):
        k = len(hs)
        if k in tried:
            continue
        tried.add(k)
        if check(nz, hs, goal, timeout=timeout if hs else min(timeout, 1000)) == 'unsat':
            return True
    return False
