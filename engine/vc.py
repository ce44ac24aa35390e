"""Verification-condition generation and discharge.

A contract scenario is a python function `scenario(ctx)` that builds inputs
satisfying the precondition, calls the repository's code and states
postconditions.  It is run
  * symbolically: every feasible path of the real code is explored, each
    postcondition on each path is an obligation for the back ends;
  * concretely: the same text is a run-time contract on the real package.
"""
import contextlib
import hashlib
import itertools
import sys
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np

from . import expr as X
from . import exact, load, npx, smt
from .expr import E, SymBool, State, Unsupported, PathAbort, lift, ZERO, ONE, num
from .norm import Normalizer, Rat, Budget, patoms, CONST, mmul
from .npx import RowArr, SymList, Ctx, sym


class Skip(Exception):
    """concrete sample outside the precondition"""


class Sample(object):
    def __init__(self, seed, overrides=None, scale=None):
        self.seed = seed
        self.overrides = overrides or {}
        self.cache = {}
        self.scale = scale or {}          # input name (or '*') -> factor
        self.path = None
        self.choices = {}                 # scenario parameters the overrides belong to
        self.extreme = bool(self.scale)   # found by going to the limits of a path, not drawn from the generators

    def rng(self, name):
        return np.random.default_rng([self.seed, zlib.crc32(name.encode())])

    def pick(self, name, options):
        """discrete choice tied to the sample (shared between modes)"""
        k = 'pick:' + name
        if k not in self.cache:
            self.cache[k] = int(self.rng(k).integers(len(options)))
        return options[self.cache[k]]

    def draw(self, name, gen):
        if name not in self.cache:
            if name in self.overrides:
                self.cache[name] = self.overrides[name]
            else:
                v = gen(self, self.rng(name))
                k = self.scale.get(name, self.scale.get('*'))
                f = getattr(gen, 'rescale', None)
                if k is not None and f is not None:
                    v = f(v, k)
                self.cache[name] = v
        return self.cache[name]

    def clone(self):
        s = Sample(self.seed, dict(self.overrides), dict(self.scale))
        s.choices = dict(self.choices)
        s.extreme = self.extreme
        return s

    # numeric evaluation protocol -------------------------------------------------
    def value(self, node):
        return self.path.provide(node, self)

    def seg_len(self, seg):
        return int(self.path.numeric_len(seg, self))

    def apply(self, name, args):
        if name.startswith('raster.'):
            return self.path.raster_apps[name[7:]](self, *args)
        return self.path.apply_num(name, args)

    def describe(self):
        return dict(seed=self.seed, overrides={k: repr(v) for k, v in self.overrides.items()}, scale=self.scale)


def _rowat_eval(seg, body, i):
    return body[i] if np.ndim(body) else body


X._NUMF['rowat'] = _rowat_eval


class Obligation(object):
    __slots__ = ('label', 'kind', 'a', 'b', 'cond', 'status', 'backend', 'detail', 'sample',
                 'tol', 'path', 'hyps', 'scale')

    def __init__(self, label, kind, a=None, b=None, cond=None, tol=1e-7, scale=None):
        self.label = label
        self.kind = kind
        self.a = a
        self.b = b
        self.cond = cond
        self.status = None
        self.backend = None
        self.detail = ''
        self.sample = None
        self.tol = tol
        self.scale = scale
        self.hyps = None


class Path(object):
    def __init__(self, explorer, prefix, samples):
        self.ex = explorer
        self.prefix = list(prefix)
        self.trace = []            # decisions taken
        self.pc = []               # SymBools assumed on this path
        self.facts = []            # facts about fresh symbols (contracts of dependencies)
        self.decided = {}
        self.samples = samples
        for s in samples:
            s.path = self
        self.nz = Normalizer()
        self.nz.sign_oracle = self._sign_oracle
        self.nz.seg_lengths = {}
        self._signs = {}
        self.providers = {}
        self.exact = {}            # name -> value in multiple precision (engine/exact.py)
        self.lens = {}
        self.len_index = {}
        self.counter = 0
        self.svds = []
        self.eigs = []
        self.known = []
        self.obligations = []
        self.notes = []
        self.undefined = []
        self.integers = set()
        self.quantiles = []
        self.unwitnessed = False
        self.one_sided = False
        self._in_oracle = False
        self.apps = {}
        self.dots = {}
        self._cs = {}

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    # -- symbols -----------------------------------------------------------------
    def fresh(self, base):
        self.counter += 1
        return '%s%d' % (base, self.counter)

    def add_var(self, name, provider, **decl):
        v = X.var(name)
        self.providers[name] = provider
        self.nz.declare(v, **decl)
        if decl.get('integer'):
            self.integers.add(v.id)
        return v

    def provide(self, node, sample):
        name = node.args[0]
        return self.providers[name](sample)

    def seg_len(self, seg):
        return self.lens[seg]

    def numeric_len(self, seg, sample):
        return self.providers[self.lens[seg].args[0]](sample)

    def new_segment(self, name, ncols, data_of, min_len=1):
        """data_of(sample) -> (n, ncols) float array"""
        nv = self.add_var('n.' + name, lambda s: float(len(data_of(s))), lb=min_len, integer=True)
        self.lens[name] = nv
        self.nz.seg_lengths[name] = nv
        self.len_index[nv.id] = (name,)
        cell = np.empty((ncols,), dtype=object)
        for j in range(ncols):
            r = X.row('%s.%d' % (name, j), name)
            self.providers['%s.%d' % (name, j)] = \
                (lambda s, j=j: np.asarray(data_of(s), dtype=float)[:, j])
            cell[j] = r
            self.nz.variable(r)
        return RowArr((name,), [cell])

    def is_integer(self, e):
        return e.id in self.integers or e.op == 'floor'

    def nonzero(self, e, why):
        self.undefined.append((e, why))

    # -- contracts of dependencies -------------------------------------------------
    def linspace(self, a, b, n, endpoint=True):
        # a function of its arguments: the same call gives the same members
        self.lin_memo = getattr(self, 'lin_memo', {})
        if isinstance(n, E) and X.const_value(n) is not None:
            n = X.const_value(n)
        if not isinstance(n, E):
            n = int(n)
            if n < 4:
                k = n - 1 if endpoint else n
                return np.array([a + (b - a) * num(Fraction(i, k or 1)) for i in range(n)], dtype=object)
        key = (a.id, b.id, n.id if isinstance(n, E) else n, bool(endpoint))
        if key in self.lin_memo:
            return self.lin_memo[key].copy()
        k = self.fresh('lin')
        nm = [k + '.i', k + '.j']

        def prov(idx):
            def f(s):
                t = s.draw(k, lambda s, r: np.sort(r.uniform(0, 1, 2)))
                if s.pick(k + 'edge', range(6)) == 0:
                    t = np.array([0.0, t[1]])
                lo, hi = X.evaluate([a, b], s)
                return float(lo + (hi - lo) * t[idx])
            return f

        def exact_member(ex, i):
            lo, hi = X.evaluate([a, b], ex.sample)
            t = (prov(i)(ex.sample) - lo) / (hi - lo)
            lo, hi = ex.eval([a, b])
            return lo + (hi - lo) * float(t)
        out = np.empty((2,), dtype=object)
        for i in range(2):
            out[i] = self.add_var(nm[i], prov(i))
            self.exact[nm[i]] = lambda ex, i=i: exact_member(ex, i)
        up = X.cmp_('le', a, b)
        if up is X.TRUE:
            self.facts += [a <= out[0], out[0] < out[1], out[1] <= b]
        elif up is X.FALSE:
            self.facts += [b <= out[1], out[1] < out[0], out[0] <= a]
        # the first, any two in between and the last
        out = np.array([a, out[0], out[1]] + ([b] if endpoint else []), dtype=object)
        self.lin_memo[key] = out
        return out.copy()

    def extreme(self, kind, parts):
        """largest or smallest of an expression over data rows: bounded by the mean"""
        self.ext_memo = getattr(self, 'ext_memo', {})
        key = (kind,) + tuple((s, b.id) for s, b in parts)
        if key not in self.ext_memo:
            pick = max if kind == 'max' else min
            f = np.max if kind == 'max' else np.min
            flat = [b for _, b in parts]
            nm = self.fresh(kind)
            decl = dict(nonneg=True) if all(b.op == 'abs' for b in flat) else {}
            v = self.add_var(nm, lambda s: float(pick(f(i) for i in X.evaluate(flat, s))), **decl)
            self.exact[nm] = lambda ex: pick(pick(i) if isinstance(i, np.ndarray) else i for i in ex.eval(flat))
            total, n, sq = X.ZERO, X.ZERO, X.ZERO
            for s, b in parts:
                k = self.lens[s]
                n = n + k
                total = total + (X.seg_sum(s, b) if b.segs else b * k)
                if b.op == 'abs':
                    sq = sq + (X.seg_sum(s, b.args[0] ** 2) if b.segs else b ** 2 * k)
            self.facts.append(X.cmp_('le', total, n * v) if kind == 'max' else X.cmp_('le', n * v, total))
            if decl:
                self.facts.append(X.cmp_('le', sq, n * v ** 2) if kind == 'max' else X.cmp_('le', n * v ** 2, sq))
                if kind == 'max':
                    # one of them is the largest
                    self.facts.append(X.cmp_('le', v ** 2, sq))
            self.ext_memo[key] = v
        return self.ext_memo[key]

    def quantile(self, name, args):
        if name == 'normppf':
            e = X.app(name, *args)
        else:
            e = X.app(name + '+', *args)
        for nm, other, o in self.quantiles:
            # quantile functions are non-decreasing in the probability
            if nm == name and len(other) == len(args) and all(x is y for x, y in zip(other[1:], args[1:])) and o is not e:
                up, dn = X.cmp_('le', other[0], args[0]), X.cmp_('le', args[0], other[0])
                self.facts.append(X.or_(X.not_(up), X.cmp_('le', o, e)))
                self.facts.append(X.or_(X.not_(dn), X.cmp_('le', e, o)))
        self.quantiles.append((name, args, e))
        return e

    def apply_num(self, name, args):
        from scipy import stats
        f = {'fppf': stats.f, 'chi2ppf': stats.chi2, 'normppf': stats.norm}.get(name.rstrip('+'))
        if f is not None:
            return float(f.ppf(*args))
        return self.apps[name](*args)

    def rotation_symbols(self, k, matrix_of, exact_of=None):
        """k x k orthogonal matrix symbols; matrix_of(sample) gives its value (exact_of: in multiple precision)"""
        base = self.fresh('R')
        if exact_of is None:
            def exact_of(ex):
                return exact.lift(np.asarray(matrix_of(ex.sample), dtype=float))
        if k == 3:
            def quat(s):
                V = np.asarray(matrix_of(s), dtype=float)
                g = 1.0 if np.linalg.det(V) > 0 else -1.0
                return g, _quaternion(g * V)
            names = [base + c for c in 'wxyz']
            q = [self.add_var(nm, (lambda s, i=i: quat(s)[1][i])) for i, nm in enumerate(names)]
            g = self.add_var(base + 'g', lambda s: quat(s)[0])
            for i, nm in enumerate(names):
                self.exact[nm] = lambda ex, i=i: ex.quaternion(base, exact_of)[1][i]
            self.exact[base + 'g'] = lambda ex: ex.quaternion(base, exact_of)[0]
            nz = self.nz
            ids = [nz.variable(v).id for v in q]
            nz.declare(q[0], sq={CONST: 1, ((ids[1], 2),): -1, ((ids[2], 2),): -1, ((ids[3], 2),): -1})
            nz.declare(g, sq={CONST: 1})
            w, x, y, z = q
            R = [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                 [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                 [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
            V = np.empty((3, 3), dtype=object)
            for i in range(3):
                for j in range(3):
                    V[i, j] = g * R[i][j]
            return V
        if k == 2:
            def cs(s):
                V = np.asarray(matrix_of(s), dtype=float)
                return V[0, 0], V[0, 1], (1.0 if np.linalg.det(V) > 0 else -1.0)
            c = self.add_var(base + 'c', lambda s: cs(s)[0])
            d = self.add_var(base + 's', lambda s: cs(s)[1])
            g = self.add_var(base + 'g', lambda s: cs(s)[2])

            def ecs(ex):
                V = exact_of(ex)
                n = exact.MP.sqrt(V[0, 0] ** 2 + V[0, 1] ** 2)
                return V[0, 0] / n, V[0, 1] / n
            self.exact[base + 'c'] = lambda ex: ecs(ex)[0]
            self.exact[base + 's'] = lambda ex: ecs(ex)[1]
            ci = self.nz.variable(c).id
            self.nz.declare(d, sq={CONST: 1, ((ci, 2),): -1})
            self.nz.declare(g, sq={CONST: 1})
            V = np.empty((2, 2), dtype=object)
            V[0, 0], V[0, 1], V[1, 0], V[1, 1] = c, d, -g * d, g * c
            return V
        X.unsupported('orthogonal matrix of size %d' % k)

    def _mat_num(self, rows, sample):
        """numeric value of an object array / RowArr at a sample"""
        if isinstance(rows, RowArr):
            blocks = []
            for seg, c in zip(rows.segs, rows.cells):
                n = sample.seg_len(seg)
                vals = X.evaluate(list(c.ravel()), sample)
                blocks.append(np.stack([np.broadcast_to(v, (n,)) for v in vals], axis=1))
            return np.vstack(blocks)
        a = np.asarray(rows)
        return np.array(X.evaluate(list(a.ravel()), sample), dtype=float).reshape(a.shape)

    def svd(self, a, full_matrices=True, compute_uv=True):
        if isinstance(a, RowArr):
            if a.pos != 0 or a.ndim != 2:
                X.unsupported('svd of a transposed data array')
            if full_matrices and compute_uv:
                X.unsupported('full svd of a data array')
            k = a.trail[0]
            rows = [[self.nz.norm(e) for e in c] for c in a.cells]
            for (b, brows, s, V) in self.svds:
                if b.segs == a.segs and b.trail == a.trail and all(
                        self.nz.iszero(self.nz.rsub(x, y))
                        for p, q in zip(rows, brows) for x, y in zip(p, q)):
                    break
            else:
                r = self._scaled(a, rows)
                if r is not None:
                    s, V = r
                    if not compute_uv:
                        return s
                    return npx.rdot(a, V.T) / s, s, V
                b = a.copy()
                s, V = self._svd_symbols(k, lambda smp: self._mat_num(b, smp), lambda ex: ex.matrix(b))
                self.svds.append((b, rows, s, V))
                self._svd_rules(b, s, V)
            V = V.copy()
            s = s.copy()
            if not compute_uv:
                return s
            U = npx.rdot(a, V.T) / s
            return U, s, V
        a = np.asarray(sym(a))
        if a.ndim != 2 or a.shape[0] != a.shape[1]:
            X.unsupported('svd of a %r array' % (a.shape,))
        k = a.shape[0]
        norms = [self.nz.norm(e) for e in a.ravel()]
        for (m, mn, s, V, sg) in self.known:
            if m.shape == a.shape and all(self.nz.iszero(self.nz.rsub(x, y)) for x, y in zip(norms, mn)):
                # symmetric semi-definite: U = V^T or -V^T
                return sg * V.T, s.copy(), V.copy()
        s, V = self._svd_symbols(k, lambda smp: self._mat_num(a, smp), lambda ex: ex.matrix(a))
        U = self.rotation_symbols(k, lambda smp: np.linalg.svd(self._mat_num(a, smp))[0])
        self.note('svd of an unrecognised matrix: only orthonormality and ordering are known')
        return U, s, V

    def _scaled(self, a, rows):
        """A = k*B with the SVD of B known: singular values scale, right vectors agree up to sign
        (singular values assumed distinct)"""
        nz = self.nz
        for (b, brows, s, V) in self.svds:
            if b.segs != a.segs or b.trail != a.trail or not brows[0][0].num or not rows[0][0].num:
                continue
            try:
                k = nz.rmul(rows[0][0], nz.rinv(brows[0][0]))
                if any(nz.atoms[i].row for i in patoms(k.num)) or any(
                        nz.atoms[i].row for f, _ in k.den.values() for i in patoms(f)):
                    continue
                if not all(nz.iszero(nz.rsub(x, nz.rmul(k, y))) for p, q in zip(rows, brows) for x, y in zip(p, q)):
                    continue
            except Budget:
                continue
            # k as an expression: ratio of the first cells, evaluated at any row
            n, m = len(a.trail), V.shape[0]
            ke = X.fabs(self._rat_expr(k))
            self.note('SVD of a scaled array: right singular vectors agree up to sign (distinct singular values)')
            base = self.fresh('sg')
            A = a.copy()

            def sign_of(smp, i):
                v1 = np.linalg.svd(self._mat_num(A, smp), full_matrices=False)[2][i]
                v0 = np.array(X.evaluate(list(V[i]), smp), dtype=float)
                return 1.0 if float(v0 @ v1) >= 0 else -1.0
            g = []
            for i in range(m):
                v = self.add_var('%s.%d' % (base, i), (lambda smp, i=i: sign_of(smp, i)))
                nz.declare(v, sq={CONST: 1})
                g.append(v)
            s2 = np.empty((m,), dtype=object)
            V2 = np.empty(V.shape, dtype=object)
            for i in range(m):
                s2[i] = ke * s[i]
                for j in range(V.shape[1]):
                    V2[i, j] = g[i] * V[i, j]
            return s2, V2
        return None

    def _rat_expr(self, r):
        def poly(p):
            t = ZERO
            for m, c in p.items():
                v = num(c)
                for i, e in m:
                    at = self.nz.atoms[i]
                    if at.kind != 'var':
                        X.unsupported('scale factor is not a variable')
                    for _ in range(abs(e)):
                        v = v * at.data if e > 0 else v / at.data
                t = t + v
            return t
        d = ONE
        for f, mult in r.den.values():
            for _ in range(mult):
                d = d * poly(f)
        return poly(r.num) / d

    def _svd_symbols(self, k, num_of, exact_of):
        base = self.fresh('svd')

        def dec(smp):
            key = base + '#'
            if key not in smp.cache or smp.cache[key][0] is not self:
                smp.cache[key] = (self, np.linalg.svd(num_of(smp), full_matrices=False))
            return smp.cache[key][1]
        s = np.empty((k,), dtype=object)
        for i in range(k):
            s[i] = self.add_var('%s.s%d' % (base, i), (lambda smp, i=i: float(dec(smp)[1][i])), nonneg=True)
            self.exact['%s.s%d' % (base, i)] = lambda ex, i=i: ex.svd(base, exact_of, dec)[0][i]
        for i in range(k - 1):
            self.facts.append(s[i] >= s[i + 1])
        V = self.rotation_symbols(k, lambda smp: dec(smp)[2], lambda ex: ex.svd(base, exact_of, dec)[1])
        return s, V

    def _svd_rules(self, a, s, V):
        """sum_rows y_i y_j = (V^T S^2 V)_ij, oriented as rewrite rules"""
        k = a.trail[0]
        nz = self.nz
        for i in range(k):
            for j in range(i, k):
                t = ZERO
                for seg, c in zip(a.segs, a.cells):
                    v = c[i] * c[j]
                    t = t + (X.seg_sum(seg, v) if v.segs else v * self.lens[seg])
                lhs = nz.norm(t)
                rhs = nz.norm(sum((V[m, i] * s[m] * s[m] * V[m, j] for m in range(k)), ZERO))
                if not nz.solve_sum(lhs, rhs):
                    self.note('second-moment relation of the SVD could not be oriented')

    def register_psd(self, A, s, V, sign=1):
        """A = V^T diag(s) V known to the caller (s sorted, >= 0), or its negative"""
        A = np.asarray(A)
        self.known.append((A, [self.nz.norm(e) for e in A.ravel()], np.asarray(s), np.asarray(V), sign))

    def register_eig(self, A, w, V):
        """A = V^T diag(w) V known to the caller (w ascending, any sign)"""
        A = np.asarray(A)
        self.eigs.append((A, [self.nz.norm(e) for e in A.ravel()], np.asarray(w), np.asarray(V)))

    def eigh(self, a):
        a = np.asarray(sym(a))
        norms = [self.nz.norm(e) for e in a.ravel()]
        known = [(m, mn, s[::-1], V[::-1]) if sg > 0 else (m, mn, -s, V)
                 for m, mn, s, V, sg in self.known] + self.eigs
        for (m, mn, w, V) in known:
            if m.shape == a.shape and all(self.nz.iszero(self.nz.rsub(x, y)) for x, y in zip(norms, mn)):
                return w.copy(), V.T.copy()
        for (m, mn, w, V) in known:
            if m.shape != a.shape:
                continue
            # A = k*M: eigenvalues scale, eigenvectors agree
            for i, y in enumerate(mn):
                if y.num:
                    break
            else:
                continue
            try:
                k = self.nz.rmul(norms[i], self.nz.rinv(mn[i]))
                if not k.num or not all(self.nz.iszero(self.nz.rsub(x, self.nz.rmul(k, y))) for x, y in zip(norms, mn)):
                    continue
            except Budget:
                continue
            ke = self._rat_expr(k)
            w = np.array([ke * x for x in w], dtype=object)
            if bool(ke > 0):
                return w, V.T.copy()
            return w[::-1].copy(), V[::-1].T.copy()
        X.unsupported('eigh of an unrecognised matrix')

    def expm(self, A):
        A = np.asarray(sym(A))
        if A.shape != (3, 3):
            X.unsupported('expm of size %r' % (A.shape,))
        for i in range(3):
            for j in range(3):
                if not self.nz.iszero(self.nz.norm(A[i, j] + A[j, i])):
                    X.unsupported('expm of a non-skew matrix')
        th = X.sqrt(A[2, 1] ** 2 + A[0, 2] ** 2 + A[1, 0] ** 2)
        self.nonzero(th, 'rotation angle')
        A2 = np.dot(A, A)
        s, c = X.sin(th), X.cos(th)
        out = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                out[i, j] = num(int(i == j)) + s / th * A[i, j] + (1 - c) / (th * th) * A2[i, j]
        return out

    # -- branching ------------------------------------------------------------------
    def hyps(self):
        return self.facts + self.pc

    def _sign_oracle(self, p):
        key = frozenset(p.items())
        if key in self._signs:
            return self._signs[key]
        if self._in_oracle:
            return None
        self._in_oracle = True
        r = None
        try:
            if len(p) <= 40:
                vals = []
                for s in self.samples[:12]:
                    try:
                        vals.append(self.eval_poly(p, s))
                    except Exception:
                        pass
                for sg in (1, -1):
                    if all(sg * v >= -1e-9 for v in vals):
                        g = self.poly_expr(p)
                        if g is None:
                            break
                        if smt_sign(self, p, sg):
                            r = sg
                            break
        finally:
            self._in_oracle = False
        self._signs[key] = r
        return r

    def poly_expr(self, p):
        return p

    def eval_atom(self, i, s):
        a = self.nz.atoms[i]
        k = a.kind
        if k in ('var', 'row'):
            return s.value(a.data)
        if k == 'pi':
            return np.pi
        if k == 'sqrt':
            return np.sqrt(max(0.0, self.eval_rat(a.data, s)))
        if k == 'abs':
            return abs(self.eval_rat(a.data, s))
        if k == 'ang':
            return np.arctan2(self.eval_rat(a.data[0], s), self.eval_rat(a.data[1], s)) / np.pi
        if k in ('cos', 'sin'):
            m, unit = a.data[0]
            v = float(unit)
            for x, e in m:
                v *= self.eval_atom(x, s) ** e
            return np.cos(v) if k == 'cos' else np.sin(v)
        if k in ('ocos', 'osin'):
            v = self.eval_rat(a.data[0], s)
            return np.cos(v) if k == 'ocos' else np.sin(v)
        if k == 'sum':
            seg, rm = a.data
            v = np.ones(s.seg_len(seg))
            for x, e in rm:
                v = v * self.eval_atom(x, s) ** e
            return float(np.sum(v))
        if k == 'floor':
            return np.floor(self.eval_rat(a.data[0], s))
        if k.startswith('app:'):
            return self.apply_num(k[4:], [self.eval_rat(r, s) for r in a.data])
        f = X._NUMF.get(k)
        if f is not None and k != 'rowat':
            return f(*[self.eval_rat(r, s) for r in a.data])
        raise ValueError(k)

    def eval_poly(self, p, s):
        t = 0.0
        for m, c in p.items():
            v = float(c)
            for a, e in m:
                v = v * self.eval_atom(a, s) ** e
            t = t + v
        return t

    def eval_rat(self, r, s):
        d = 1.0
        for f, m in r.den.values():
            d *= self.eval_poly(f, s) ** m
        return self.eval_poly(r.num, s) / d

    def decide(self, cond):
        try:
            return self._decide(cond)
        except Budget as b:
            X.unsupported('normal form budget exceeded (%s)' % b)

    def _decide(self, cond):
        key = cond.key()
        if key in self.decided:
            return self.decided[key]
        k = len(self.trace)
        T, F = [], []
        for s in self.samples:
            v = X.eval_bool(cond, s, 1e-13)      # rounding-level margins witness nothing
            if v is True:
                T.append(s)
            elif v is False:
                F.append(s)
        if k < len(self.prefix):
            choice, wit = self.prefix[k]
            self.trace.append((choice, wit))
            if wit == 'forced':
                self.decided[key] = choice
                return choice
        else:
            forced = None
            if not (T and F):
                forced = self._one_sided(cond, T, F)
            if forced is not None:
                self.trace.append((forced, 'forced'))
                self.decided[key] = forced
                return forced
            if len(self.trace) > self.ex.max_depth:
                X.unsupported('too many branches on one path')
            choice = len(T) >= len(F) if self.one_sided else bool(T) or not F
            self.trace.append((choice, bool(T)))
            if self.one_sided:
                self.note('branches on data inside the member fits are followed on one side only')
            else:
                self.ex.push(self.trace[:-1] + [(not choice, bool(F) if choice else bool(T))])
        c = cond if choice else X.not_(cond)
        self.pc.append(c)
        self.samples = T if choice else F
        if not self.samples:
            self.unwitnessed = True
        self.decided[key] = choice
        self._signs.clear()
        return choice

    def _one_sided(self, cond, T, F):
        """all known samples agree: is the other side infeasible?"""
        goal = cond if (T or not F) else X.not_(cond)
        want = bool(T) or not F
        if not T and not F:
            # unwitnessed path: either side may be excluded
            if self._quick(X.not_(cond)):
                return False
            if smt.prove(self.nz, self.hyps(), X.not_(cond), timeout=self.ex.branch_timeout):
                return False
        fast = self._quick(goal)
        if fast:
            return want
        if smt.prove(self.nz, self.hyps(), goal, timeout=self.ex.branch_timeout):
            return want
        # look for a witness of the other side
        other = X.not_(goal)
        for s in self.ex.search(self, other):
            (F if want else T).append(s)
            s.path = self
        return None

    def cauchy_schwarz(self, x):
        """|x| <= 1 because x = a.b / (|a||b|)"""
        if x.id in self._cs:
            return self._cs[x.id]
        r = False
        neg = x
        while neg.op == 'neg':
            neg = neg.args[0]
        for top, den in ((neg, ONE), (neg.args[0], neg.args[1]) if neg.op == 'div' else (neg, ONE)):
            ab = self.dots.get(top.id)
            if ab is None:
                continue
            a2 = sum((e * e for e in ab[0]), ZERO)
            b2 = sum((e * e for e in ab[1]), ZERO)
            nz = self.nz
            d = nz.rsub(nz.norm(den * den), nz.norm(a2 * b2))
            if not d.num:
                r = True
                break
        self._cs[x.id] = r
        return r

    def _quick(self, goal):
        if goal.op == 'le':
            a, b = goal.args
            if b is ONE and self.cauchy_schwarz(a):
                return True
            if a.op == 'num' and a.args[0] == -1 and self.cauchy_schwarz(b):
                return True
            if a.op == 'num' and a.args[0] <= 0 and X.nonneg(b):
                return True
        if goal.op in ('lt', 'le'):
            r = self.nz.norm(goal.args[1] - goal.args[0])
            s = self.nz.sign(r.num)
            if s is None:
                return False
            for f, m in r.den.values():
                if m % 2:
                    t = self.nz.sign(f)
                    if t is None:
                        return False
                    s *= t
            if goal.op == 'le':
                return s > 0
            c = self.nz.rconst(r)
            if c is not None:
                return c > 0
            return False
        if goal.op == 'eq':
            return self.nz.iszero(self.nz.norm(goal.args[0] - goal.args[1]))
        return False

    def _assumed(self, goal):
        """the goal is one of the hypotheses, up to normal form"""
        g = None
        for h in self.hyps():
            if h.op == goal.op or (h.op == 'lt' and goal.op == 'le'):
                if all(x is y for x, y in zip(h.args, goal.args)):
                    return True
                if any(len(X.free(x)) > 60 for x in h.args):
                    continue
                if g is None:
                    g = self.nz.norm(goal.args[1] - goal.args[0])
                if self.nz.iszero(self.nz.rsub(g, self.nz.norm(h.args[1] - h.args[0]))):
                    return True
        return False

    # -- discharge ---------------------------------------------------------------------
    def _numeric(self, ob):
        """(refuting sample, description) or None"""
        for s in self.samples[:self.ex.refute_samples + len(getattr(self, 'enriched', None) or ())]:
            try:
                if ob.kind == 'eq':
                    a, b = X.evaluate([ob.a, ob.b], s)
                    if not _close(a, b, ob.tol):
                        return s, '%r != %r' % (_short(a), _short(b))
                elif ob.kind in ('le', 'lt'):
                    a, b = X.evaluate([ob.a, ob.b], s)
                    if np.any(a > b + max(ob.tol, 1e-12) * (1 + np.abs(a) + np.abs(b))):
                        return s, '%r > %r' % (_short(a), _short(b))
                else:
                    v = X.eval_bool(ob.cond, s, 1e-7)
                    if v is False:
                        return s, 'condition is false'
            except Exception as err:
                self.note('numeric evaluation: %s' % err)
        return None

    def defined(self, ob):
        """a proof about an expression that is undefined (nan) at a witness does not count"""
        if ob.status != 'proved' or ob.a is None:
            return
        for s in self.samples[:4]:
            a, b = X.evaluate([ob.a, ob.b], s)
            if np.any(np.isnan(a)) or np.any(np.isnan(b)):
                # rounding may matter here: have the real code run on this input
                if len(self.ex.fragile) < 6:
                    self.ex.fragile.append((s, dict(self.ex.cur.choices)))
                a, b = X.evaluate([ob.a, ob.b], s, exact=True)
            if np.any(np.isnan(a)) or np.any(np.isnan(b)):
                ob.status, ob.sample = 'unknown', s
                ob.detail = 'undefined at a witness input'
                return

    def discharge(self, ob, deadline):
        nz = self.nz
        nz.deadline = min(deadline, time.time() + self.ex.ob_seconds)
        try:
            if ob.kind == 'eq':
                r = nz.rsub(nz.norm(ob.a), nz.norm(ob.b))
                if not r.num:
                    ob.status, ob.backend = 'proved', 'algebra'
                    return
                ob.detail = 'residual %s' % nz.poly_str(r.num, 4)
            elif ob.kind in ('le', 'lt'):
                goal = X.cmp_(ob.kind, ob.a, ob.b)
                if goal is X.TRUE or (goal.op != 'const' and self._quick(goal)):
                    ob.status, ob.backend = 'proved', 'algebra'
                    return
                if goal.op != 'const' and ob.hyps is None and self._assumed(goal):
                    ob.status, ob.backend = 'proved', 'assumption'
                    return
        except Budget as b:
            ob.detail = 'normal form: %s' % b
        except Unsupported as u:
            ob.detail = 'normal form: %s' % u
            State.unsupported.pop()
        ref = self._numeric(ob)
        if ref is not None:
            ob.status, ob.sample, ob.detail = 'refuted', ref[0], ref[1] + ' | ' + ob.detail
            return
        nz.deadline = min(deadline, time.time() + self.ex.ob_seconds)
        try:
            if ob.kind in ('eq', 'le', 'lt'):
                goal = X.cmp_(ob.kind, ob.a, ob.b)
            else:
                goal = ob.cond
            if goal.op == 'const':
                ob.status = 'proved' if goal.args[0] else 'refuted'
                ob.backend = 'constant'
                if ob.status == 'proved':
                    return
            elif smt.prove(nz, self.hyps() if ob.hyps is None else ob.hyps, goal, timeout=self.ex.smt_timeout):
                ob.status, ob.backend = 'proved', 'z3'
                return
        except Budget as b:
            ob.detail += ' smt: %s' % b
        except Unsupported as u:
            ob.detail += ' smt: %s' % u
            State.unsupported.pop()
        if ob.status is None:
            ob.status = 'unknown'
        if ob.status == 'unknown' and self.ex.more(self):
            # witnesses of other magnitudes
            ref = self._numeric(ob)
            if ref is not None:
                ob.status, ob.sample, ob.detail = 'refuted', ref[0], ref[1] + ' | ' + ob.detail


def smt_sign(path, p, sg):
    """PC |- sg*p >= 0 ?"""
    nz = path.nz
    t0 = time.time()
    try:
        tr = smt.Translator(nz)
        pa = smt.widen(nz, patoms(p))
        goal = tr.poly(p) * sg >= 0
        hs = []
        for h in path.hyps():
            try:
                if smt._atoms_of(nz, h) & pa:
                    hs.append(tr.boolean(h))
            except Budget:
                pass
        tr.close()
        s = smt.z3.Solver()
        s.set('timeout', 800)
        for f in tr.facts + hs:
            s.add(f)
        s.add(smt.z3.Not(goal))
        smt.STATS['z3_queries'] += 1
        return str(s.check()) == 'unsat'
    except Budget:
        return False
    finally:
        smt.STATS['z3_time'] += time.time() - t0


def _quaternion(R):
    K = np.array([
        [R[0, 0] - R[1, 1] - R[2, 2], 0, 0, 0],
        [R[0, 1] + R[1, 0], R[1, 1] - R[0, 0] - R[2, 2], 0, 0],
        [R[0, 2] + R[2, 0], R[1, 2] + R[2, 1], R[2, 2] - R[0, 0] - R[1, 1], 0],
        [R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1], R[0, 0] + R[1, 1] + R[2, 2]]]) / 3
    w, v = np.linalg.eigh(K)
    x, y, z, w = v[:, -1]
    return np.array([w, x, y, z])


def _close(a, b, tol):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return True      # outside the defined region: decided by the concrete run
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b)))))


def _short(v):
    v = np.asarray(v)
    return float(v) if v.ndim == 0 else [float(i) for i in v.ravel()[:3]]


# ---------------------------------------------------------------------------
class SymCtx(object):
    """contract context, symbolic mode"""
    symbolic = True

    def __init__(self, path):
        self.path = path
        self.np = npx.NP
        self.world = load.SymWorld()

    def mod(self, name):
        return self.world.load(name)

    def fresh(self):
        """a second instance of the package, with no history: returns its `mod`"""
        return load.SymWorld().load

    # inputs
    def real(self, name, gen, **decl):
        self.path.ex.declare(name, gen)
        return self.path.add_var(name, lambda s: float(s.draw(name, gen)), **decl)

    def vec(self, name, k, gen, **decl):
        self.path.ex.declare(name, gen)
        o = np.empty((k,), dtype=object)
        for i in range(k):
            o[i] = self.path.add_var('%s.%d' % (name, i),
                                     (lambda s, i=i: float(s.draw(name, gen)[i])), **decl)
        return o

    def mat(self, name, shape, gen, **decl):
        self.path.ex.declare(name, gen)
        o = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            nm = name + '.' + '.'.join(map(str, idx))
            o[idx] = self.path.add_var(nm, (lambda s, idx=idx: float(np.asarray(s.draw(name, gen))[idx])), **decl)
        return o

    def orthogonal(self, name, gen, k=3):
        return self.path.rotation_symbols(k, lambda s: s.draw(name, gen))

    def data(self, name, gen, ncols=3, min_len=1):
        self.path.ex.declare(name, gen)
        return self.path.new_segment(name, ncols, lambda s: s.draw(name, gen), min_len)

    def mag(self, *arrays, **k):
        """magnitude of the arrays: unit of length of a comparison (run-time contracts only)"""
        return None

    def choose(self, name, options):
        """scenario parameter enumerated exhaustively: forks on every option"""
        ex = self.path.ex
        return ex.choose(self.path, name, options)

    def assume(self, cond, why=''):
        c = X.tobool(cond)
        if c.op == 'const':
            if not c.args[0]:
                raise PathAbort('precondition false')
            return
        self.path.pc.append(c)
        self.path.decided[c.key()] = True
        self.path.samples = [s for s in self.path.samples if X.eval_bool(c, s)]

    def unit(self, name, gen, k=3):
        """arbitrary unit vector"""
        v = self.vec(name, k, gen)
        for i in range(k):
            def unit(ex, i=i):
                w = exact.lift(np.asarray(ex.sample.draw(name, gen), dtype=float))
                return w[i] / exact.MP.sqrt(sum(w * w))
            self.path.exact['%s.%d' % (name, i)] = unit
        nz = self.path.nz
        ids = [nz.variable(e).id for e in v]
        sq = {CONST: 1}
        for i in ids[1:]:
            sq[((i, 2),)] = -1
        nz.declare(v[0], sq=sq)
        return v

    def known_svd(self, A, s, V, sign=1):
        """A is V^T diag(s) V with V orthogonal, s sorted and >= 0, or its negative (checked here, then used
        as the contract of the decomposition routines on A)"""
        s, V = np.asarray(s), np.asarray(V)
        self.eq('decomposition of the input', np.dot(V.T * s, V) * sign, np.asarray(A))
        self.path.register_psd(A, s, V, sign)

    def known_eig(self, A, w, V):
        """A is V^T diag(w) V with V orthogonal and w ascending, of any sign (checked here, then used as
        the contract of the routines for symmetric matrices)"""
        w, V = np.asarray(w), np.asarray(V)
        self.eq('decomposition of the input', np.dot(V.T * w, V), np.asarray(A))
        for i in range(len(w) - 1):
            self.le('order of the decomposition (%d)' % i, w[i], w[i + 1])
        self.path.register_eig(A, w, V)

    def lemma(self, label, exprs, hyps, goal, keep=False):
        """cut rule: hyps(exprs) become obligations, and goal(g) is proved from hyps(g) for
        arbitrary reals g, hence holds at exprs.  hyps/goal return (op, a, b) triples.
        keep: later obligations of the path may use the conclusion"""
        path = self.path
        for j, (op, a, b) in enumerate(hyps(exprs)):
            getattr(self, op)('%s / premise %d' % (label, j), a, b)
        g = []
        for e in exprs:
            e = lift(e)
            g.append(path.add_var(path.fresh('g'), (lambda s, e=e: X.evaluate([e], s)[0])))
            path.exact[g[-1].args[0]] = lambda ex, e=e: ex.eval([e])[0]
        hs = [X.cmp_(op, lift(a), lift(b)) for op, a, b in hyps(g)]
        op, a, b = goal(g)
        ob = Obligation(label, op, lift(a), lift(b), tol=1e-7)
        ob.hyps = hs
        path.obligations.append(ob)
        if keep:
            op, a, b = goal(exprs)
            path.facts.append(X.cmp_(op, lift(a), lift(b)))

    @contextlib.contextmanager
    def one_side(self):
        """a declared restriction: branches taken in here are not forked"""
        old, self.path.one_sided = self.path.one_sided, True
        try:
            yield
        finally:
            self.path.one_sided = old

    def abstract(self, a):
        """forget how a value was computed: arbitrary reals with the same witness values
        (callers see a callee through what its contract says, proved elsewhere)"""
        path = self.path
        a = np.asarray(sym(a))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            e = lift(a[i])
            out[i] = path.add_var(path.fresh('k'), (lambda s, e=e: X.evaluate([e], s)[0]))
            path.exact[out[i].args[0]] = lambda ex, e=e: ex.eval([e])[0]
        return out

    def abstract_rotation(self, label, a):
        """the same for a matrix with orthonormal rows, of which only that is kept (and proved here)"""
        a = np.asarray(sym(a))
        k = a.shape[0]
        self.eq(label, np.dot(a, a.T), np.identity(k))
        es = [lift(x) for x in a.ravel()]
        return self.path.rotation_symbols(k, lambda s: np.array(X.evaluate(es, s), dtype=float).reshape(k, k),
                                          lambda ex: np.array(ex.eval(es), dtype=object).reshape(k, k))

    # contract of a dependency or lemma used as a hypothesis
    def fact(self, cond):
        self.path.facts.append(X.tobool(cond))

    # postconditions
    def _add(self, *a, **k):
        self.path.obligations.append(Obligation(*a, **k))

    def eq(self, label, a, b, tol=1e-7, scale=None):
        for i, (x, y) in enumerate(_pairs(label, a, b)):
            self._add('%s[%d]' % (label, i) if i else label, 'eq', x, y, tol=tol)

    def le(self, label, a, b, tol=1e-9):
        for i, (x, y) in enumerate(_pairs(label, a, b)):
            self._add('%s[%d]' % (label, i) if i else label, 'le', x, y, tol=tol)

    def lt(self, label, a, b, tol=0.0):
        for i, (x, y) in enumerate(_pairs(label, a, b)):
            self._add('%s[%d]' % (label, i) if i else label, 'lt', x, y, tol=tol)

    def true(self, label, cond):
        c = X.tobool(cond)
        self._add(label, 'bool', cond=c)

    def fail(self, label, why):
        ob = Obligation(label, 'bool', cond=X.FALSE)
        ob.detail = why
        self.path.obligations.append(ob)

    def shape(self, label, a, shape):
        got = tuple(getattr(a, 'shape', ()))
        self.true(label, len(got) == len(shape) and all(
            (x == y) if not isinstance(x, E) and not isinstance(y, E) else lift(x) is lift(y)
            for x, y in zip(got, shape)))

    def quantile(self, name, *args):
        return self.path.quantile(name, tuple(lift(a) for a in args))

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self.true(label, True)
            return True
        self.fail(label, 'expected %s' % exc)
        return False

    def snapshot(self, a):
        if isinstance(a, RowArr):
            return a.copy()
        if isinstance(a, np.ndarray):
            return np.array(a)
        return a

    def unchanged(self, label, a, snap):
        self.eq(label, a, snap)

    def only_concrete(self):
        return False

    def exhaustive_done(self):
        pass


def _pairs(label, a, b):
    if isinstance(a, SymList):
        a = a.arr
    if isinstance(b, SymList):
        b = b.arr
    if isinstance(a, RowArr) or isinstance(b, RowArr):
        if not isinstance(a, RowArr):
            a, b = b, a
        if isinstance(b, RowArr):
            if a.segs != b.segs or a.trail != b.trail or a.pos != b.pos or a.rev != b.rev:
                raise ShapeMismatch('%s: %r vs %r' % (label, a.trail, b.trail))
            return [(x, y) for c, d in zip(a.cells, b.cells) for x, y in zip(c.ravel(), d.ravel())]
        d = a - b
        return [(x, ZERO) for c in d.cells for x in c.ravel()]
    a, b = np.asarray(sym(a)), np.asarray(sym(b))
    if a.shape != b.shape:
        if b.ndim == 0 or a.ndim == 0:
            a, b = np.broadcast_arrays(a, b)
        else:
            raise ShapeMismatch('%s: shapes %r vs %r' % (label, a.shape, b.shape))
    return list(zip(a.ravel(), b.ravel()))


class ShapeMismatch(Exception):
    pass


class Failure(object):
    def __init__(self, label, detail):
        self.label = label
        self.detail = detail


def _fresh_package(name):
    """import a module of the package anew, beside the one in use"""
    import importlib
    keep = {k: m for k, m in sys.modules.items() if k == 'attitude' or k.startswith('attitude.')}
    for k in keep:
        del sys.modules[k]
    try:
        return importlib.import_module(name)
    finally:
        for k in [k for k in sys.modules if k == 'attitude' or k.startswith('attitude.')]:
            del sys.modules[k]
        sys.modules.update(keep)


class NumCtx(object):
    """contract context, concrete mode: run-time contract on the real package"""
    symbolic = False

    def __init__(self, sample, choices=None):
        self.sample = sample
        self.np = np
        self.failures = []
        self.checked = 0
        self.values = {}
        self.choices = choices or {}

    def mod(self, name):
        import importlib
        return importlib.import_module(name)

    def fresh(self):
        return _fresh_package

    def _declared(self, v, decl):
        if decl.get('pos'):
            self.assume(np.all(v > 0))
        if 'lb' in decl:
            self.assume(np.all(v >= decl['lb']))
        return v

    def real(self, name, gen, **decl):
        return self._declared(np.float64(self.sample.draw(name, gen)), decl)

    def vec(self, name, k, gen, **decl):
        return self._declared(np.array(self.sample.draw(name, gen)), decl)

    def mat(self, name, shape, gen, **decl):
        return self._declared(np.array(self.sample.draw(name, gen)), decl)

    def orthogonal(self, name, gen, k=3):
        return np.array(self.sample.draw(name, gen))

    def data(self, name, gen, ncols=3, min_len=1):
        return np.array(self.sample.draw(name, gen))

    def mag(self, *arrays, **k):
        """magnitude of the arrays (those under `off` count with the precision of floats only)"""
        m = max(float(np.max(np.abs(a), initial=0)) for a in arrays)
        o = max([float(np.max(np.abs(a), initial=0)) for a in k.get('off', ())] or [0])
        return (m + 1e-7 * o + 1e-280) ** k.get('power', 1)

    def choose(self, name, options):
        if name in self.choices:
            return options[self.choices[name]]
        return self.sample.pick('choose:' + name, options)

    def assume(self, cond, why=''):
        if not bool(cond):
            raise Skip(why)

    def fact(self, cond):
        pass

    def unit(self, name, gen, k=3):
        v = self.vec(name, k, gen)
        self.assume(abs(float(np.dot(v, v)) - 1) < 1e-9)
        return v

    def known_svd(self, A, s, V, sign=1):
        pass

    def known_eig(self, A, w, V):
        pass

    def abstract(self, a):
        return a

    def abstract_rotation(self, label, a):
        self.eq(label, np.dot(a, np.transpose(a)), np.identity(len(a)))
        return a

    def one_side(self):
        return contextlib.nullcontext()

    def lemma(self, label, exprs, hyps, goal, keep=False):
        for j, (op, a, b) in enumerate(hyps(exprs)):
            getattr(self, op)('%s / premise %d' % (label, j), a, b)
        op, a, b = goal(exprs)
        getattr(self, op)(label, a, b)

    def _rec(self, label, ok, detail, a=None, b=None):
        self.checked += 1
        self.values[label] = (a, b)
        if not ok:
            self.failures.append(Failure(label, detail))

    def eq(self, label, a, b, tol=1e-7, scale=None):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape and a.ndim and b.ndim:
            return self._rec(label, False, 'shape %r, expected %r' % (a.shape, b.shape))
        sc = scale if scale is not None else 1 + max(np.max(np.abs(a), initial=0), np.max(np.abs(b), initial=0))
        ok = bool(np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and np.all(np.abs(a - b) <= tol * sc))
        self._rec(label, ok, '' if ok else '%s, expected %s' % (_arr(a), _arr(b)), a, b)

    def le(self, label, a, b, tol=1e-9):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = bool(np.all(a <= b + tol * (1 + np.abs(a) + np.abs(b))))
        self._rec(label, ok, '' if ok else '%s is not <= %s' % (_arr(a), _arr(b)), a, b)

    def lt(self, label, a, b, tol=0.0):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = bool(np.all(a < b + tol * (1 + np.abs(a) + np.abs(b))))
        self._rec(label, ok, '' if ok else '%s is not < %s' % (_arr(a), _arr(b)), a, b)

    def true(self, label, cond):
        ok = bool(np.all(cond))
        self._rec(label, ok, '' if ok else 'condition is false')

    def fail(self, label, why):
        self._rec(label, False, why)

    def shape(self, label, a, shape):
        got = tuple(np.shape(a))
        want = tuple(int(i) for i in shape)
        self._rec(label, got == want, '' if got == want else 'shape %r, expected %r' % (got, want))

    def quantile(self, name, *args):
        from scipy import stats
        return {'fppf': stats.f, 'chi2ppf': stats.chi2, 'normppf': stats.norm}[name].ppf(*args)

    def raises(self, label, exc, fn):
        try:
            fn()
        except exc:
            self._rec(label, True, '')
            return True
        except Exception as e:
            self._rec(label, False, 'raised %r instead of %s' % (e, exc))
            return False
        self._rec(label, False, 'did not raise %s' % (exc,))
        return False

    def snapshot(self, a):
        return np.array(a)

    def unchanged(self, label, a, snap):
        a = np.asarray(a)
        ok = a.shape == snap.shape and bool(np.array_equal(a, snap, equal_nan=True))
        self._rec(label, ok, '' if ok else 'changed from %s to %s' % (_arr(snap), _arr(a)))

    def only_concrete(self):
        return True


def _arr(a):
    s = np.array2string(np.asarray(a), threshold=12, precision=10)
    return s if len(s) < 400 else s[:400] + '...'


# ---------------------------------------------------------------------------
SCALES = (1e-3, 1e3, 1e-2, 1e2, 0.1, 10.0, 1e-4, 1e4, 1e-6, 1e6, 1e-8, 1e8)


class PathResult(object):
    def __init__(self):
        self.obligations = []
        self.status = 'ok'       # ok | unsupported | exception | infeasible
        self.detail = ''
        self.path = None
        self.choices = {}


class Explorer(object):
    def __init__(self, scenario, seed=1, n_samples=40, max_paths=48, seconds=25.0,
                 smt_timeout=3000, branch_timeout=700, ob_seconds=8.0, style=None):
        self.scenario = scenario
        self.seed = seed
        self.n_samples = n_samples
        self.max_paths = max_paths
        self.max_depth = 40
        self.seconds = seconds
        self.smt_timeout = smt_timeout
        self.branch_timeout = branch_timeout
        self.ob_seconds = ob_seconds
        self.refute_samples = 6
        self.work = []
        self.results = []
        self.functions = set()
        self.directed = []
        self.fragile = []
        self.truncated = False
        self.search_budget = 8
        self.current_gens = {}

    def push(self, prefix):
        self.work.append(prefix)

    def base_samples(self):
        return [Sample(self.seed * 100003 + i) for i in range(self.n_samples)]

    def choose(self, path, name, options):
        """exhaustive enumeration encoded as decisions"""
        k = len(path.trace)
        if k < len(path.prefix):
            i = path.prefix[k][0]
        else:
            i = 0
            for j in range(len(options) - 1, 0, -1):
                self.push(path.trace + [(j, True)])
        path.trace.append((i, True))
        self.cur.choices[name] = i
        # inputs found on another path belong to its choices
        path.samples = [s for s in path.samples if s.choices.get(name, i) == i]
        return options[i]

    def search(self, path, cond):
        """try to find samples on the other side of a one-sided branch"""
        out = []
        if self.search_budget <= 0:
            return out
        self.search_budget -= 1
        cands, weak = [], []
        try:
            r, model = smt.check(path.nz, path.hyps() + [cond], timeout=1500, want_model=True)
        except Exception:
            r, model = 'unknown', None
        if model:
            ov = {}
            for i, v in model.items():
                a = path.nz.atoms[i]
                if a.kind == 'var':
                    ov[a.name] = v
            cands += self.model_samples(path, ov)
        cands += self.scaled_samples(path, 4, self.search_budget)
        for j in range(120):
            cands.append(Sample(self.seed * 7000003 + self.search_budget * 1000 + j))
        t0 = time.time()
        for s in itertools.chain(cands, self.nudged(path, path.samples)):
            if time.time() - t0 > 3.0:
                break
            s.path = path
            try:
                if X.eval_bool(cond, s) and all(X.eval_bool(c, s) for c in path.pc):
                    if all(X.eval_bool(c, s, 1e-13) is True for c in [cond] + path.pc):
                        out.append(s)
                    else:
                        weak.append(s)
                    if len(out) >= 6:
                        break
            except Exception:
                pass
        if not out:
            out = self.climb(path, cond)
        if not out and cond.op != 'eq':
            # conditions met only at the edge of the path
            for s in self.walk(path, path.samples[:4], 1.5, back=(4, 6, 8, 10)):
                try:
                    if X.eval_bool(cond, s) and self.inside(path, s):
                        out.append(s)
                except Exception:
                    pass
        out = out or weak[:6]
        for s in out:
            s.choices = dict(self.cur.choices)
        self.directed += out
        return out

    def climb(self, path, cond, seconds=2.0):
        """from inputs on the path towards a condition none of them meets"""
        t0 = time.time()
        out = []

        def level(s):
            s.path = path
            try:
                if not self.inside(path, s):
                    return -np.inf
                return X.margin(cond, s)
            except Exception:
                return -np.inf
        starts = sorted(((level(s), k) for k, s in enumerate(path.samples[:24])), reverse=True)[:4]
        for v, k in starts:
            best, t = path.samples[k], .5
            r = np.random.default_rng([self.seed, k, 5])
            fails = 0
            while v <= 0 and np.isfinite(v) and fails < 60 and time.time() - t0 < seconds * (len(out) + 1) / 2:
                step = self._step(best, r)
                if step is None:
                    break
                c = step(t * r.uniform(.1, 1))
                w = level(c)
                if w > v:
                    best, v, fails = c, w, 0
                else:
                    fails += 1
                    t = max(t * .8, 1e-6) if fails % 4 == 0 else t
            if v > 0:
                out.append(best)
        return out

    def more(self, path):
        """further witnesses of a path with an open obligation; True when there are any"""
        if getattr(path, 'enriched', None) is None:
            path.enriched = []
            t0 = time.time()
            cands = self.scaled_samples(path, 6, 11) + [Sample(self.seed * 8000009 + j) for j in range(100)]
            for s in itertools.chain(cands, self.nudged(path, path.samples or self.base_samples())):
                if time.time() - t0 > 4.0 or len(path.enriched) >= 40:
                    break
                s.path = path
                try:
                    if all(X.eval_bool(c, s, 1e-13) is True for c in path.pc):
                        path.enriched.append(s)
                except Exception:
                    pass
            path.enriched = self.walk(path, path.samples[:4] + path.enriched[:6]) + path.enriched
            path.samples = path.enriched + path.samples
        return bool(path.enriched)

    def walk(self, path, samples, seconds=6.0, back=()):
        """from inputs on the path, as far as the path goes: inputs at its boundary, where
        what a narrow condition does wrong is largest"""
        out = []
        t0 = time.time()
        for k, w in enumerate(samples):
            w.path = path
            for j in range(3):
                if time.time() - t0 > seconds:
                    return out
                r = np.random.default_rng([self.seed, k, j])
                best = None
                step = self._step(w, r)
                lo, hi = -17.0, 1.0
                if step is None or not self.inside(path, step(10.0 ** lo)):
                    continue
                if self.inside(path, step(10.0 ** hi)):
                    out.append(step(10.0 ** hi))
                    continue
                while hi - lo > .05:
                    mid = (lo + hi) / 2
                    c = step(10.0 ** mid)
                    if self.inside(path, c):
                        lo, best = mid, c
                    else:
                        hi = mid
                if best is not None:
                    a, b = 10.0 ** lo, 10.0 ** hi
                    for _ in range(50):
                        mid = (a + b) / 2
                        if not a < mid < b:
                            break
                        c = step(mid)
                        if self.inside(path, c):
                            a, best = mid, c
                        else:
                            b = mid
                    # short of it, where rounding does not decide
                    out += [step(a * (1 - 10.0 ** -e)) for e in back]
                    out.append(best)
        return out

    def nudged(self, path, samples):
        """small changes of (possibly degenerate) inputs"""
        for t in (1e-5, 1e-3, 1e-7, 1e-9, 1e-2, 1e-11):
            for k, w in enumerate(samples):
                w.path = path
                step = self._step(w, np.random.default_rng([self.seed, k, 77]))
                if step is not None:
                    yield step(t)

    def inside(self, path, s):
        s.path = path
        try:
            for a in path.nz.atoms.values() if isinstance(path.nz.atoms, dict) else path.nz.atoms:
                if a.kind == 'var' and (a.pos or a.nonneg or a.lb is not None) and a.name not in path.exact:
                    v = s.value(a.data)
                    if v < 0 or a.pos and v <= 0 or a.lb is not None and v < a.lb:
                        return False
            return all(X.eval_bool(c, s, 1e-13) is True for c in path.pc)
        except Exception:
            return False

    def _step(self, w, r):
        """t -> the input of w moved by t (relative to its size) in a random direction"""
        base, d = {}, {}
        for nm, v in w.cache.items():
            if nm.startswith('pick:') or nm.endswith('#') or isinstance(v, (bool, str, dict, tuple)):
                continue
            try:
                a = np.asarray(v, dtype=float)
            except (TypeError, ValueError):
                continue
            if not a.size or nm.startswith('lin'):
                continue
            base[nm] = a
            size = np.std(a, axis=0).max() if a.ndim == 2 and len(a) > 1 else np.abs(a).max()
            d[nm] = r.normal(size=a.shape) * (size or 1.0) * (r.integers(3) > 0)
        if not base:
            return None

        def step(t):
            s = w.clone()
            s.path = w.path
            s.extreme = True
            for nm, a in base.items():
                v = a + t * d[nm]
                if a.ndim == 2 and a.shape[0] == a.shape[1] and np.allclose(a @ a.T, np.eye(len(a)), atol=1e-9):
                    u, _, q = np.linalg.svd(v)
                    v = u @ q
                elif a.ndim == 1 and nm in self.current_gens and not hasattr(self.current_gens[nm], 'rescale') \
                        and abs(np.linalg.norm(a) - 1) < 1e-9:
                    v = v / np.linalg.norm(v)
                s.overrides[nm] = v if a.ndim else float(v)
            for nm, v in w.cache.items():
                if nm.startswith('pick:') or nm.startswith('lin'):
                    s.cache[nm] = v
            return s
        return step

    def scaled_samples(self, path, per, salt=0):
        """inputs of other magnitudes, all together and one at a time"""
        names = sorted(n for n, g in self.current_gens.items() if hasattr(g, 'rescale'))
        out = []
        for f in SCALES:
            for nm in ['*'] + (names if len(names) > 1 else []):
                for j in range(per if nm == '*' else 2):
                    out.append(Sample(self.seed * 50021 + salt * 97 + j, scale={nm: f}))
        return out

    def model_samples(self, path, ov):
        """solver model -> samples with the model's scalars / lengths imposed"""
        out = []
        over = {}
        vecs = {}
        for name, v in ov.items():
            if name.startswith('n.'):
                over[name] = max(1, int(round(float(v))))
            elif '.' in name:
                vecs.setdefault(name.split('.')[0], {})[name] = float(v)
            else:
                over[name] = float(v)
        base = {k: v for k, v in over.items() if k.startswith('n.')}
        for j in range(4):
            if base:
                out.append(Sample(self.seed * 31 + j, dict(base)))
        sc = {k: v for k, v in over.items() if not k.startswith('n.')}
        if sc or vecs:
            for j in range(3):
                s = Sample(self.seed * 37 + j, dict(over))
                s.path = path
                for vn, comps in vecs.items():
                    try:
                        gen = self.current_gens.get(vn)
                        if gen is None:
                            continue
                        val = np.array(gen(s, s.rng(vn)), dtype=float)
                        for nm, v in comps.items():
                            val[tuple(int(i) for i in nm.split('.')[1:])] = v
                        s.overrides[vn] = val
                    except Exception:
                        pass
                out.append(s)
        return out

    def declare(self, name, gen):
        self.current_gens[name] = gen

    def run(self):
        t0 = time.time()
        self.deadline = t0 + self.seconds
        self.push([])
        while self.work:
            if len(self.results) >= self.max_paths or time.time() > self.deadline:
                self.truncated = True
                break
            prefix = self.work.pop()
            self.results.append(self.run_path(prefix))
        self.wall = time.time() - t0
        return self.results

    def run_path(self, prefix):
        res = self.cur = PathResult()
        path = Path(self, prefix, self.base_samples() + [s.clone() for s in self.directed])
        res.path = path
        Ctx.path = path
        State.decide = path.decide
        State.unsupported = []
        ctx = SymCtx(path)
        path.nz.deadline = self.deadline
        prof = self._profile if len(self.results) < 3 else None
        try:
            sys.setprofile(prof)
            try:
                self.scenario(ctx)
            finally:
                sys.setprofile(None)
        except Unsupported as u:
            res.status, res.detail = 'unsupported', str(u)
        except PathAbort as p:
            res.status, res.detail = 'infeasible', str(p)
            return res
        except Budget as b:
            res.status, res.detail = 'unsupported', 'normal form budget (%s)' % b
        except ShapeMismatch as e:
            res.status, res.detail = 'exception', 'ShapeMismatch: %s' % e
        except RecursionError:
            res.status, res.detail = 'unsupported', 'recursion'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d' % (f.filename.replace(load.REPO + '/', ''), f.lineno) for f in tb][-3:]
            res.status = 'exception'
            res.detail = '%s: %s at %s' % (type(e).__name__, e, ' < '.join(reversed(where)))
        if State.unsupported and res.status in ('ok', 'exception'):
            res.status, res.detail = 'unsupported', State.unsupported[0]
        # path feasibility (vacuity): samples, otherwise ask the solver
        if not path.samples and res.status != 'infeasible':
            path.unwitnessed = True
            try:
                if smt.check(path.nz, path.hyps(), timeout=1500) == 'unsat':
                    res.status = 'infeasible'
                    return res
            except BaseException:
                pass
        path.nz.memo.clear()
        path._signs.clear()
        res.obligations = path.obligations
        for ob in path.obligations:
            ob.path = res
            try:
                path.discharge(ob, self.deadline + 20)
                path.defined(ob)
            except Exception as e:
                ob.status, ob.detail = 'unknown', 'engine: %r' % e
        if State.unsupported and res.status == 'ok':
            res.status, res.detail = 'unsupported', State.unsupported[0]
        return res

    def _profile(self, frame, event, arg):
        if event == 'call':
            c = frame.f_code
            fn = c.co_filename
            if fn.startswith(load.REPO + '/attitude'):
                q = getattr(c, 'co_qualname', c.co_name)
                if not q.startswith('<') and c.co_flags & 1:
                    self.functions.add('%s:%s' % (fn[len(load.REPO) + 1:], q))
