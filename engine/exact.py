"""Evaluation of obligations in multiple precision (60 digits).

An obligation that the provers leave open is refuted in the semantics of the proofs (real numbers) when, at
an input that satisfies every assumption of its path, its sides differ by far more than the precision.  That is
a counterexample of the verifier, whether or not floating point can show it."""
import time

import numpy as np

from . import expr as X

try:
    import mpmath
    MP = mpmath.mp.clone()
    MP.dps = 60
except ImportError:                      # no second opinion then
    MP = None

MARGIN = 1e-11
TINY = 1e-25


class Inexact(Exception):
    pass


def _f(name):
    g = getattr(MP, name)

    def h(*a):
        if any(isinstance(x, np.ndarray) for x in a):
            return np.frompyfunc(g, len(a), 1)(*a)
        return g(*a)
    return h


def lift(v):
    if isinstance(v, np.ndarray):
        o = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            o[i] = lift(v[i])
        return o
    v = float(v)
    if v != v or v in (float('inf'), float('-inf')):
        raise Inexact('not finite')
    return MP.mpf(v)


class Exact(object):
    def __init__(self, path, sample):
        self.path = path
        self.sample = sample
        self.val = {}
        self.memo = {}
        f = {k: _f(k) for k in ('sqrt', 'sin', 'cos', 'asin', 'acos', 'atan2', 'sinh', 'cosh', 'asinh',
                                'exp', 'log', 'floor')}
        f['abs'] = abs
        f['sqrt'] = lambda x: self._checked('sqrt', x)
        f['acos'] = lambda x: self._ends('acos', x)
        f['asin'] = lambda x: self._ends('asin', x)
        self.f = f

    def _checked(self, name, x):
        g = _f(name)
        if isinstance(x, np.ndarray):
            return np.array([self._checked(name, i) for i in x], dtype=object)
        if x < 0:
            if x > -MP.mpf(10) ** -50:
                x = MP.mpf(0)
            else:
                raise Inexact('root of a negative number')
        return g(x)

    def _ends(self, name, x):
        if isinstance(x, np.ndarray):
            return np.array([self._ends(name, i) for i in x], dtype=object)
        if abs(x) > 1:
            if abs(x) > 1 + MP.mpf(10) ** -50:
                raise Inexact(name)
            x = MP.sign(x)
        return getattr(MP, name)(x)

    def var(self, n):
        name = n.args[0]
        g = self.path.exact.get(name)
        if g is not None:
            return g(self)
        v = self.sample.value(n)
        return lift(np.asarray(v, dtype=float)) if isinstance(v, np.ndarray) else lift(v)

    def eval(self, roots):
        val = self.val
        for n in X.topo(roots):
            if n.id in val:
                continue
            op = n.op
            a = [val[x.id] if isinstance(x, X.E) else x for x in n.args]
            if op == 'num':
                v = MP.mpf(n.args[0].numerator) / n.args[0].denominator
            elif op == 'pi':
                v = +MP.pi
            elif op in ('var', 'row'):
                v = self.var(n)
            elif op == 'add':
                v = a[0] + a[1]
            elif op == 'neg':
                v = -a[0]
            elif op == 'mul':
                v = a[0] * a[1]
            elif op == 'div':
                b = a[1] if isinstance(a[1], np.ndarray) else np.array([a[1]], dtype=object)
                if any(x == 0 for x in b.ravel()):
                    raise Inexact('division by zero')
                v = a[0] / a[1]
            elif op == 'pow':
                v = a[0] ** a[1]
            elif op == 'sum':
                k = self.sample.seg_len(n.args[0])
                v = sum(a[1], MP.mpf(0)) if isinstance(a[1], np.ndarray) else a[1] * k
            elif op == 'app':
                if n.args[0].startswith('raster.'):
                    raise Inexact('raster')
                v = lift(self.sample.apply(n.args[0], [float(x) for x in a[1:]]))
            elif op == 'rowat':
                i = int(a[2])
                v = a[1][i] if isinstance(a[1], np.ndarray) else a[1]
            elif op in self.f:
                v = self.f[op](*a)
            else:
                raise Inexact(op)
            val[n.id] = v
        return [val[r.id] for r in roots]

    def matrix(self, rows):
        """value of an object array or of an array over data rows"""
        if hasattr(rows, 'cells'):
            out = []
            for seg, c in zip(rows.segs, rows.cells):
                n = self.sample.seg_len(seg)
                vals = self.eval([X.lift(e) for e in c.ravel()])
                cols = [v if isinstance(v, np.ndarray) else np.array([v] * n, dtype=object) for v in vals]
                out.append(np.stack(cols, axis=1))
            return np.vstack(out)
        a = np.asarray(rows)
        return np.array(self.eval([X.lift(e) for e in a.ravel()]), dtype=object).reshape(a.shape)

    def svd(self, key, mat_of, like):
        """singular values and right vectors, with the signs of the machine decomposition"""
        if key not in self.memo:
            A = mat_of(self)
            k = A.shape[1]
            G = MP.matrix(k, k)
            for i in range(k):
                for j in range(k):
                    G[i, j] = sum((A[:, i] * A[:, j]), MP.mpf(0))
            old = MP.dps
            MP.dps = 130
            try:
                w, Q = MP.eigsy(G)
            finally:
                MP.dps = old
            order = sorted(range(k), key=lambda i: -w[i])
            s = [MP.sqrt(max(w[i], 0)) for i in order]
            fv = np.asarray(like(self.sample)[2], dtype=float)
            V = np.empty((k, k), dtype=object)
            for r, i in enumerate(order):
                v = [Q[j, i] for j in range(k)]
                d = sum(float(x) * y for x, y in zip(v, fv[r]))
                if abs(d) < .9:
                    raise Inexact('ambiguous decomposition')
                for j in range(k):
                    V[r, j] = v[j] if d > 0 else -v[j]
            self.memo[key] = (s, V)
        return self.memo[key]

    def quaternion(self, key, R):
        """(g, quaternion) of an orthogonal 3 x 3 matrix, normalised"""
        if key not in self.memo:
            R = R(self)
            det = (R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0])
                   + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0]))
            g = MP.mpf(1) if det > 0 else MP.mpf(-1)
            R = R * g
            t = [1 + R[0, 0] + R[1, 1] + R[2, 2], 1 + R[0, 0] - R[1, 1] - R[2, 2],
                 1 - R[0, 0] + R[1, 1] - R[2, 2], 1 - R[0, 0] - R[1, 1] + R[2, 2]]
            b = max(range(4), key=lambda i: t[i])
            a = {(0, 1): R[2, 1] - R[1, 2], (0, 2): R[0, 2] - R[2, 0], (0, 3): R[1, 0] - R[0, 1],
                 (1, 2): R[0, 1] + R[1, 0], (1, 3): R[0, 2] + R[2, 0], (2, 3): R[1, 2] + R[2, 1]}
            q = [t[i] if i == b else a[min(i, b), max(i, b)] for i in range(4)]
            n = MP.sqrt(sum(x * x for x in q))
            self.memo[key] = (g, [x / n for x in q])
        return self.memo[key]

    def holds(self, c, margin=0):
        """truth of a condition; None when it is within the margin of its boundary"""
        if c.op == 'const':
            return c.args[0]
        if c.op == 'not':
            r = self.holds(c.args[0], margin)
            return None if r is None else not r
        if c.op in ('and', 'or'):
            x, y = (self.holds(i, margin) for i in c.args)
            if c.op == 'and':
                if x is False or y is False:
                    return False
                return None if x is None or y is None else True
            if x or y:
                return True
            return None if x is None or y is None else False
        x, y = self.eval(list(c.args))
        pairs = list(zip(*np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))))\
            if isinstance(x, np.ndarray) or isinstance(y, np.ndarray) else [(x, y)]
        for p, q in pairs:
            d = abs(p - q)
            if d and d <= margin * max(abs(p), abs(q)):
                return None
            if c.op == 'lt' and not p < q or c.op == 'le' and not p <= q or c.op == 'eq' and p != q:
                return False
        return True


def refute(path, ob, samples, cache, seconds=6.0):
    """sample at which the obligation fails in exact arithmetic, with a description, or None"""
    if MP is None:
        return None
    t0 = time.time()
    for s in samples:
        if time.time() - t0 > seconds:
            break
        if s in cache and cache[s] is None:
            continue
        s.path = path
        try:
            if s not in cache:
                cache[s] = None
                e = Exact(path, s)
                if not all(e.holds(c) is True for c in path.facts + path.pc):
                    continue
                cache[s] = e
            e = cache[s]
            if ob.kind in ('eq', 'le', 'lt'):
                x, y = e.eval([ob.a, ob.b])
                xs, ys = np.broadcast_arrays(np.atleast_1d(np.asarray(x, dtype=object)),
                                             np.atleast_1d(np.asarray(y, dtype=object)))
                for p, q in zip(xs, ys):
                    d = p - q if ob.kind != 'eq' else abs(p - q)
                    if d > MARGIN * max(abs(p), abs(q)) and d > TINY:
                        return s, 'in exact arithmetic %s %s %s' % (
                            MP.nstr(p, 20), {'eq': '!=', 'le': '>', 'lt': '>='}[ob.kind], MP.nstr(q, 20))
            elif ob.cond is not None:
                if e.holds(ob.cond, MARGIN) is False:
                    return s, 'condition is false in exact arithmetic'
        except (Inexact, ArithmeticError, ValueError, KeyError, TypeError, AttributeError) as err:
            path.note('exact evaluation: %s' % err)
            cache[s] = None
    return None
