"""Input generators shared by the symbolic samples and the concrete runs."""
import numpy as np


def _scalable(gen, lo=None, hi=None):
    """marks inputs whose magnitude is arbitrary (within lo..hi)"""
    def rescale(v, k):
        v = np.asarray(v, dtype=float) * k
        return v if lo is None else float(np.clip(v, lo, hi))
    gen.rescale = rescale
    return gen


scalable = _scalable


def _rot(r):
    q = r.normal(size=4)
    q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


SIZES = (3, 4, 4, 5, 6, 7, 10, 12, 20, 33, 50, 120, 400)


def planar(name='data', min_n=3, sizes=SIZES, degenerate=True):
    """n x 3 coordinates of a noisy planar feature, in many attitudes"""
    def gen(s, r):
        n = s.overrides.get('n.' + name)
        if n is None:
            n = int(r.choice([k for k in sizes if k >= min_n]))
            if r.integers(40) == 0:
                n = 1500
        n = max(int(n), min_n)
        kinds = ['random'] * 6 + ['thin', 'steep', 'gentle', 'offset', 'isotropic', 'tiny', 'big', 'integer', 'grid', 'ring']
        if degenerate:
            kinds += ['axis', 'horizontal', 'vertical', 'exact', 'dipaligned', 'overturned']
        kind = kinds[int(r.integers(len(kinds)))]
        L = np.array([10.0, 4.0, 0.3]) * np.exp(r.normal(size=3) * 0.4)
        X = r.normal(size=(n, 3)) * L
        R = _rot(r)
        off = r.normal(size=3) * 20
        if kind == 'steep':
            a = r.uniform(0, 2 * np.pi)
            d = np.radians(r.uniform(85, 90) if r.integers(2) else 90 - 10.0 ** -r.uniform(0, 6))
            R = _frame(a, d, r.uniform(0, np.pi))
        elif kind == 'gentle':
            a = r.uniform(0, 2 * np.pi)
            R = _frame(a, np.radians(r.uniform(0, 3) if r.integers(2) else 10.0 ** -r.uniform(0, 5)),
                       r.uniform(0, np.pi))
        elif kind == 'thin':
            X[:, int(r.integers(1, 3)):] *= 10.0 ** -r.uniform(0.5, 4)
        elif kind == 'dipaligned':
            R = _frame(r.uniform(0, 2 * np.pi), np.radians(r.uniform(5, 80)), 0)
        elif kind == 'offset':
            off = r.normal(size=3) * 1e4
        elif kind == 'isotropic':
            X = r.normal(size=(n, 3)) * 3
        elif kind == 'tiny':
            X *= 1e-3
            off *= 1e-3
        elif kind == 'big':
            X *= 1e3
        elif kind == 'axis':
            R = np.eye(3)[list(r.permutation(3))] * r.choice([-1, 1], size=(3, 1))
            if n >= 8:
                # symmetric cloud: the principal axes are exactly the coordinate axes
                h = np.abs(X[: n // 8 + 1])
                X = np.array([p * sg for p in h for sg in _SIGNS])[:max(8, n - n % 8)]
                X = X[:n] if len(X) >= n else X
        elif kind == 'exact':
            X[:, 2] = 0
        elif kind == 'ring' and n >= 8:
            # points that occur more than once: closed rings, repeated readings
            X[-1] = X[0]
            for _ in range(int(r.integers(0, 3))):
                X[int(r.integers(n))] = X[int(r.integers(n))]
            X[-1] = X[0]
        elif kind == 'overturned':
            R = R * np.array([[1], [1], [-1.0]])
        D = X @ R + off
        if kind == 'horizontal':
            D[:, 2] = off[2]
        elif kind == 'vertical':
            D[:, int(r.integers(2))] = off[0]
        elif kind == 'integer':
            D = np.round(D * 3)
            if r.integers(2):
                D = D.astype(int)
        elif kind == 'grid':
            g = np.stack(np.meshgrid(np.arange(max(2, min(6, n // 2))), np.arange(5)), -1).reshape(-1, 2)[:n].astype(float)
            c = r.normal(size=3)
            D = np.column_stack([g, g @ c[:2] + c[2]])
            if len(D) < n:
                D = np.vstack([D, D + 0.25])[:n]
            D[:, 2] += r.normal(size=len(D)) * 0.01
        return D
    return _scalable(gen)


_SIGNS = np.array([[a, b, c] for a in (1, -1) for b in (1, -1) for c in (1, -1)], dtype=float)


def _frame(strike, dip, rake):
    """rows: axis1, axis2 (in plane), normal"""
    n = np.array([np.sin(strike + np.pi / 2) * np.sin(dip), np.cos(strike + np.pi / 2) * np.sin(dip), np.cos(dip)])
    s = np.array([np.sin(strike), np.cos(strike), 0])
    d = np.cross(n, s)
    c, q = np.cos(rake), np.sin(rake)
    return np.array([c * d + q * s, -q * d + c * s, n])


def rotation(special=True):
    def gen(s, r):
        k = int(r.integers(9)) if special else 9
        if k == 0:
            V = np.eye(3)[list(r.permutation(3))]
        elif k == 3:
            # one axis close to a coordinate axis
            i, j, l = r.permutation(3)
            V = np.eye(3)
            t = r.uniform(0, 6.28)
            V[i, i] = V[j, j] = np.cos(t)
            V[i, j], V[j, i] = np.sin(t), -np.sin(t)
            if r.integers(2):
                V = V @ _frame(r.uniform(0, 6.28), np.radians(r.uniform(0, 1)), 0.0)
            V = V[list(r.permutation(3))]
        elif k == 1:
            V = _frame(r.uniform(0, 6.28), np.radians(r.uniform(0, 2)), r.uniform(0, 3.14))
        elif k == 2:
            V = _frame(r.uniform(0, 6.28), np.radians(r.uniform(88, 90)), r.uniform(0, 3.14))
        else:
            V = _rot(r)
        return V * r.choice([-1.0, 1.0], size=(3, 1))
    return gen


def uniform(lo, hi, special=()):
    def gen(s, r):
        if len(special) and r.integers(4) == 0:
            return special[int(r.integers(len(special)))]
        return r.uniform(lo, hi)
    return _scalable(gen, lo, hi)


def normal(k, scale=1.0, ints=True):
    def gen(s, r):
        v = r.normal(size=k) * scale
        if ints and r.integers(4) == 0:
            v = np.round(v * 2)
            if r.integers(2):
                v = v.astype(int)
        return v
    return _scalable(gen)


def positive(k, lo=0.05, hi=5.0, sort=False):
    def gen(s, r):
        v = np.exp(r.uniform(np.log(lo), np.log(hi), size=k))
        return np.sort(v)[::-1] if sort else v
    return _scalable(gen)


def unit(k=3):
    def gen(s, r):
        v = r.normal(size=k)
        if r.integers(5) == 0:
            v = np.eye(k)[int(r.integers(k))]
        return v / np.linalg.norm(v)
    return gen


def near_unit(k=3):
    """unit vectors, some of them close to coordinate axes"""
    def gen(s, r):
        v = r.normal(size=k)
        j = int(r.integers(6))
        if j < 2:
            v = np.eye(k)[int(r.integers(k))] + r.normal(size=k) * 10.0 ** -r.integers(1, 5)
        elif j == 2:
            return np.eye(k)[int(r.integers(k))] * r.choice([-1.0, 1.0])
        return v / np.linalg.norm(v)
    return gen
