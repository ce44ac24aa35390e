"""Normal forms: rational functions over a triangular tower of algebraic atoms.

Every E is mapped to numerator/denominator polynomials with rational
coefficients.  Atoms are variables, square roots, sines/cosines, inverse-trig
angles, sums over a data segment, ...  An atom may carry a relation
`atom**2 = polynomial in earlier atoms`; rewriting with these (and with the
sum rules installed by the SVD contract) is the equality back end: two
expressions are equal when the numerator of their difference rewrites to 0.
"""
import math
import time
from fractions import Fraction

from . import expr as X
from .expr import E


class Budget(Exception):
    pass


# ----- polynomials: {monomial: coeff}; monomial = ((atom, exp), ...) sorted ---
CONST = ()


def pconst(c):
    return {CONST: c} if c else {}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + (c if k == 1 else k * c)
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    out, i, j = [], 0, 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def icoef(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c


def patoms(p):
    return {a for m in p for a, _ in m}


class Atom(object):
    __slots__ = ('id', 'kind', 'data', 'sq', 'nonneg', 'pos', 'lb', 'integer', 'row', 'name')

    def __init__(self, id, kind, data=None):
        self.id = id
        self.kind = kind
        self.data = data
        self.sq = None
        self.nonneg = False
        self.pos = False
        self.lb = None
        self.integer = False
        self.row = None
        self.name = '%s%d' % (kind, id)


class Rat(object):
    """num / prod(den[k][0]**den[k][1])"""
    __slots__ = ('num', 'den')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}


class Normalizer(object):
    def __init__(self):
        self.atoms = []
        self.memo = {}
        self.byvar = {}
        self.kinds = {}
        self.sumrules = {}
        self.deadline = None
        self.max_terms = 60000
        self.sign_oracle = None       # callable(poly) -> +1/-1/0/None
        self.side = []                # definedness side conditions used
        self.pi = self.new('pi')
        self.pi.pos = self.pi.nonneg = True
        self.pi.name = 'pi'
        self._abscache = {}
        self._prime = {}
        self._eqrules = []

    # -- atoms --------------------------------------------------------------
    def new(self, kind, data=None):
        a = Atom(len(self.atoms), kind, data)
        self.atoms.append(a)
        self.kinds.setdefault(kind, []).append(a)
        return a

    def variable(self, e):
        """atom of a var/row leaf"""
        a = self.byvar.get(e.id)
        if a is None:
            a = self.new(e.op, e)
            a.name = e.args[0]
            if e.op == 'row':
                a.row = e.args[1]
            self.byvar[e.id] = a
        return a

    def declare(self, e, nonneg=False, pos=False, lb=None, integer=False, sq=None):
        a = self.variable(e)
        a.nonneg = a.nonneg or nonneg or pos
        a.pos = a.pos or pos
        if lb is not None:
            a.lb = lb
            a.nonneg = a.nonneg or lb >= 0
            a.pos = a.pos or lb > 0
        a.integer = a.integer or integer
        if sq is not None:
            a.sq = sq
            self.memo.clear()
        return a

    # -- polynomial product modulo relations -------------------------------
    def tick(self, p):
        if len(p) > self.max_terms:
            raise Budget('polynomial too large')
        if self.deadline and time.time() > self.deadline:
            raise Budget('time')

    def pmul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        r = {}
        if len(p) * len(q) > 4000000:
            raise Budget('product too large')
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    del r[m]
        self.tick(r)
        return self.reduce(r)

    def reduce(self, r):
        atoms = self.atoms
        while True:
            bad = [m for m in r if any(e > 1 and atoms[a].sq is not None for a, e in m)]
            if not bad:
                return r
            for m in bad:
                c = r.pop(m, None)
                if c is None:
                    continue
                t = {CONST: c}
                rest = []
                for a, e in m:
                    if e > 1 and atoms[a].sq is not None:
                        for _ in range(e // 2):
                            t = self._rawmul(t, atoms[a].sq)
                        if e % 2:
                            rest.append((a, 1))
                    else:
                        rest.append((a, e))
                rest = tuple(rest)
                for m2, c2 in t.items():
                    mm = mmul(m2, rest)
                    v = r.get(mm, 0) + c2
                    if v:
                        r[mm] = v
                    else:
                        del r[mm]
            self.tick(r)

    def _rawmul(self, p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    del r[m]
        self.tick(r)
        return r

    def ppow(self, p, n):
        r = pconst(1)
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    # -- rational functions --------------------------------------------------
    def const(self, c):
        return Rat(pconst(icoef(Fraction(c))))

    def atom_rat(self, a):
        return Rat({((a.id, 1),): 1})

    def canon_factor(self, p):
        """p = k * f with f canonical (primitive, positive leading coeff)."""
        g = 0
        l = 1
        for c in p.values():
            c = Fraction(c)
            g = math.gcd(g, c.numerator)
            l = l * c.denominator // math.gcd(l, c.denominator)
        k = Fraction(g, l)
        lead = max(p)
        if p[lead] < 0:
            k = -k
        return k, {m: icoef(Fraction(c) / k) for m, c in p.items()}

    def split(self, p):
        """p = k * monomial * f ; returns k, {atom: exp}, f(canonical)"""
        k, f = self.canon_factor(p)
        common = None
        for m in f:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a]) for a, e in common.items() if a in d}
            if not common:
                break
        common = common or {}
        if common:
            inv = tuple(sorted((a, -e) for a, e in common.items()))
            f = {mmul(m, inv): c for m, c in f.items()}
        return k, common, f

    def den_from(self, p, mult=1, den=None):
        """factor list for 1/p**mult; returns (scalar for num, den dict, num_mono)"""
        k, mono, f = self.split(p)
        d = {} if den is None else den
        pim = 0
        for a, e in mono.items():
            if a == self.pi.id:
                pim = e * mult
                continue
            q = {((a, 1),): 1}
            self._dadd(d, q, e * mult)
        if f != {CONST: 1}:
            self._dadd(d, f, mult)
        return Fraction(1) / k ** mult, d, pim

    def _dadd(self, d, f, mult):
        key = frozenset(f.items())
        if key in d:
            d[key] = (f, d[key][1] + mult)
        else:
            d[key] = (f, mult)

    def pimono(self, p, k):
        if not k:
            return p
        return {mmul(m, ((self.pi.id, k),)): c for m, c in p.items()}

    def rmul(self, a, b):
        if not a.num or not b.num:
            return Rat({})
        d = dict(a.den)
        for key, (f, m) in b.den.items():
            self._dadd(d, f, m)
        return self.cancel(Rat(self.pmul(a.num, b.num), d))

    def rinv(self, a):
        if not a.num:
            X.unsupported('division by a value that is identically zero')
        k, d, pim = self.den_from(a.num)
        n = pconst(k)
        for key, (f, m) in a.den.items():
            n = self.pmul(n, self.ppow(f, m))
        return self.cancel(Rat(self.pimono(n, -pim), d))

    def radd(self, a, b):
        if not a.num:
            return b
        if not b.num:
            return a
        if a.den.keys() == b.den.keys() and all(a.den[k][1] == b.den[k][1] for k in a.den):
            return self.cancel(Rat(padd(a.num, b.num), a.den))
        d, na, nb = {}, a.num, b.num
        for key in set(a.den) | set(b.den):
            fa = a.den.get(key)
            fb = b.den.get(key)
            ma, mb = fa[1] if fa else 0, fb[1] if fb else 0
            f = (fa or fb)[0]
            m = max(ma, mb)
            d[key] = (f, m)
            if m > ma:
                na = self.pmul(na, self.ppow(f, m - ma))
            if m > mb:
                nb = self.pmul(nb, self.ppow(f, m - mb))
        return self.cancel(Rat(padd(na, nb), d))

    def cancel(self, r):
        if not r.num:
            return Rat({})
        if not r.den:
            return r
        num, den = r.num, None
        for key, (f, m) in list(r.den.items()):
            if f == {CONST: 1}:
                continue
            while m > 0:
                q = self.exact_div(num, f)
                if q is None:
                    break
                num = q
                m -= 1
                if den is None:
                    den = dict(r.den)
                if m:
                    den[key] = (f, m)
                else:
                    den.pop(key)
        return r if den is None else Rat(num, den)

    def exact_div(self, p, f):
        """p / f when exact (as polynomials), else None"""
        if len(f) == 1:
            (m, c), = f.items()
            inv = tuple((a, -e) for a, e in m)
            need = dict(m)
            out = {}
            for mm, cc in p.items():
                d = dict(mm)
                for a, e in need.items():
                    if d.get(a, 0) < e:
                        return None
                out[mmul(mm, inv)] = icoef(Fraction(cc) / c)
            return out
        if len(p) < len(f) or len(p) > 2500 or len(f) > 60:
            return None
        fa = patoms(f)
        order = sorted(fa | patoms(p), reverse=True)
        pos = {a: i for i, a in enumerate(order)}
        if any(e < 0 for m in p for _, e in m):
            return None

        def key(m):
            v = [0] * len(order)
            for a, e in m:
                v[pos[a]] = e
            return tuple(v)
        lf = max(f, key=key)
        cf = f[lf]
        rest = dict(p)
        q = {}
        steps = 0
        while rest:
            steps += 1
            if steps > 2500:
                return None
            lm = max(rest, key=key)
            d = dict(lm)
            for a, e in lf:
                if d.get(a, 0) < e:
                    return None
            qm = mmul(lm, tuple((a, -e) for a, e in lf))
            qc = icoef(Fraction(rest[lm]) / cf)
            q[qm] = qc
            for m, c in f.items():
                mm = mmul(m, qm)
                v = rest.get(mm, 0) - qc * c
                if v:
                    rest[mm] = v
                else:
                    rest.pop(mm, None)
        return q

    # -- signs ----------------------------------------------------------------
    def sign(self, p):
        """+1: p >= 0 known, -1: p <= 0 known, None unknown"""
        if not p:
            return 1
        k, mono, f = self.split(p)
        s = 1 if k > 0 else -1
        for a, e in mono.items():
            if e % 2 and not self.atoms[a].nonneg:
                s2 = self._oracle({((a, 1),): 1})
                if s2 is None:
                    return None
                s *= s2
        if f == {CONST: 1}:
            return s
        s2 = self._shift_sign(f)
        if s2 is None:
            s2 = self._oracle(f)
        return None if s2 is None else s * s2

    def _shift_sign(self, f):
        g = f
        for a in patoms(f):
            at = self.atoms[a]
            if at.lb is not None and at.lb != 0:
                # substitute a -> a + lb
                out = {}
                for m, c in g.items():
                    d = dict(m)
                    e = d.pop(a, 0)
                    base = tuple(sorted(d.items()))
                    for i in range(e + 1):
                        cc = c * math.comb(e, i) * at.lb ** (e - i)
                        mm = mmul(base, ((a, i),) if i else ())
                        v = out.get(mm, 0) + cc
                        if v:
                            out[mm] = v
                        else:
                            out.pop(mm, None)
                g = out
        s = None
        for m, c in g.items():
            if any(e % 2 and not self.atoms[a].nonneg for a, e in m):
                return None
            t = 1 if c > 0 else -1
            if s is None:
                s = t
            elif s != t:
                return None
        return s

    def _oracle(self, f):
        if self.sign_oracle is None:
            return None
        return self.sign_oracle(f)

    # -- roots and absolute values ----------------------------------------------
    def rabs_poly(self, p):
        """|p| as a Rat"""
        if not p:
            return self.const(0)
        k, mono, f = self.split(p)
        # once a factor has an absolute value of its own, keep to it: one form of the same quantity
        s = None if frozenset(f.items()) in self._abscache else self.sign(p)
        if s is not None:
            return Rat(p if s > 0 else pscale(p, -1))
        r = self.const(abs(k))
        for a, e in mono.items():
            q = {((a, 1),): 1}
            if self.atoms[a].nonneg:
                ab = Rat(q)
            else:
                ab = self._abs_atom(q)
            for _ in range(e):
                r = self.rmul(r, ab)
        if f != {CONST: 1}:
            s = None if frozenset(f.items()) in self._abscache else self.sign(f)
            r = self.rmul(r, Rat(f if s > 0 else pscale(f, -1)) if s else self._abs_atom(f))
        return r

    def _abs_atom(self, f):
        key = frozenset(f.items())
        a = self._abscache.get(key)
        if a is None:
            a = self.new('abs', Rat(f))
            a.sq = self.pmul(f, f)
            a.nonneg = True
            self._setrow(a, f)
            self._abscache[key] = a
        return self.atom_rat(a)

    def _setrow(self, atom, *polys):
        for p in polys:
            for i in patoms(p):
                if self.atoms[i].row is not None:
                    atom.row = self.atoms[i].row

    def _ratrow(self, atom, *rats):
        for r in rats:
            self._setrow(atom, r.num)
            for f, _ in r.den.values():
                self._setrow(atom, f)

    def rabs(self, r):
        out = self.rabs_poly(r.num)
        for f, m in r.den.values():
            for _ in range(m):
                out = self.rmul(out, self.rinv(self.rabs_poly(f)))
        return out

    def sqrt_int(self, n):
        """sqrt of a positive integer as Rat"""
        out, i = self.const(1), 2
        while n > 1 and i * i <= n and i < 100000:
            e = 0
            while n % i == 0:
                n //= i
                e += 1
            if e:
                out = self.rmul(out, self.const(i ** (e // 2)))
                if e % 2:
                    out = self.rmul(out, self._sqrt_prime(i))
            i += 1
        if n > 1:
            r = math.isqrt(n)
            out = self.rmul(out, self.const(r) if r * r == n else self._sqrt_prime(n))
        return out

    def _sqrt_prime(self, p):
        a = self._prime.get(p)
        if a is None:
            a = self.new('sqrt', Rat(pconst(p)))
            a.sq = pconst(p)
            a.pos = a.nonneg = True
            self._prime[p] = a
        return self.atom_rat(a)

    def rsqrt(self, r):
        if not r.num:
            return r
        outside = self.const(1)
        inside = r.num
        for f, m in r.den.values():
            for _ in range((m + 1) // 2):
                outside = self.rmul(outside, self.rinv(self.rabs_poly(f)))
            if m % 2:
                inside = self.pmul(inside, f)
        if not inside:
            return Rat({})
        k, mono, f = self.split(inside)
        if k < 0:
            k, f = -k, pscale(f, -1)
        outside = self.rmul(outside, self.sqrt_int(k.numerator))
        outside = self.rmul(outside, self.rinv(self.sqrt_int(k.denominator)))
        left = {}
        for a, e in mono.items():
            at = self.atoms[a]
            q = {((a, 1),): 1}
            if e // 2:
                ab = self.rabs_poly(q)
                for _ in range(e // 2):
                    outside = self.rmul(outside, ab)
            if e % 2:
                left[a] = 1
        # square factors of f
        if f not in ({CONST: 1}, {CONST: -1}):
            for g, m in self.square_factors(f):
                for _ in range(m):
                    f = self.exact_div(self.exact_div(f, g), g)
                    outside = self.rmul(outside, self.rabs_poly(g))
        for a in list(left):
            # sqrt(a)*sqrt(rest): keep jointly inside, unless both are known nonneg
            at = self.atoms[a]
            if at.nonneg:
                outside = self.rmul(outside, self._sqrt_atom({((a, 1),): 1}))
                left.pop(a)
        if left:
            f = {mmul(m, tuple(sorted(left.items()))): c for m, c in f.items()}
        if f == {CONST: 1}:
            return outside
        return self.rmul(outside, self._sqrt_atom(f))

    def _sqrt_atom(self, f):
        for a in self.kinds.get('sqrt', []):
            if a.data.num == f and not a.data.den:
                return self.atom_rat(a)
        a = self.new('sqrt', Rat(f))
        a.sq = f
        a.nonneg = True
        self._setrow(a, f)
        return self.atom_rat(a)

    def square_factors(self, f):
        ids = sorted(patoms(f))
        if len(f) > 40 or len(ids) > 8 or any(e < 0 for m in f for _, e in m):
            return []
        if all(e < 2 for m in f for _, e in m):
            return []
        try:
            import sympy
        except ImportError:
            return []
        syms = {a: sympy.Symbol('a%d' % a) for a in ids}
        ex = sympy.Add(*[sympy.Rational(Fraction(c).numerator, Fraction(c).denominator) *
                         sympy.Mul(*[syms[a] ** e for a, e in m]) for m, c in f.items()])
        out = []
        gens = [syms[a] for a in ids]
        _, facs = sympy.sqf_list(ex, *gens)
        for g, m in facs:
            if m >= 2:
                p = {}
                for mon, c in sympy.Poly(g, *gens).terms():
                    mm = tuple((a, int(e)) for a, e in zip(ids, mon) if e)
                    p[mm] = icoef(Fraction(int(c.p), int(c.q)))
                out.append((p, m // 2))
        return out

    # -- trigonometry ----------------------------------------------------------
    def angle_parts(self, r):
        """decompose an angle into [(base key, integer multiple)], const turn"""
        const = Fraction(0)
        parts = []
        if r.den:
            return None
        for m, c in r.num.items():
            c = Fraction(c)
            d = dict(m)
            if d == {self.pi.id: 1}:
                const += c
                continue
            pie = d.get(self.pi.id, 0)
            if pie == 1:
                rest = {a: e for a, e in d.items() if a != self.pi.id}
                if all(self.atoms[a].integer for a in rest) and c.denominator == 1:
                    if c % 2 == 0:
                        continue
                if len(rest) == 1 and list(rest.values()) == [1] and \
                        self.atoms[list(rest)[0]].kind == 'ang':
                    unit = Fraction(1)
                else:
                    unit = Fraction(1, 180)
            else:
                unit = Fraction(1)
            ratio = c / unit
            k = ratio.numerator
            parts.append(((m, unit / ratio.denominator), k))
        return parts, const

    def base_sc(self, key):
        m, unit = key
        d = dict(m)
        if unit == 1 and d.get(self.pi.id) == 1 and len(d) == 2:
            a = self.atoms[[x for x in d if x != self.pi.id][0]]
            if a.kind == 'ang':
                return a.data
        for a in self.kinds.get('cos', []):
            if a.data[0] == key:
                return self.atom_rat(a.data[1]), self.atom_rat(a)
        c = self.new('cos')
        s = self.new('sin')
        c.data = (key, s)
        s.data = (key, c)
        s.sq = padd(pconst(1), {((c.id, 2),): -1})
        self._setrow(c, {m: 1})
        self._setrow(s, {m: 1})
        return self.atom_rat(s), self.atom_rat(c)

    def const_sc(self, t):
        """sin, cos of t*pi"""
        t = t % 2
        if t.denominator <= 2:
            return {0: (0, 1), Fraction(1, 2): (1, 0), 1: (0, -1), Fraction(3, 2): (-1, 0)}[t]
        return None

    def sincos(self, r):
        dec = self.angle_parts(r)
        if dec is None:
            return self._opaque_sc(r)
        parts, const = dec
        base = const - const % Fraction(1, 2)
        if (const - base).denominator > 2 and const != base:
            rem = const - base
            if rem == Fraction(1, 4):
                h = self.rmul(self.sqrt_int(2), self.const(Fraction(1, 2)))
                s0, c0 = h, h
            elif rem in (Fraction(1, 6), Fraction(1, 3)):
                h = self.rmul(self.sqrt_int(3), self.const(Fraction(1, 2)))
                half = self.const(Fraction(1, 2))
                s0, c0 = (half, h) if rem == Fraction(1, 6) else (h, half)
            else:
                key = (((self.pi.id, 1),), rem)
                s0, c0 = self.base_sc(key)
        else:
            s0, c0 = self.const(0), self.const(1)
        s1, c1 = self.const_sc(base)
        s, c = self._addsc(s0, c0, self.const(s1), self.const(c1))
        for key, k in parts:
            sb, cb = self.base_sc(key)
            if k < 0:
                sb = self.rmul(sb, self.const(-1))
                k = -k
            if k > 8:
                return self._opaque_sc(r)
            for _ in range(k):
                s, c = self._addsc(s, c, sb, cb)
        return s, c

    def _addsc(self, s1, c1, s2, c2):
        s = self.radd(self.rmul(s1, c2), self.rmul(c1, s2))
        c = self.radd(self.rmul(c1, c2), self.rmul(self.const(-1), self.rmul(s1, s2)))
        return s, c

    def _opaque_sc(self, r):
        for a in self.kinds.get('ocos', []):
            if self.iszero(self.rsub(a.data[0], r)):
                return self.atom_rat(a.data[1]), self.atom_rat(a)
        c = self.new('ocos')
        s = self.new('osin')
        c.data, s.data = (r, s), (r, c)
        s.sq = padd(pconst(1), {((c.id, 2),): -1})
        self._ratrow(c, r)
        self._ratrow(s, r)
        return self.atom_rat(s), self.atom_rat(c)

    def angle_atom(self, s, c):
        """angle in (-pi, pi] with sine s and cosine c, as a Rat"""
        sc, cc = self.rconst(s), self.rconst(c)
        if sc is not None and cc is not None:
            t = {(0, 1): 0, (1, 0): Fraction(1, 2), (0, -1): 1, (-1, 0): Fraction(-1, 2)}.get((sc, cc))
            if t is not None:
                return Rat(self.pimono(pconst(t), 1)) if t else Rat({})
        for a in self.kinds.get('ang', []):
            s2, c2 = a.data
            try:
                if self.iszero(self.rsub(s, s2)) and self.iszero(self.rsub(c, c2)):
                    return Rat({tuple(sorted([(a.id, 1), (self.pi.id, 1)])): 1})
            except Budget:
                pass
        a = self.new('ang', (s, c))
        self._ratrow(a, s, c)
        t = self._shift_sign(s.num) if s.num else 1
        for f, m in s.den.values():
            if m % 2 and t is not None:
                t2 = self._shift_sign(f)
                t = None if t2 is None else t * t2
        if t == 1:
            a.nonneg = True          # sine >= 0: angle in [0, pi]
        return Rat({tuple(sorted([(a.id, 1), (self.pi.id, 1)])): 1})

    def rconst(self, r):
        if not r.num:
            return 0
        if not r.den and set(r.num) == {CONST}:
            return r.num[CONST]
        return None

    def rsub(self, a, b):
        return self.radd(a, Rat(pscale(b.num, -1), b.den))

    def iszero(self, r):
        return not self.finish(r.num)

    def finish(self, p):
        return p

    # -- sums ---------------------------------------------------------------
    def rsum(self, seg, body, seglen):
        rowden = False
        for f, m in body.den.values():
            if any(self.atoms[a].row == seg for a in patoms(f)):
                rowden = True
        if rowden:
            return self._opaque('sum:' + seg, [body], nonneg=False)
        groups = {}
        for m, c in body.num.items():
            rm = tuple((a, e) for a, e in m if self.atoms[a].row == seg)
            om = tuple((a, e) for a, e in m if self.atoms[a].row != seg)
            groups.setdefault(rm, {})[om] = c
        out = Rat({})
        for rm, coef in groups.items():
            t = Rat(coef, dict(body.den))
            out = self.radd(out, self.rmul(t, self.sum_atom(seg, rm, seglen)))
        return out

    def sum_atom(self, seg, rm, seglen):
        if not rm:
            return self.norm(seglen)
        rule = self.sumrules.get((seg, rm))
        if rule is not None:
            return rule
        for a in self.kinds.get('sum', []):
            if a.data == (seg, rm):
                return self.atom_rat(a)
        a = self.new('sum', (seg, rm))
        a.nonneg = all(e % 2 == 0 or self.atoms[i].nonneg for i, e in rm)
        a.name = 'sum[%s](%s)' % (seg, self.mono_str(rm))
        return self.atom_rat(a)

    def add_sumrule(self, seg, rm, rat):
        self.sumrules[(seg, rm)] = rat
        self.memo.clear()

    def _opaque(self, kind, rats, nonneg=False):
        for a in self.kinds.get(kind, []):
            if len(a.data) == len(rats) and all(
                    self.iszero(self.rsub(x, y)) for x, y in zip(a.data, rats)):
                return self.atom_rat(a)
        a = self.new(kind, rats)
        a.nonneg = nonneg
        if not kind.startswith('sum:'):
            self._ratrow(a, *rats)
        return self.atom_rat(a)

    # -- main entry -------------------------------------------------------------
    seg_lengths = None

    def norm(self, e):
        r = self.memo.get(e.id)
        if r is not None:
            return r
        for n in X.topo([e]):
            if n.id not in self.memo:
                self.memo[n.id] = self._norm1(n)
        return self.memo[e.id]

    def _norm1(self, n):
        op = n.op
        a = [self.memo[x.id] for x in n.args if isinstance(x, E)]
        if op == 'num':
            return self.const(n.args[0])
        if op == 'pi':
            return self.atom_rat(self.pi)
        if op in ('var', 'row'):
            return self.atom_rat(self.variable(n))
        if op == 'add':
            return self.radd(a[0], a[1])
        if op == 'neg':
            return Rat(pscale(a[0].num, -1), a[0].den)
        if op == 'mul':
            return self.rmul(a[0], a[1])
        if op == 'div':
            return self.rmul(a[0], self.rinv(a[1]))
        if op == 'sqrt':
            return self.rsqrt(a[0])
        if op == 'abs':
            return self.rabs(a[0])
        if op == 'sin':
            return self.sincos(a[0])[0]
        if op == 'cos':
            return self.sincos(a[0])[1]
        if op == 'atan2':
            y, x = a
            rho = self.rsqrt(self.radd(self.rmul(x, x), self.rmul(y, y)))
            if not rho.num:
                return Rat({})
            inv = self.rinv(rho)
            return self.angle_atom(self.rmul(y, inv), self.rmul(x, inv))
        if op in ('acos', 'asin'):
            o = self.rsqrt(self.rsub(self.const(1), self.rmul(a[0], a[0])))
            return self.angle_atom(o, a[0]) if op == 'acos' else self.angle_atom(a[0], o)
        if op == 'sum':
            return self.rsum(n.args[0], a[0], self.seg_lengths[n.args[0]])
        if op == 'asinh':
            return self._opaque('asinh', [a[0]])
        if op in ('cosh', 'sinh'):
            x = self._is_atom(a[0], 'asinh')
            if x is not None:
                arg = x.data[0]
                if op == 'sinh':
                    return arg
                return self.rsqrt(self.radd(self.const(1), self.rmul(arg, arg)))
            return self._opaque(op, [a[0]], nonneg=(op == 'cosh'))
        if op == 'floor':
            r = self._opaque('floor', [a[0]])
            at = self.atoms[next(iter(r.num))[0][0]]
            at.integer = True
            return r
        if op == 'app':
            return self._opaque('app:' + n.args[0], a, nonneg=n.args[0].endswith('+'))
        return self._opaque(op, a, nonneg=(op == 'exp'))

    def _is_atom(self, r, kind):
        if r.den or len(r.num) != 1:
            return None
        (m, c), = r.num.items()
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return None
        at = self.atoms[m[0][0]]
        return at if at.kind == kind else None

    # -- display --------------------------------------------------------------
    def mono_str(self, m):
        return '*'.join(self.atoms[a].name + ('^%d' % e if e != 1 else '') for a, e in m) or '1'

    def poly_str(self, p, limit=12):
        t = ['%s*%s' % (c, self.mono_str(m)) for m, c in list(p.items())[:limit]]
        return ' + '.join(t) + (' + ... (%d terms)' % len(p) if len(p) > limit else '')


def _solve_sum(self, lhs, rhs):
    """orient lhs == rhs as a rewrite rule for one sum atom of lhs"""
    if lhs.den and any(self.atoms[a].kind == 'sum' for f, _ in lhs.den.values() for a in patoms(f)):
        return False
    # lhs.num / D == rhs ; pick a sum atom occurring linearly, alone in its monomial up to a constant*D-like factor
    best = None
    for m, c in lhs.num.items():
        sums = [(a, e) for a, e in m if self.atoms[a].kind == 'sum']
        if len(sums) == 1 and sums[0][1] == 1:
            a = sums[0][0]
            others = [mm for mm in lhs.num if mm != m and any(x == a for x, _ in mm)]
            deg = sum(e for _, e in self.atoms[a].data[1])
            cand = (deg, a)
            if best is None or cand > best:
                best = cand
    if best is None:
        return False
    a = best[1]
    coef, rest = {}, {}
    for m, c in lhs.num.items():
        if any(x == a for x, _ in m):
            coef[tuple((x, e) for x, e in m if x != a)] = c
        else:
            rest[m] = c
    # a = (rhs*D - rest)/coef
    D = pconst(1)
    for f, k in lhs.den.values():
        D = self.pmul(D, self.ppow(f, k))
    val = self.rsub(self.rmul(rhs, Rat(D)), Rat(rest))
    val = self.rmul(val, self.rinv(Rat(coef)))
    self.add_sumrule(self.atoms[a].data[0], self.atoms[a].data[1], val)
    return True


Normalizer.solve_sum = _solve_sum
