"""Sparse multivariate polynomials with exact rational coefficients.

A monomial is one Python int: variable i owns bits [W*i, W*i+W), so a product
of monomials is an integer addition.  Coefficients are ints or Fractions.

Variables may carry a rewriting rule v**k -> polynomial (square roots, sines,
roots of a polynomial); products are kept in normal form with respect to the
rules, so two equal values have equal representations whenever the rules are a
complete set for the extension.
"""
from fractions import Fraction

W = 10
MASK = (1 << W) - 1


class PolyTooBig(BaseException):
    pass


MAXTERMS = 400000


class Space:
    """Variable registry of one exploration path."""

    def __init__(self):
        self.names = []
        self.rules = {}        # idx -> (deg, Poly)
        self.cplx = set()      # indices of root variables (complex valued)
        self.rule_order = []
        self.nil = []          # (idx, maxdeg): truncate formal variable powers

    def new(self, name):
        self.names.append(name)
        return len(self.names) - 1

    def var(self, idx):
        return Poly({1 << (W * idx): 1})

    def set_rule(self, idx, deg, poly):
        self.rules[idx] = (deg, poly)
        self.rule_order.append(idx)


SPACE = Space()


def set_space(sp):
    global SPACE
    SPACE = sp


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('t', '_h', '_z3')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._z3 = None

    # -- basics ---------------------------------------------------------
    @staticmethod
    def const(c):
        if isinstance(c, float):
            c = Fraction(c)
        c = _norm(c)
        return Poly({0: c}) if c else Poly({})

    def is_zero(self):
        return not self.t

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and 0 in t)

    def cval(self):
        return self.t.get(0, 0)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x:
                    r[m] = _norm(x)
                else:
                    del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not o.t:
            return self
        return self + (-o)

    def scale(self, k):
        if not k:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return Poly({})
        if len(a) == 1 and 0 in a:
            return o.scale(a[0])
        if len(b) == 1 and 0 in b:
            return self.scale(b[0])
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 60 * MAXTERMS:
            raise PolyTooBig()
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = m1 + m2
                r[m] = get(m, 0) + c1 * c2
        r = {m: _norm(c) for m, c in r.items() if c}
        if len(r) > MAXTERMS:
            raise PolyTooBig()
        p = Poly(r)
        if SPACE.rules or SPACE.nil:
            p = p.reduce()
        return p

    def __pow__(self, k):
        r = Poly({0: 1})
        b = self
        while k:
            if k & 1:
                r = r * b
            k >>= 1
            if k:
                b = b * b
        return r

    # -- rewriting --------------------------------------------------------
    def reduce(self):
        p = self
        for idx, maxdeg in SPACE.nil:
            sh = W * idx
            if any(((m >> sh) & MASK) > maxdeg for m in p.t):
                p = Poly({m: c for m, c in p.t.items()
                          if ((m >> sh) & MASK) <= maxdeg})
        if not SPACE.rules:
            return p
        changed = True
        while changed:
            changed = False
            for idx in reversed(SPACE.rule_order):
                deg, rhs = SPACE.rules[idx]
                sh = W * idx
                bad = [m for m in p.t if ((m >> sh) & MASK) >= deg]
                if not bad:
                    continue
                changed = True
                t = dict(p.t)
                groups = {}
                for m in bad:
                    c = t.pop(m)
                    e = (m >> sh) & MASK
                    q, rem = divmod(e, deg)
                    rest = m - (e << sh) + (rem << sh)
                    g = groups.setdefault(q, {})
                    g[rest] = g.get(rest, 0) + c
                acc = Poly(t)
                for q, g in groups.items():
                    f = _rawpow(rhs, q)
                    acc = acc + _rawmul(Poly(g), f)
                p = acc
        return p

    # -- queries ------------------------------------------------------------
    def vars(self):
        m = 0
        for k in self.t:
            m |= k
        out = []
        i = 0
        while m:
            if m & MASK:
                out.append(i)
            m >>= W
            i += 1
        return out

    def deg(self, idx):
        sh = W * idx
        return max((((m >> sh) & MASK) for m in self.t), default=0)

    def coeffs_in(self, idx):
        """dict power -> Poly in the remaining variables"""
        sh = W * idx
        out = {}
        for m, c in self.t.items():
            e = (m >> sh) & MASK
            out.setdefault(e, {})[m - (e << sh)] = c
        return {e: Poly(t) for e, t in out.items()}

    def total_deg(self):
        best = 0
        for m in self.t:
            s = 0
            while m:
                s += m & MASK
                m >>= W
            best = max(best, s)
        return best

    def eval(self, vals):
        """vals: list/dict idx -> number"""
        tot = 0
        cache = {}
        for m, c in self.t.items():
            v = c
            i = 0
            while m:
                e = m & MASK
                if e:
                    key = (i, e)
                    w = cache.get(key)
                    if w is None:
                        w = cache[key] = vals[i] ** e
                    v = v * w
                m >>= W
                i += 1
            tot = tot + v
        return tot

    def lead(self):
        return max(self.t)

    def monic(self):
        """(unit, poly) with leading coefficient 1"""
        if not self.t:
            return 1, self
        c = self.t[max(self.t)]
        if c == 1:
            return 1, self
        inv = Fraction(1) / c
        return c, Poly({m: _norm(k * inv) for m, k in self.t.items()})

    def monomial_content(self):
        """gcd of the monomials as packed int"""
        it = iter(self.t)
        g = next(it)
        for m in it:
            if not g:
                return 0
            r = 0
            sh = 0
            a, b = g, m
            while a and b:
                x = min(a & MASK, b & MASK)
                r |= x << sh
                a >>= W
                b >>= W
                sh += W
            g = r
        return g

    def shift_down(self, mono):
        return Poly({m - mono: c for m, c in self.t.items()})

    def exact_div(self, o, limit=4000):
        """self / o when exact (no rules involved), else None"""
        if not self.t:
            return self
        if len(self.t) > limit or len(o.t) > limit:
            return None
        lm = max(o.t)
        lc = o.t[lm]
        inv = Fraction(1) / lc if lc != 1 else 1
        rem = dict(self.t)
        q = {}
        steps = 0
        while rem:
            m = max(rem)
            if not _divides(lm, m):
                return None
            c = _norm(rem[m] * inv)
            dm = m - lm
            q[dm] = c
            for k, v in o.t.items():
                kk = k + dm
                x = rem.get(kk, 0) - c * v
                if x:
                    rem[kk] = x
                else:
                    rem.pop(kk, None)
            steps += 1
            if steps > limit:
                return None
        return Poly(q)

    def sqrt(self):
        """polynomial square root if perfect square else None"""
        if not self.t:
            return self
        if len(self.t) > 400:
            return None
        lm = max(self.t)
        lc = Fraction(self.t[lm])
        if lc < 0 or not _halfable(lm):
            return None
        rc = _fsqrt(lc)
        if rc is None:
            return None
        hm = _half(lm)
        root = Poly({hm: _norm(rc)})
        rem = self - _rawmul(root, root)
        steps = 0
        while rem.t:
            m = max(rem.t)
            if not _divides(hm, m):
                return None
            c = _norm(Fraction(rem.t[m]) / (2 * rc))
            term = Poly({m - hm: c})
            if m - hm >= hm:
                return None
            rem = rem - _rawmul(root, term).scale(2) - _rawmul(term, term)
            root = root + term
            steps += 1
            if steps > 60:
                return None
        return root

    def __repr__(self):
        if not self.t:
            return '0'
        parts = []
        for m, c in sorted(self.t.items(), reverse=True)[:12]:
            s = []
            i = 0
            while m:
                e = m & MASK
                if e:
                    n = SPACE.names[i] if i < len(SPACE.names) else f'v{i}'
                    s.append(n if e == 1 else f'{n}^{e}')
                m >>= W
                i += 1
            cs = str(c) if abs(float(c)) < 1e6 and len(str(c)) < 12 else f'{float(c):.6g}'
            parts.append('*'.join([cs] + s) if (cs != '1' or not s) else '*'.join(s))
        return ' + '.join(parts) + (' + ...' if len(self.t) > 12 else '')


def _rawmul(a, b):
    r = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = m1 + m2
            r[m] = r.get(m, 0) + c1 * c2
    return Poly({m: _norm(c) for m, c in r.items() if c})


def _rawpow(p, k):
    r = p
    for _ in range(k - 1):
        r = _rawmul(r, p)
        # keep normal form while powering
        r = r.reduce() if SPACE.rules else r
    return r


def _divides(a, b):
    while a:
        if (a & MASK) > (b & MASK):
            return False
        a >>= W
        b >>= W
    return True


def _halfable(m):
    while m:
        if m & 1:
            return False
        m >>= W
    return True


def _half(m):
    r = 0
    sh = 0
    while m:
        r |= ((m & MASK) >> 1) << sh
        m >>= W
        sh += W
    return r


def _isqrt(n):
    from math import isqrt
    r = isqrt(n)
    return r if r * r == n else None


def _fsqrt(q):
    a = _isqrt(q.numerator)
    b = _isqrt(q.denominator)
    if a is None or b is None:
        return None
    return Fraction(a, b)


ZERO = Poly({})
ONE = Poly({0: 1})
