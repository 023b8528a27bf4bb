"""Symbolic scalars, formulas and the path explorer.

SymReal  : exact rational function  n / prod(f**e)  over path variables
SymComplex : pair of SymReal
SymBool  : formula over polynomial sign conditions; bool() on it is a branch
Path     : one execution path (variables, path condition, decisions)
"""
import math
import random
import time
from fractions import Fraction

from . import poly as P
from .poly import Poly, ONE, ZERO
from .z3mod import z3


class Steer(BaseException):
    """Base of the exceptions that end a path (never an Exception, so the
    code under test cannot swallow it with `except Exception`)."""


class Unsupported(Steer):
    pass


class Infeasible(Steer):
    pass


class DivZero(Steer):
    pass


class Budget(Steer):
    pass


PATH = None          # current Path
TINY = Fraction(1, 10**6)


def cur():
    return PATH


def steer(exc):
    if PATH is not None and PATH.aborted is None:
        PATH.aborted = exc
    raise exc


def unsupported(msg):
    steer(Unsupported(msg))


# ---------------------------------------------------------------- formulas
TRUE = ('c', True)
FALSE = ('c', False)


def atom(p, rel):
    if p.is_const():
        c = p.cval()
        return TRUE if {'==': c == 0, '<': c < 0, '<=': c <= 0}[rel] else FALSE
    if rel == '==':
        p = p.monic()[1]
    return ('a', p, rel)


def f_not(f):
    k = f[0]
    if k == 'c':
        return FALSE if f[1] else TRUE
    if k == 'n':
        return f[1]
    if k == 'a' and f[2] == '<':
        return ('a', -f[1], '<=')
    if k == 'a' and f[2] == '<=':
        return ('a', -f[1], '<')
    return ('n', f)


def f_and(fs):
    out = []
    for f in fs:
        if f[0] == 'c':
            if not f[1]:
                return FALSE
            continue
        if f[0] == '&':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('&', tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f[0] == 'c':
            if f[1]:
                return TRUE
            continue
        if f[0] == '|':
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('|', tuple(out))


def f_vars(f, acc):
    k = f[0]
    if k == 'a':
        acc.update(f[1].vars())
    elif k == 'n':
        f_vars(f[1], acc)
    elif k in '&|':
        for g in f[1]:
            f_vars(g, acc)
    return acc


def p_z3(p, path):
    e = p._z3
    if e is not None:
        return e
    terms = []
    zv = path.zvar
    for m, c in p.t.items():
        fs = []
        i = 0
        while m:
            x = m & P.MASK
            if x:
                v = zv(i)
                fs.extend([v] * x)
            m >>= P.W
            i += 1
        if c != 1 or not fs:
            c = Fraction(c)
            fs.insert(0, z3.RatVal(c.numerator, c.denominator)
                      if c.denominator != 1 else z3.RealVal(c.numerator))
        terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    if not terms:
        e = z3.RealVal(0)
    elif len(terms) == 1:
        e = terms[0]
    else:
        e = z3.Sum(*terms)
    p._z3 = e
    return e


def f_z3(f, path):
    k = f[0]
    if k == 'c':
        return z3.BoolVal(f[1])
    if k == 'a':
        e = p_z3(f[1], path)
        if f[2] == '==':
            return e == 0
        if f[2] == '<':
            return e < 0
        return e <= 0
    if k == 'n':
        return z3.Not(f_z3(f[1], path))
    sub = [f_z3(g, path) for g in f[1]]
    return z3.And(*sub) if k == '&' else z3.Or(*sub)


def f_eval(f, vals, exact):
    """True/False/None(None: too close to call in float evaluation)"""
    k = f[0]
    if k == 'c':
        return f[1]
    if k == 'a':
        try:
            v = f[1].eval(vals)
        except (OverflowError, KeyError):
            return None
        if not exact or isinstance(v, float):
            # float evaluation: compare against the size of the terms
            if not isinstance(v, (float, int, Fraction)):
                return None
            v = float(v)
            if v != v:
                return None
            if abs(v) < 1e-7:
                return None
        if f[2] == '==':
            return v == 0
        if f[2] == '<':
            return v < 0
        return v <= 0
    if k == 'n':
        r = f_eval(f[1], vals, exact)
        return None if r is None else not r
    if k == '&':
        res = True
        for g in f[1]:
            r = f_eval(g, vals, exact)
            if r is False:
                return False
            if r is None:
                res = None
        return res
    res = False
    for g in f[1]:
        r = f_eval(g, vals, exact)
        if r is True:
            return True
        if r is None:
            res = None
    return res


class SymBool:
    __slots__ = ('f',)
    __array_priority__ = 1000

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return PATH.decide(self.f)

    def __and__(self, o):
        return mkbool(f_and([self.f, fof(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or([self.f, fof(o)]))
    __ror__ = __or__

    def __xor__(self, o):
        g = fof(o)
        return mkbool(f_or([f_and([self.f, f_not(g)]),
                            f_and([f_not(self.f), g])]))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(f_not(self.f))

    def logical_not(self):
        return mkbool(f_not(self.f))

    def __eq__(self, o):
        return mkbool(f_not((self ^ o).f)) if isinstance(self ^ o, SymBool) \
            else not (self ^ o)

    def __ne__(self, o):
        return self ^ o

    def __hash__(self):
        return id(self)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __gt__(self, o):
        return int(self) > o

    def __lt__(self, o):
        return int(self) < o

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f'SymBool({self.f})'

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import sarr
        return sarr.dispatch_ufunc(ufunc, method, a, k)


def fof(x):
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, (SymReal, SymComplex)):
        return x.nonzero_f()
    return TRUE if x else FALSE


def mkbool(f):
    if f[0] == 'c':
        return f[1]
    if PATH is not None:
        k = PATH.known.get(f)
        if k is not None:
            return k
    return SymBool(f)


def b_and(xs):
    return mkbool(f_and([fof(x) for x in xs]))


def b_or(xs):
    return mkbool(f_or([fof(x) for x in xs]))


def b_not(x):
    return mkbool(f_not(fof(x)))


# ---------------------------------------------------------------- scalars
_NUM = (int, float, Fraction)


def is_sym(x):
    return isinstance(x, (SymReal, SymComplex))


def lift(x):
    """python/numpy number -> SymReal/SymComplex; inf and nan stay floats"""
    if isinstance(x, (SymReal, SymComplex, SymBool)):
        return x
    if isinstance(x, bool):
        return SymReal(Poly.const(int(x)))
    if isinstance(x, int):
        return SymReal(Poly.const(x))
    if isinstance(x, Fraction):
        return SymReal(Poly.const(x))
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return float(x)
        return SymReal(Poly.const(Fraction(float(x))))
    if isinstance(x, complex):
        return SymComplex(lift(x.real), lift(x.imag))
    import numpy as np
    if isinstance(x, np.generic):
        return lift(x.item())
    if isinstance(x, np.ndarray) and x.size == 1:
        return lift(x.reshape(-1)[0])
    return None


def _dmul(d1, d2):
    if not d1:
        return d2
    if not d2:
        return d1
    r = dict(d1)
    for f, e in d2.items():
        r[f] = r.get(f, 0) + e
    return r


def _dprod(d):
    p = ONE
    for f, e in d.items():
        p = p * (f if e == 1 else f ** e)
    return p


def _mk(n, d):
    """normalise n / d lightly"""
    if not n.t:
        return SymReal(ZERO, _E)
    if d:
        u = None
        for f in list(d):
            e = d[f]
            if len(f.t) == 1:          # a single monomial, coefficient 1
                (fm,) = f.t
                while e and all(P._divides(fm, m) for m in n.t):
                    n = n.shift_down(fm)
                    e -= 1
            elif len(n.t) <= 400 and len(n.t) >= len(f.t) and len(f.t) <= 80:
                while e:
                    if not P._divides(f.lead(), n.lead()):
                        break
                    q = n.exact_div(f, 3000)
                    if q is None:
                        break
                    n = q
                    e -= 1
            if e != d[f]:
                if u is None:
                    u = dict(d)
                    d = u
                if e:
                    u[f] = e
                else:
                    del u[f]
    return SymReal(n, d)


_E = {}


class SymReal:
    __slots__ = ('n', 'd', '__weakref__')
    __array_priority__ = 1000

    def __init__(self, n, d=_E):
        self.n = n
        self.d = d

    # --- conversions ----------------------------------------------------
    def is_const(self):
        return not self.d and self.n.is_const()

    def cval(self):
        return Fraction(self.n.cval())

    def __float__(self):
        if self.is_const():
            return float(self.n.cval())
        unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.n.cval())
        k = PATH.concretize_int(self)
        return k

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.n.cval())
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __round__(self, nd=None):
        if self.is_const():
            return round(float(self), nd) if nd is not None else round(self.cval())
        unsupported('round() of a symbolic value')

    def __trunc__(self):
        return int(self)

    def __complex__(self):
        return complex(float(self))

    def __hash__(self):
        return hash((self.n, frozenset(self.d.items())))

    def __bool__(self):
        r = mkbool(self.nonzero_f())
        return bool(r)

    def nonzero_f(self):
        return f_not(atom(self.n, '=='))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return format(float(self), spec) if self.is_const() else '<sym>'

    def item(self):
        return self

    def tolist(self):
        return self

    def is_integer(self):
        if self.is_const():
            return self.cval().denominator == 1
        unsupported('is_integer of symbolic')

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    # --- arithmetic -------------------------------------------------------
    def _co(self, o):
        if isinstance(o, (SymReal, SymComplex)):
            return o
        if isinstance(o, SymBool):
            return lift(int(bool(o)))
        import numpy as np
        if isinstance(o, np.ndarray):
            return None
        return lift(o)

    def __add__(self, o):
        o = self._co(o)
        if type(o) is not SymReal:
            return _mixed(self, o, 'add')
        if not self.n.t:
            return o
        if not o.n.t:
            return self
        d1, d2 = self.d, o.d
        if d1 is d2 or d1 == d2:
            return _mk(self.n + o.n, d1) if d1 else SymReal(self.n + o.n)
        lc = dict(d1)
        for f, e in d2.items():
            if lc.get(f, 0) < e:
                lc[f] = e
        m1 = ONE
        m2 = ONE
        for f, e in lc.items():
            k = e - d1.get(f, 0)
            if k:
                m1 = m1 * (f if k == 1 else f ** k)
            k = e - d2.get(f, 0)
            if k:
                m2 = m2 * (f if k == 1 else f ** k)
        return _mk(self.n * m1 + o.n * m2, lc)
    __radd__ = __add__

    def __neg__(self):
        return SymReal(-self.n, self.d)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if type(o) is not SymReal:
            return _mixed(self, o, 'sub')
        return self + (-o)

    def __rsub__(self, o):
        o = self._co(o)
        if type(o) is not SymReal:
            return _mixed(o, self, 'sub')
        return o + (-self)

    def __mul__(self, o):
        o = self._co(o)
        if type(o) is not SymReal:
            return _mixed(self, o, 'mul')
        if not self.n.t or not o.n.t:
            return SymReal(ZERO)
        d1, d2 = self.d, o.d
        n1, n2 = self.n, o.n
        if not d1 and not d2:
            return SymReal(n1 * n2)
        if d1 and not n2.is_const():
            u, m = n2.monic()
            if m in d1:
                d1 = dict(d1)
                d1[m] -= 1
                if not d1[m]:
                    del d1[m]
                n2 = Poly.const(u)
        if d2 and not n1.is_const():
            u, m = n1.monic()
            if m in d2:
                d2 = dict(d2)
                d2[m] -= 1
                if not d2[m]:
                    del d2[m]
                n1 = Poly.const(u)
        return _mk(n1 * n2, _dmul(d1, d2))
    __rmul__ = __mul__

    def inv(self):
        n = self.n
        if n.is_const():
            if not n.t:
                steer(DivZero('division by an exact zero'))
            return SymReal(_dprod(self.d).scale(Fraction(1) / Fraction(n.cval())))
        PATH.need_nonzero(n)
        u, m = n.monic()
        d = {}
        # split off a monomial content so that it cancels cheaply
        c = m.monomial_content()
        if c and len(m.t) > 1:
            m = m.shift_down(c)
            d[m] = 1
            d = _dmul(d, _monofactors(c))
        elif len(m.t) == 1:
            d = _monofactors(c if c else next(iter(m.t)))
        else:
            d[m] = 1
        return _mk(_dprod(self.d).scale(Fraction(1) / u), d)

    def __truediv__(self, o):
        o = self._co(o)
        if type(o) is not SymReal:
            return _mixed(self, o, 'div')
        if o.is_const() and o.n.t:
            return SymReal(self.n.scale(Fraction(1) / Fraction(o.n.cval())), self.d)
        if not o.n.t and PATH.opts.get('ieee_div'):
            # numpy scalars divided by an exact zero
            return math.inf if bool(self > 0) else \
                -math.inf if bool(self < 0) else math.nan
        return self * o.inv()

    def __rtruediv__(self, o):
        o = self._co(o)
        if type(o) is not SymReal:
            return _mixed(o, self, 'div')
        return o / self

    def __floordiv__(self, o):
        o = lift(o)
        if self.is_const() and type(o) is SymReal and o.is_const():
            return SymReal(Poly.const(self.cval() // o.cval()))
        return PATH.floor(self / o)

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        if self.is_const() and o.is_const():
            return SymReal(Poly.const(self.cval() % o.cval()))
        return self - o * PATH.floor(self / o)

    def __rmod__(self, o):
        return lift(o) % self

    def __pow__(self, o):
        o = lift(o)
        if isinstance(o, SymReal) and o.is_const():
            c = o.cval()
            if c.denominator == 1:
                k = int(c)
                if k < 0:
                    return self.inv() ** (-k)
                if k == 0:
                    return lift(1)
                r = self
                for _ in range(k - 1):
                    r = r * self
                return r
            if c == Fraction(1, 2):
                return self.sqrt()
            if c == Fraction(-1, 2):
                return self.sqrt().inv()
        if self.is_const() and isinstance(o, SymReal) and o.is_const():
            return lift(float(self) ** float(o))
        unsupported('power with symbolic exponent')

    def __rpow__(self, o):
        return lift(o) ** self

    def __abs__(self):
        if self.is_const():
            return SymReal(Poly.const(abs(self.cval())))
        return PATH.abs_(self)

    def fabs(self):
        return abs(self)

    # --- comparison --------------------------------------------------------
    def _cmp(self, o, rel):
        """formula self rel o"""
        o2 = self._co(o)
        if o2 is None:
            return NotImplemented
        if isinstance(o2, float):            # inf / nan
            if o2 != o2:
                return rel == '!='
            pos = o2 > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[rel]
        if isinstance(o2, SymComplex):
            if rel in ('==', '!='):
                return o2._cmp(self, rel)
            raise TypeError('complex ordering')
        x, o = self, o2
        if rel in ('>', '>='):
            x, o, rel = o, x, {'>': '<', '>=': '<='}[rel]
        if rel in ('<', '<=') and PATH is not None:
            r = PATH.band(x, o, rel)
            if r is not None:
                return r
            r = PATH.roots_cmp(x, o)
            if r is not None:
                x, o = r
        df = x - o
        if rel == '==':
            return mkbool(atom(df.n, '=='))
        if rel == '!=':
            return mkbool(f_not(atom(df.n, '==')))
        return mkbool(sign_atom(df, rel))

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    # --- numpy object-ufunc protocol ------------------------------------
    def conjugate(self):
        self._noroot()
        return self

    conj = conjugate

    def _noroot(self):
        sp = P.SPACE
        if sp.cplx:
            for v in self.n.vars():
                if v in sp.cplx:
                    unsupported('real part of a generic polynomial root')

    @property
    def real(self):
        self._noroot()
        return self

    @property
    def imag(self):
        self._noroot()
        return SymReal(ZERO)

    def has_root(self):
        sp = P.SPACE
        if not sp.cplx:
            return False
        return any(v in sp.cplx for v in self.n.vars())

    def sqrt(self):
        return PATH.sqrt(self)

    def square(self):
        return self * self

    def exp(self):
        return PATH.exp(self)

    def log(self):
        return PATH.log(self)

    def log10(self):
        return PATH.log10(self)

    def log2(self):
        return PATH.uf('log2', self, math.log2)

    def cos(self):
        return PATH.cossin(self)[0]

    def sin(self):
        return PATH.cossin(self)[1]

    def tan(self):
        return PATH.uf('tan', self, math.tan)

    def arctan(self):
        return PATH.uf('arctan', self, math.atan)

    def floor(self):
        return PATH.floor(self)

    def ceil(self):
        return -PATH.floor(-self)

    def rint(self):
        return PATH.floor(self + Fraction(1, 2))

    def sign(self):
        if bool(self > 0):
            return lift(1)
        if bool(self < 0):
            return lift(-1)
        return lift(0)

    def reciprocal(self):
        return self.inv()

    def __repr__(self):
        if not self.d:
            return f'<{self.n!r}>'
        return f'<({self.n!r}) / ' + '*'.join(
            f'({f!r})^{e}' for f, e in self.d.items()) + '>'

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import sarr
        return sarr.dispatch_ufunc(ufunc, method, a, k)


def _monofactors(c):
    d = {}
    i = 0
    while c:
        e = c & P.MASK
        if e:
            d[Poly({1 << (P.W * i): 1})] = e
        c >>= P.W
        i += 1
    return d


def sign_atom(x, rel):
    """formula x rel 0 for a rational function"""
    n = x.n
    for f, e in x.d.items():
        if e & 1:
            s = PATH.sign_known(f) if PATH is not None else 0
            if s > 0:
                continue
            if s < 0:
                n = -n
                continue
            n = n * f
    return atom(n, rel)


def _mixed(a, b, op):
    """operations where one side is complex, inf/nan or foreign"""
    if a is None or b is None:
        return NotImplemented
    if isinstance(a, float) or isinstance(b, float):
        # inf / nan arithmetic
        fa = a if isinstance(a, float) else None
        fb = b if isinstance(b, float) else None
        x = fa if fa is not None else fb
        if x != x:
            return x
        if op == 'add':
            return x
        if op == 'sub':
            return fa if fa is not None else -fb
        other = b if fa is not None else a
        if op == 'div' and fb is not None:
            return lift(0)
        if isinstance(other, SymReal):
            if bool(other > 0):
                return x
            if bool(other < 0):
                return -x
            return math.nan
        unsupported('inf arithmetic')
    ca = a if isinstance(a, SymComplex) else SymComplex(a, lift(0))
    cb = b if isinstance(b, SymComplex) else SymComplex(b, lift(0))
    return {'add': ca.__add__, 'sub': ca.__sub__, 'mul': ca.__mul__,
            'div': ca.__truediv__}[op](cb)


def is_zero_const(x):
    return isinstance(x, SymReal) and not x.n.t


class SymComplex:
    __slots__ = ('re', 'im')
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re = re
        self.im = im

    def is_const(self):
        return self.re.is_const() and self.im.is_const()

    def _co(self, o):
        if isinstance(o, SymComplex):
            return o
        import numpy as np
        if isinstance(o, np.ndarray):
            return None
        o = lift(o)
        if isinstance(o, SymReal):
            return SymComplex(o, lift(0))
        return o if isinstance(o, SymComplex) else (None if o is None else
                                                   unsupported('complex with inf'))

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __float__(self):
        raise TypeError("can't convert complex to float")

    def __add__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o - self

    def __mul__(self, o):
        if isinstance(o, SymReal):
            return SymComplex(self.re * o, self.im * o)
        o = self._co(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re * o.re - self.im * o.im,
                          self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def inv(self):
        m = self.re * self.re + self.im * self.im
        i = m.inv()
        return SymComplex(self.re * i, -self.im * i)

    def __truediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        if is_zero_const(o.im):
            return SymComplex(self.re / o.re, self.im / o.re)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = self._co(o)
        if o is None:
            return NotImplemented
        return o / self

    def __pow__(self, o):
        o = lift(o)
        if isinstance(o, SymReal) and o.is_const() and o.cval().denominator == 1:
            k = int(o.cval())
            if k < 0:
                return self.inv() ** (-k)
            r = SymComplex(lift(1), lift(0))
            for _ in range(k):
                r = r * self
            return r
        unsupported('complex power')

    def __abs__(self):
        return PATH.sqrt(self.re * self.re + self.im * self.im, True)

    def nonzero_f(self):
        return f_not(f_and([atom(self.re.n, '=='), atom(self.im.n, '==')]))

    def __bool__(self):
        return bool(mkbool(self.nonzero_f()))

    def _cmp(self, o, rel):
        o = self._co(o)
        if o is None:
            return NotImplemented
        f = (self - o).nonzero_f()
        return mkbool(f) if rel == '!=' else mkbool(f_not(f))

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __lt__(self, o):
        raise TypeError("'<' not supported between complex")
    __gt__ = __le__ = __ge__ = __lt__

    def __hash__(self):
        return hash((self.re, self.im))

    def exp(self):
        m = lift(1) if is_zero_const(self.re) else self.re.exp()
        c, s = PATH.cossin(self.im)
        return SymComplex(m * c, m * s)

    def sqrt(self):
        unsupported('complex sqrt')

    def log(self):
        m = self.re * self.re + self.im * self.im
        r = PATH.log(m)
        if isinstance(r, float):
            return r
        return SymComplex(r / 2, PATH.angle(self))

    def reciprocal(self):
        return self.inv()

    def square(self):
        return self * self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f'({self.re!r} + {self.im!r}j)'

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import sarr
        return sarr.dispatch_ufunc(ufunc, method, a, k)


# ---------------------------------------------------------------- statistics
class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.sampled_sat = 0

    def as_dict(self):
        return dict(self.__dict__)


STATS = Stats()


# ---------------------------------------------------------------- path
class Path:
    def __init__(self, prefix=(), model=None, opts=None):
        self.space = P.Space()
        self.prefix = list(prefix)
        self.decisions = []        # recorded decisions (value)
        self.alts = []             # (prefix, model)
        self.pc = []               # formulas
        self.known = {}            # formula -> bool
        self.inputs = {}           # name -> idx
        self.bounds = {}           # idx -> (lo, hi)
        self.derived = {}          # idx -> fn(vals)->float
        self.daxioms = {}          # idx -> [formula]
        self.logs = []             # (argument, value)
        self.dkeys = {}
        self.nz = set()
        self.divs = []
        self.aborted = None
        self.model = dict(model) if model else None
        self.opts = opts or {}
        self.qto = self.opts.get('query_ms', 4000)
        self.choices = []
        self._zv = {}
        self._vn = 0
        self.rng = random.Random(self.opts.get('seed', 1))
        self.deadline = self.opts.get('deadline')
        self.bands = []
        self.maxdec = self.opts.get('max_decisions', 400)
        self.name_count = {}
        self.stubs = set()         # kernel models used on this path
        self.hooks = {}            # harness-provided kernel models
        self.bal = 0
        self.absof = {}
        self.sqrtof = {}
        self.intvars = set()
        self.intinputs = set()

    # -- variables ---------------------------------------------------------
    def _new(self, name):
        k = self.name_count.get(name, 0)
        self.name_count[name] = k + 1
        if k:
            name = f'{name}~{k}'
        return self.space.new(name)

    def zvar(self, i):
        v = self._zv.get(i)
        if v is None:
            v = self._zv[i] = z3.Real(self.space.names[i])
        return v

    def input(self, name, lo=None, hi=None):
        if name in self.inputs:
            return SymReal(self.space.var(self.inputs[name]))
        i = self._new(name)
        self.inputs[name] = i
        self.bounds[i] = (lo, hi)
        v = SymReal(self.space.var(i))
        if lo is not None:
            self.assume(sign_atom(lift(lo) - v, '<='), bound=True)
        if hi is not None:
            self.assume(sign_atom(v - lift(hi), '<='), bound=True)
        return v

    def fresh(self, name):
        """unconstrained nondeterministic value (stub output)"""
        i = self._new(name)
        return SymReal(self.space.var(i))

    def derive(self, key, name, fn, deps):
        """a defined variable; key identifies the definition"""
        if key in self.dkeys:
            return self.dkeys[key], False
        i = self._new(name)
        self.derived[i] = (fn, deps)
        self.daxioms[i] = []
        v = SymReal(self.space.var(i))
        self.dkeys[key] = v
        return v, True

    def _idx(self, v):
        (m,) = v.n.t
        i = 0
        while not (m & P.MASK):
            m >>= P.W
            i += 1
        return i

    def abs_(self, x):
        u, m = x.n.monic()
        s = self.sign_known(m)
        if s and all(self.sign_known(f) or e % 2 == 0 for f, e in x.d.items()):
            sg = s * (1 if u > 0 else -1)
            for f, e in x.d.items():
                if e & 1:
                    sg *= self.sign_known(f)
            return x if sg > 0 else -x
        key = ('abs', m, frozenset(x.d.items()))
        base = SymReal(m, x.d)
        if x.d:
            # |n/d| = |n| / |d|
            r = self.abs_(SymReal(m))
            for f, e in x.d.items():
                g = self.abs_(SymReal(f)) if e & 1 else SymReal(f)
                r = r / (g ** e)
                # |f| is nonzero because f is
            return r * SymReal(Poly.const(abs(u)))
        def fn(vals, m=m):
            return abs(float(m.eval(vals)))
        v, new = self.derive(key, 'abs', fn, m.vars())
        if new:
            i = self._idx(v)
            self.space.set_rule(i, 2, m * m)
            self.daxioms[i] = [atom((-v).n, '<='),
                               f_or([atom(v.n - m, '=='), atom(v.n + m, '==')])]
            self.absof[v.n] = m
            if m in self.nz:
                self.nz.add(v.n)
        return v * SymReal(Poly.const(abs(u)))

    def sqrt(self, x, nonneg=False):
        """nonneg: the caller knows the radicand is a sum of squares"""
        if x.is_const():
            c = x.cval()
            if c < 0:
                return math.nan
            r = P._fsqrt(c)
            if r is not None:
                return SymReal(Poly.const(r))
            if self.opts.get('float_consts'):
                return lift(math.sqrt(c))
        if x.d:
            # sqrt(n/d) = sqrt(n*d)/|d| with even powers pulled out
            out = lift(1)
            n = x.n
            for f, e in x.d.items():
                h, r = divmod(e, 2)
                g = self.abs_(SymReal(f))
                out = out * g ** (h + r)
                if r:
                    n = n * f
            return self.sqrt(SymReal(n), nonneg) / out
        u, m = x.n.monic()
        ru = P._fsqrt(Fraction(abs(u)))
        if ru is None:
            m = m.scale(abs(u))
            u = 1 if u > 0 else -1
            ru = 1
        if u < 0:
            m = -m
        # pull out even monomial content
        c = m.monomial_content() if len(m.t) >= 1 else 0
        out = SymReal(Poly.const(ru))
        if c:
            h = 0
            sh = 0
            cc = c
            i = 0
            while cc:
                e = cc & P.MASK
                if e >= 2:
                    k = e // 2
                    m = m.shift_down((2 * k) << (P.W * i))
                    out = out * self.abs_(SymReal(self.space.var(i))) ** k
                cc >>= P.W
                i += 1
        if m.is_const():
            if m.cval() == 1:
                return out
            if P._fsqrt(Fraction(m.cval())) is not None:
                return out * self.sqrt(SymReal(m))
            if m.cval() > 0 and self.opts.get('float_consts'):
                return out * lift(math.sqrt(m.cval()))
        r = m.sqrt() if not m.is_const() else None
        if r is not None:
            return out * self.abs_(SymReal(r))
        # domain: m >= 0
        if not nonneg and not self._nonneg_syntactic(m):
            if self.sign_known(m) == 0:
                if not self.decide(atom(-m, '<=')):
                    unsupported('sqrt of a negative value')
        key = ('sqrt', m)
        def fn(vals, m=m):
            z = float(m.eval(vals))
            return math.sqrt(z) if z > 0 else 0.0
        v, new = self.derive(key, 'sqrt', fn, m.vars())
        if new:
            i = self._idx(v)
            self.space.set_rule(i, 2, m)
            sq = ('a', (Poly({2 << (P.W * i): 1}) - m), '==')
            self.daxioms[i] = [atom((-v).n, '<='), sq]
            self.sqrtof[v.n] = m
            if m in self.nz:
                self.nz.add(v.n)
        return out * v

    def _nonneg_syntactic(self, m):
        return all(c > 0 and P._halfable(k) for k, c in m.t.items())

    def _rkey(self, x):
        return (x.n, frozenset(x.d.items()))

    def _reval(self, x):
        def ev(vals):
            v = float(x.n.eval(vals))
            for f, e in x.d.items():
                v /= float(f.eval(vals)) ** e
            return v
        return ev

    def _rvars(self, x):
        s = set(x.n.vars())
        for f in x.d:
            s.update(f.vars())
        return s

    def uf(self, name, x, pyfn):
        """uninterpreted (functionally consistent) elementary function"""
        if x.is_const() and self.opts.get('float_consts'):
            return lift(pyfn(float(x.cval())))
        if x.is_const():
            key = (name, x.cval())
        else:
            key = (name,) + self._rkey(x)
        ev = self._reval(x)
        def fn(vals):
            try:
                return pyfn(ev(vals))
            except (ValueError, OverflowError, ZeroDivisionError):
                return float('nan')
        v, new = self.derive(key, name, fn, self._rvars(x))
        return v

    def log10(self, x):
        """uninterpreted; equal arguments have equal values"""
        if not bool(x > 0):
            return -math.inf if bool(x == 0) else math.nan
        v = self.uf('log10', x, math.log10)
        if v.is_const() or any(v is w for _, w in self.logs):
            return v
        self.daxioms[self._idx(v)] = [
            f_or([f_not(sign_atom(x - y, '==')), atom((v - w).n, '==')])
            for y, w in self.logs]
        self.logs.append((x, v))
        return v

    def log(self, x):
        """natural logarithm: uninterpreted, with the right sign"""
        if is_zero_const(x - 1):
            return lift(0)
        if not bool(x > 0):
            return -math.inf if bool(x == 0) else math.nan
        v = self.uf('log', x, math.log)
        if v.is_const():
            return v
        i = self._idx(v)
        if not self.daxioms[i]:
            hi, lo = sign_atom(1 - x, '<'), sign_atom(x - 1, '<')
            vp, vn = atom((-v).n, '<'), atom(v.n, '<')
            self.daxioms[i] = [f_or([f_not(hi), vp]), f_or([f_not(vp), hi]),
                               f_or([f_not(lo), vn]), f_or([f_not(vn), lo])]
        return v

    def angle(self, z):
        """argument of a complex number in (-pi, pi]: uninterpreted, with the
        right sign"""
        if is_zero_const(z.im):
            if bool(z.re >= 0):
                return lift(0)
            return lift(math.pi)
        if self.opts.get('float_consts') and z.re.is_const() and z.im.is_const():
            return lift(math.atan2(float(z.im.cval()), float(z.re.cval())))
        if self.opts.get('float_consts') and not z.re.is_const():
            r = z.im / z.re
            if r.is_const():
                # on a fixed ray
                t = math.atan(float(r.cval()))
                if bool(z.re > 0):
                    return lift(t)
                if bool(z.re < 0):
                    return lift(t - math.copysign(math.pi, t))
        key = ('angle',) + self._rkey(z.re) + self._rkey(z.im)
        er, ei = self._reval(z.re), self._reval(z.im)
        v, new = self.derive(key, 'angle', lambda vals: math.atan2(
            ei(vals), er(vals)), self._rvars(z.re) | self._rvars(z.im))
        if new:
            ip, iz = sign_atom(-z.im, '<'), sign_atom(z.im, '<')
            vp, vn = atom((-v).n, '<'), atom(v.n, '<')
            self.daxioms[self._idx(v)] = [
                f_or([f_not(ip), vp]), f_or([f_not(iz), vn]),
                sign_atom(v - 4, '<'), sign_atom(-v - 4, '<')]
        return v

    def exp(self, x):
        if is_zero_const(x):
            return lift(1)
        # exp(-x) = 1/exp(x): keep one representative
        u = x.n.t[max(x.n.t)]
        if u < 0:
            return self.exp(-x).inv()
        v = self.uf('exp', x, math.exp)
        if v.is_const():
            return v
        i = self._idx(v)
        if not self.daxioms[i]:
            self.daxioms[i] = [atom((-v).n, '<')]
            self.nz.add(v.n)
            self.known[atom(v.n, '==')] = False
        return v

    def cossin(self, x):
        if is_zero_const(x):
            return lift(1), lift(0)
        if x.is_const() and self.opts.get('float_consts'):
            return lift(math.cos(x.cval())), lift(math.sin(x.cval()))
        u = x.n.t[max(x.n.t)]
        if u < 0:
            c, s = self.cossin(-x)
            return c, -s
        c = self.uf('cos', x, math.cos)
        s = self.uf('sin', x, math.sin)
        i = self._idx(s)
        if i not in self.space.rules:
            self.space.set_rule(i, 2, ONE - c.n * c.n)
            sq = ('a', (Poly({2 << (P.W * i): 1}) + c.n * c.n - ONE), '==')
            self.daxioms[i] = [sq]
            self.daxioms[self._idx(c)] = [sq]
        return c, s

    def floor(self, x):
        if x.is_const():
            return SymReal(Poly.const(x.cval().__floor__()))
        key = ('floor',) + self._rkey(x)
        ev = self._reval(x)
        v, new = self.derive(key, 'floor', lambda vals: math.floor(ev(vals)) * 1.0
                             if math.isfinite(ev(vals)) else math.nan,
                             self._rvars(x))
        if new:
            i = self._idx(v)
            self.daxioms[i] = [sign_atom(v - x, '<='), sign_atom(x - v - 1, '<')]
            self.intvars.add(i)
        return v

    def concretize_int(self, x):
        unsupported('int() of a symbolic value')

    # -- knowledge -----------------------------------------------------------
    def sign_known(self, p):
        """+1/-1 if the path condition syntactically fixes the sign"""
        if self._pos_syntactic(p):
            return 1
        if self.known.get(('a', p, '<')):
            return -1
        if self.known.get(('a', -p, '<')):
            return 1
        return 0

    def _pos_syntactic(self, p):
        # sum of squares plus positive constant, or a positive variable
        t = p.t
        if 0 in t and all(c > 0 and P._halfable(k) for k, c in t.items()):
            return True
        if len(t) == 1:
            ((m, c),) = t.items()
            if c > 0:
                i = 0
                while m:
                    e = m & P.MASK
                    if e & 1 and not self._pos_var(i):
                        return False
                    if e and not (e & 1) and not (self._pos_var(i) or
                                                  self.space.var(i) in self.nz):
                        return False
                    m >>= P.W
                    i += 1
                return True
        # positive combination of positive variables
        if all(c > 0 for c in t.values()):
            return all(self._pos_syntactic(Poly({m: 1})) for m in t if m) and bool(t)
        return False

    def _pos_var(self, i):
        v = self.space.var(i)
        if self.known.get(('a', -v, '<')):
            return True
        ax = self.daxioms.get(i)
        if ax and ('a', -v, '<') in ax:
            return True
        if ax and ('a', -v, '<=') in ax and v in self.nz:
            return True
        lo = self.bounds.get(i, (None, None))[0]
        return lo is not None and lo > 0

    def need_nonzero(self, p):
        u, m = p.monic()
        if m in self.nz:
            return
        if self.known.get(atom(m, '==')) is False or self.sign_known(m):
            self.nz.add(m)
            return
        if self.opts.get('fork_div'):
            if self.decide(atom(m, '==')):
                steer(DivZero('division by zero'))
            self.nz.add(m)
            return
        from .engine import in_code_under_test
        if in_code_under_test():
            self.divs.append((len(self.pc), m))
        self.assume(f_not(atom(m, '==')), silent=True)

    def band(self, x, o, rel):
        """Comparisons against a tiny threshold are exact-zero tests (values
        inside the open threshold band are excluded from the claim)."""
        def tiny(y):
            return (not y.d and y.n.t
                    and all(abs(c) <= TINY for c in y.n.t.values()))
        if tiny(o) and not x.is_const():      # x < tiny
            self._use_band()
            b = self._nonneg_base(x)
            if b is not None:
                return mkbool(atom(b, '=='))
            if o.is_const() and o.cval() > 0:
                return mkbool(sign_atom(x, '<='))
            return mkbool(sign_atom(x, '<=' if not o.is_const() else '<'))
        if tiny(x) and not o.is_const():      # tiny < o
            self._use_band()
            b = self._nonneg_base(o)
            if b is not None:
                return mkbool(f_not(atom(b, '==')))
            if x.is_const() and x.cval() < 0:
                return mkbool(sign_atom(-o, '<='))
            return mkbool(sign_atom(-o, '<'))
        return None

    def _nonneg_base(self, x):
        """polynomial vanishing exactly where x does, when x is visibly >= 0"""
        absof, sqrtof = self.absof, self.sqrtof

        def root(v):
            r = absof.get(v)
            return r if r is not None else sqrtof.get(v)
        u, m = x.n.monic()
        if u < 0:
            return None
        for f, e in x.d.items():
            if e & 1 and root(f) is None and self.sign_known(f) != 1:
                return None
        if root(m) is not None:
            return root(m)
        if len(m.t) != 1:
            return None
        (mono,) = m.t
        out, i = None, 0
        while mono:
            e = mono & P.MASK
            if e:
                v = self.space.var(i)
                r = root(v)
                if r is None:
                    if e & 1 and self.sign_known(v) != 1:
                        return None
                    r = v
                out = r if out is None else out * r
            mono >>= P.W
            i += 1
        return out

    def roots_cmp(self, x, o):
        """Squares of two visibly non-negative sides when a root is involved"""
        def square(y):
            if y.is_const():
                return None if y.cval() < 0 else SymReal(Poly.const(y.cval() ** 2))
            u, m = y.n.monic()
            if u < 0:
                return None
            r = self.sqrtof.get(m)
            if r is None:
                r = self.absof.get(m)
                if r is None:
                    return None
                r = r * r
            for f in y.d:
                if f not in self.absof and f not in self.sqrtof \
                        and self.sign_known(f) != 1:
                    return None
            out = SymReal(r.scale(Fraction(u) ** 2))
            for f, e in y.d.items():
                k = self.sqrtof.get(f)
                if k is None:
                    k = self.absof.get(f, f)
                    k = k * k
                out = out / SymReal(k) ** e
            return out
        if x.n.monic()[1] not in self.sqrtof and o.n.monic()[1] not in self.sqrtof:
            return None
        a = square(x)
        b = square(o) if a is not None else None
        return None if b is None else (a, b)

    def _use_band(self):
        if not self.bands:
            self.bands.append(1)

    # -- path condition -------------------------------------------------------
    def assume(self, f, bound=False, silent=False):
        if isinstance(f, SymBool):
            f = f.f
        if isinstance(f, bool):
            f = TRUE if f else FALSE
        if f[0] == 'c':
            if not f[1]:
                steer(Infeasible('assumption is false'))
            return
        if f in self.known:
            if self.known[f]:
                return
            steer(Infeasible('assumption contradicts the path'))
        self._add(f)
        if self.model is not None:
            r = f_eval(f, *self._vals(self.model))
            if r is not True:
                self.model = None

    def _add(self, f):
        if f[0] == '&':
            for g in f[1]:
                self._add(g)
            self.known[f] = True
            self.known[f_not(f)] = False
            return
        self.pc.append(f)
        self.known[f] = True
        self.known[f_not(f)] = False
        if f[0] == 'n' and f[1][0] == 'a' and f[1][2] == '==':
            self.nz.add(f[1][1].monic()[1])
        if f[0] == 'n' and f[1][0] == '|':
            for g in f[1][1]:
                self._add(f_not(g))
        if f[0] == 'a' and f[2] == '<':
            self.nz.add(f[1].monic()[1])
            eq = atom(f[1], '==')
            self.known[eq] = False
            self.known[f_not(eq)] = True
            self.known[('a', f[1], '<=')] = True
            self.known[('a', -f[1], '<')] = False
            self.known[('a', -f[1], '<=')] = False
        if f[0] == 'a' and f[2] == '==':
            for q in (f[1], -f[1]):
                self.known[('a', q, '<=')] = True
                self.known[('a', q, '<')] = False

    # -- models ----------------------------------------------------------------
    def _vals(self, model):
        """complete a model of the free variables with derived values"""
        vals = dict(model)
        exact = all(isinstance(v, (int, Fraction)) for v in vals.values())
        for i in range(len(self.space.names)):
            if i in vals:
                continue
            d = self.derived.get(i)
            if d is None:
                vals[i] = Fraction(0) if i not in self.derived else 0.0
                continue
            try:
                v = d[0](vals)
            except (KeyError, OverflowError, ZeroDivisionError):
                v = float('nan')
            vals[i] = v
            exact = False
        return vals, exact

    def _rand_model(self):
        m = {}
        for name, i in self.inputs.items():
            lo, hi = self.bounds.get(i, (None, None))
            lo2 = -3 if lo is None else float(lo)
            hi2 = 3 if hi is None else float(hi)
            if hi2 - lo2 > 50:
                hi2 = lo2 + 6
            k = self.rng.random()
            if k < 0.7 and i not in self.intvars:
                v = Fraction(round(self.rng.uniform(lo2, hi2) * 8), 8)
            else:
                v = Fraction(round(self.rng.uniform(lo2, hi2)))
            if lo is not None and v < lo:
                v = Fraction(lo)
            if hi is not None and v > hi:
                v = Fraction(hi)
            m[i] = v
        return m

    def _free_fresh(self):
        return any(i not in self.derived and i not in self.inputs.values()
                   for i in range(len(self.space.names)))

    def sample(self, extra=(), tries=60):
        fs = list(self.pc) + list(extra)
        if any(f[0] == 'a' and f[2] == '==' for f in fs):
            tries = min(tries, 15)
        for _ in range(tries):
            m = self._rand_model()
            vals, exact = self._vals(m)
            if all(f_eval(f, vals, exact) is True for f in fs):
                STATS.sampled_sat += 1
                return m
        return None

    def have_model(self):
        """try hard to have a model of the path condition"""
        if self.model is not None:
            vals, exact = self._vals(self.model)
            if all(f_eval(f, vals, exact) is True for f in self.pc):
                return True
            self.model = None
        m = self.sample()
        if m is None:
            r, m = self.solve([], nice=True)
            if r != 'sat':
                return False
        self.model = m
        return m is not None

    # -- solving ----------------------------------------------------------------
    def _base_vars(self, i):
        r = self._bv.get(i)
        if r is None:
            r = self._bv[i] = set()
            if i in self.derived:
                for j in self.derived[i][1]:
                    r |= {j} | self._base_vars(j)
        return r

    def _closure(self, fs):
        """path-condition formulas connected to the variables of fs"""
        vs = set()
        for f in fs:
            f_vars(f, vs)
        if not hasattr(self, '_pcv'):
            self._pcv = {}
            self._bv = {}
        used = set()
        out = []
        changed = True
        done_ax = set()
        axs = []
        while changed:
            changed = False
            for i in list(vs):
                if i in self.daxioms and i not in done_ax:
                    done_ax.add(i)
                    for a in self.daxioms[i]:
                        axs.append(a)
                        f_vars(a, vs)
                    vs.update(self.derived[i][1])
                    changed = True
            for k, f in enumerate(self.pc):
                if k in used:
                    continue
                fv = self._pcv.get(f)
                if fv is None:
                    fv = f_vars(f, set())
                    # a derived value also speaks about what it is made of
                    for i in list(fv):
                        fv |= self._base_vars(i)
                    self._pcv[f] = fv
                if fv & vs:
                    used.add(k)
                    out.append(f)
                    if not fv <= vs:
                        vs |= fv
                    changed = True
        return out + axs, vs

    def solve(self, fs, nice=False, timeout=None, slice_=True, bound=None):
        """check pc /\\ fs.  returns (verdict, model or None)"""
        fs = [f for f in fs if f[0] != 'c' or not f[1]]
        if any(f[0] == 'c' for f in fs):
            return 'unsat', None
        if slice_ and fs:
            ctx, vs = self._closure(fs)
        else:
            ctx = list(self.pc)
            vs = set()
            for f in ctx + fs:
                f_vars(f, vs)
            c2, vs2 = self._closure(ctx + fs)
            ctx = ctx + [a for a in c2 if a not in ctx]
            vs |= vs2
        t0 = time.time()
        try:
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', int(timeout or self.qto))
            s.set('random_seed', 1)
            for f in ctx:
                s.add(f_z3(f, self))
            for f in fs:
                s.add(f_z3(f, self))
            for i in self.intvars:
                if i in vs:
                    s.add(z3.IsInt(self.zvar(i)))
            if bound is not None:
                for i in vs:
                    s.add(self.zvar(i) <= bound, self.zvar(i) >= -bound)
            r = str(s.check())
            m = None
            if r == 'sat':
                m = self._extract(s.model())
        except z3.Z3Exception:
            r, m = 'unknown', None
        STATS.queries += 1
        STATS.solver_s += time.time() - t0
        setattr(STATS, r, getattr(STATS, r, 0) + 1)
        return r, m

    def _extract(self, model):
        m = {}
        for name, i in self.inputs.items():
            v = model.eval(self.zvar(i), model_completion=True)
            m[i] = z3num(v)
        # free stub outputs
        for i in range(len(self.space.names)):
            if i in m or i in self.derived:
                continue
            v = model.eval(self.zvar(i), model_completion=True)
            m[i] = z3num(v)
        return m

    # -- branching -----------------------------------------------------------
    def decide(self, f):
        if f[0] == 'c':
            return f[1]
        k = self.known.get(f)
        if k is not None:
            return k
        STATS.decisions += 1
        pos = len(self.decisions)
        if pos < len(self.prefix):
            v = self.prefix[pos]
            self.decisions.append(v)
            self._add(f if v else f_not(f))
            if pos == len(self.prefix) - 1:
                pass
            return v
        if pos > self.maxdec:
            steer(Budget('too many decisions on one path'))
        if self.deadline and time.time() > self.deadline:
            steer(Budget('time'))
        # which sides are feasible?
        side = None
        if self.model is not None:
            vals, exact = self._vals(self.model)
            side = f_eval(f, vals, exact)
        if side is None and self.model is None:
            m = self.sample(tries=12)
            if m is not None:
                self.model = m
                vals, exact = self._vals(m)
                side = f_eval(f, vals, exact)
        if side is None:
            r1, m1 = self.solve([f])
            if r1 == 'unsat':
                v = False
                self.decisions.append(v)
                self._add(f_not(f))
                return v
            r2, m2 = self.solve([f_not(f)])
            if r2 == 'unsat':
                self.decisions.append(True)
                self._add(f)
                return True
            # both possible
            self.alts.append((self.decisions + [False], None))
            self.decisions.append(True)
            self._add(f)
            self.model = None
            return True
        other = f_not(f) if side else f
        om = None
        # cheap search for the other side
        m = None
        if not self._is_eq(other):
            for _ in range(6):
                m = self._rand_model()
                vals, exact = self._vals(m)
                if f_eval(other, vals, exact) is True and \
                        all(f_eval(g, vals, exact) is True for g in self.pc):
                    om = m
                    break
        if om is None:
            r, om = self.solve([other])
            if om is not None:
                om = None     # sliced model need not satisfy the rest
        else:
            r = 'sat'
        if r != 'unsat':
            self.alts.append((self.decisions + [not side], om))
        self.decisions.append(side)
        self._add(f if side else f_not(f))
        return side

    def _is_eq(self, f):
        return f[0] == 'a' and f[2] == '=='

    def choose(self, label, n):
        """n-way enumerated (not solver) choice"""
        pos = len(self.decisions)
        if pos < len(self.prefix):
            v = self.prefix[pos]
        else:
            v = 0
            for k in range(1, n):
                self.alts.append((self.decisions + [k], None))
        self.decisions.append(v)
        self.choices.append((label, v))
        return v


def z3num(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    try:
        return Fraction(str(v))
    except ValueError:
        return Fraction(0)


def set_path(p):
    global PATH
    PATH = p
    P.set_space(p.space if p is not None else P.Space())
