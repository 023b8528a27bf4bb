"""SArr: object ndarray of symbolic scalars with numpy protocol hooks."""
import math
import operator
import numpy as np

from . import sym as S
from .sym import (SymReal, SymComplex, SymBool, lift, mkbool, b_and, b_or,
                  b_not, unsupported)


class SArr(np.ndarray):
    """dtype=object array whose elements are lifted scalars (or SymBool)."""

    def __array_finalize__(self, obj):
        self.kind = getattr(obj, 'kind', 'f')

    # -- protocols ---------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        f = FUNCS.get(func)
        if f is not None:
            return f(*args, **kwargs)
        return wrap(_call_default(func, args, kwargs))

    # -- indexing ------------------------------------------------------------
    def __getitem__(self, idx):
        idx = fix_index(idx)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, v):
        idx = fix_index(idx)
        if isinstance(v, SArr):
            v = np.asarray(v)
        else:
            v = raw(v)
        if getattr(self, 'kind', 'f') == 'i':
            v = _vtrunc(v)
        if isinstance(v, np.ndarray) and v.ndim > 0:
            tgt = np.ndarray.__getitem__(self, idx)
            if not isinstance(tgt, np.ndarray):       # a single element
                if v.size != 1:
                    raise ValueError('setting an array element with a '
                                     'sequence.')
                v = v.reshape(-1)[0]
        np.ndarray.__setitem__(self, idx, v)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
                         'element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __complex__(self):
        return complex(self.item())

    def __index__(self):
        return operator.index(self.item())

    def __contains__(self, v):
        return bool(s_any(self == v))

    # -- attributes ------------------------------------------------------------
    @property
    def real(self):
        return _map(lambda x: x.real, self)

    @real.setter
    def real(self, v):
        v = np.broadcast_to(np.asarray(raw(v)), self.shape)
        for k in np.ndindex(self.shape):
            x = np.ndarray.__getitem__(self, k)
            im = x.imag
            np.ndarray.__setitem__(self, k, SymComplex(lift(v[k]), im))

    @property
    def imag(self):
        return _map(lambda x: x.imag, self)

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(np.asarray(raw(v)), self.shape)
        for k in np.ndindex(self.shape):
            x = np.ndarray.__getitem__(self, k)
            np.ndarray.__setitem__(self, k, SymComplex(x.real, lift(v[k])))

    def conj(self):
        return _map(lambda x: x.conjugate(), self)

    conjugate = conj

    def astype(self, dtype, *a, **k):
        return s_astype(self, dtype)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return s_any(self, axis=axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return s_all(self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return s_sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return s_prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = self.size if axis is None else self.shape[axis]
        return s_sum(self, axis=axis, keepdims=keepdims) / n

    def max(self, axis=None, out=None, keepdims=False, **k):
        return s_max(self, axis=axis, keepdims=keepdims, **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return s_min(self, axis=axis, keepdims=keepdims, **k)

    def argmax(self, axis=None, out=None, **k):
        return s_argmax(self, axis)

    def argmin(self, axis=None, out=None, **k):
        return s_argmin(self, axis)

    def dot(self, b, out=None):
        return s_dot(self, b)

    def trace(self, offset=0, *a, **k):
        return s_trace(self, offset)

    def nonzero(self):
        return s_nonzero(self)

    def sort(self, axis=-1, *a, **k):
        r = s_sort(self, axis)
        np.ndarray.__setitem__(self, Ellipsis, np.asarray(r))

    def argsort(self, axis=-1, *a, **k):
        return s_argsort(self, axis)

    def round(self, decimals=0, out=None):
        return s_round(self, decimals)

    def cumsum(self, axis=None, *a, **k):
        return s_cumsum(self, axis)

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def clip(self, lo=None, hi=None, **k):
        return s_clip(self, lo, hi)


# ------------------------------------------------------------------ helpers
def mk(a):
    """object ndarray -> SArr view"""
    r = a.view(SArr)
    return r


def mkarr(shape, elems):
    a = np.empty(shape, dtype=object)
    flat = a.reshape(-1)
    for i, e in enumerate(elems):
        flat[i] = e
    return mk(a)


def _trunc(x):
    if isinstance(x, SymReal):
        if x.is_const():
            return lift(int(x.cval()))
        ints = getattr(S.PATH, 'intinputs', set())
        if not x.d and all(v in ints for v in x.n.vars()) and \
                all(c == int(c) for c in x.n.t.values()):
            return x
        if bool(x >= 0):
            return S.PATH.floor(x)
        return -S.PATH.floor(-x)
    return x


def _vtrunc(v):
    if isinstance(v, np.ndarray):
        return np.asarray(_map(_trunc, mk(np.asarray(v, dtype=object))))
    return _trunc(lift(v))


def has_sym(x, depth=0):
    if isinstance(x, (SymReal, SymComplex, SymBool, SArr)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    if depth < 6 and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth + 1) for y in x)
    return False


def raw(x):
    """value usable as an operand of an object-array operation"""
    if isinstance(x, SArr):
        return np.asarray(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return _lift_nd(x)
        return _lift_nd(x.astype(object) if x.dtype != np.bool_ else
                        x.astype(object))
    if isinstance(x, (list, tuple)):
        return np.asarray(s_array(x))
    l = lift(x)
    return x if l is None else (x if isinstance(x, SymBool) else l)


def _lift_nd(a):
    r = np.empty(a.shape, dtype=object)
    rf, af = r.reshape(-1), a.reshape(-1)
    if r.ndim == 0:
        x = a.item()
        r[()] = _l1(x)
        return r
    for i in range(af.size):
        rf[i] = _l1(af[i])
    return r


def _l1(x):
    if isinstance(x, (SymReal, SymComplex, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    l = lift(x)
    return x if l is None else l


def wrap(r):
    """results of real numpy functions -> SArr where they carry numbers"""
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.size and all(isinstance(x, (bool, np.bool_)) for x in r.reshape(-1)):
                return r.astype(bool)
            return mk(_lift_nd(r))
        if r.dtype.kind in 'fc':
            k = mk(_lift_nd(r.astype(object)))
            return k
        return r
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def _call_default(func, args, kwargs):
    impl = getattr(func, '_implementation', None)
    if impl is None:
        impl = func
        # C-implemented functions with dispatcher: strip the subclass
        args, kwargs = strip(args), strip(kwargs)
    return impl(*args, **kwargs)


def strip(x):
    if isinstance(x, SArr):
        return np.asarray(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(strip(y) for y in x)
    if isinstance(x, list):
        return [strip(y) for y in x]
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    return x


def _map(f, a):
    a = np.asarray(a)
    r = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        r[()] = f(a.item())
        return mk(r)
    rf = r.reshape(-1)
    for i, x in enumerate(a.reshape(-1)):
        rf[i] = f(x)
    return mk(r)


def boolify(r):
    """array of bool/SymBool: native bool if fully concrete"""
    if isinstance(r, np.ndarray):
        flat = r.reshape(-1)
        if all(isinstance(x, (bool, np.bool_)) for x in flat):
            return r.astype(bool)
        return mk(r)
    return r


def fix_index(idx):
    if isinstance(idx, tuple):
        if any(isinstance(i, (SArr, SymBool, SymReal)) for i in idx):
            return tuple(fix_index1(i) for i in idx)
        return idx
    return fix_index1(idx)


def fix_index1(i):
    if isinstance(i, SArr):
        flat = i.reshape(-1)
        if all(isinstance(x, (bool, SymBool, np.bool_)) for x in flat):
            return np.array([bool(x) for x in flat], dtype=bool).reshape(i.shape)
        return np.array([operator.index(x) if not isinstance(x, SymReal) else
                         x.__index__() for x in flat], dtype=int).reshape(i.shape)
    if isinstance(i, SymBool):
        return bool(i)
    return i


# ------------------------------------------------------------------ ufuncs
def _inf_safe(op):
    def f(a, b):
        try:
            return op(a, b)
        except ZeroDivisionError:
            return math.nan
    return f


def _div(a, b):
    if isinstance(a, float) and isinstance(b, float):
        try:
            return a / b
        except ZeroDivisionError:
            return math.nan
    if isinstance(b, SymReal) and b.is_const() and not b.n.t:
        # numpy semantics of an exact zero divisor
        if isinstance(a, SymReal) and a.is_const():
            c = a.cval()
            return math.nan if c == 0 else math.copysign(math.inf, c)
    return a / b


def _lt(a, b):
    return a < b


def _max2(a, b):
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if bool(a >= b) else b


def _min2(a, b):
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if bool(a <= b) else b


def _isfinite(x):
    return not (isinstance(x, float) and (x != x or abs(x) == math.inf))


def _isnan(x):
    return isinstance(x, float) and x != x


def _isinf(x):
    return isinstance(x, float) and abs(x) == math.inf


def _meth(name, pyf):
    def f(x):
        m = getattr(x, name, None)
        if m is not None:
            return m()
        return pyf(x)
    return f


def _nz(x):
    if type(x).__name__ == 'Opaque':
        return x
    if isinstance(x, (SymReal, SymComplex)):
        return mkbool(x.nonzero_f())
    if isinstance(x, SymBool):
        return x
    return bool(x)


def _abs(x):
    return abs(x)


def _xor(a, b):
    a, b = _nz(a), _nz(b)
    if isinstance(a, SymBool):
        return a ^ b
    if isinstance(b, SymBool):
        return b ^ a
    return a != b


def _and(a, b):
    return b_and([_nz(a), _nz(b)])


def _or(a, b):
    return b_or([_nz(a), _nz(b)])


def _band(a, b):
    return _and(a, b)


def _sqrt(x):
    if isinstance(x, float):
        return math.sqrt(x) if x >= 0 else math.nan
    return x.sqrt()


def _arctan2(y, x):
    unsupported('arctan2')


def _hypot(a, b):
    return (a * a + b * b).sqrt()


def _matmul(a, b):
    return np.asarray(s_matmul(a, b))


def _heaviside(a, b):
    unsupported('heaviside')


U1 = {
    'negative': lambda x: -x, 'positive': lambda x: x,
    'absolute': _abs, 'fabs': _abs,
    'conjugate': _meth('conjugate', lambda x: x),
    'square': lambda x: x * x, 'sqrt': _sqrt,
    'exp': _meth('exp', math.exp), 'log': _meth('log', math.log),
    'log10': _meth('log10', math.log10), 'log2': _meth('log2', math.log2),
    'sin': _meth('sin', math.sin), 'cos': _meth('cos', math.cos),
    'tan': _meth('tan', math.tan), 'arctan': _meth('arctan', math.atan),
    'reciprocal': lambda x: _div(lift(1), x),
    'floor': _meth('floor', math.floor), 'ceil': _meth('ceil', math.ceil),
    'rint': _meth('rint', round), 'trunc': _trunc,
    'sign': _meth('sign', lambda x: math.copysign(1, x)),
    'logical_not': lambda x: b_not(_nz(x)),
    'invert': lambda x: b_not(_nz(x)),
    'isfinite': _isfinite, 'isnan': _isnan, 'isinf': _isinf,
    'spacing': lambda x: lift(float(np.spacing(float(x)))) if not (
        is_s(x) and not x.is_const()) else lift(2.0**-52) * x,
    'deg2rad': lambda x: x * lift(math.pi) / 180,
    'rad2deg': lambda x: x * 180 / lift(math.pi),
    'signbit': lambda x: x < 0,
}
U2 = {
    'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul,
    'divide': _div, 'true_divide': _div, 'power': operator.pow,
    'float_power': operator.pow,
    'floor_divide': operator.floordiv, 'remainder': operator.mod,
    'mod': operator.mod,
    'less': operator.lt, 'less_equal': operator.le, 'greater': operator.gt,
    'greater_equal': operator.ge, 'equal': operator.eq,
    'not_equal': operator.ne,
    'logical_and': _and, 'logical_or': _or, 'logical_xor': _xor,
    'bitwise_and': _band, 'bitwise_or': _or, 'bitwise_xor': _xor,
    'maximum': _max2, 'minimum': _min2, 'fmax': _max2, 'fmin': _min2,
    'hypot': _hypot, 'arctan2': _arctan2,
}
BOOLU = {'less', 'less_equal', 'greater', 'greater_equal', 'equal',
         'not_equal', 'logical_and', 'logical_or', 'logical_xor',
         'logical_not', 'invert', 'bitwise_and', 'bitwise_or', 'bitwise_xor',
         'isfinite', 'isnan', 'isinf', 'signbit'}
IDENT = {'add': 0, 'multiply': 1, 'logical_or': False, 'logical_and': True}
_PF = {}


def is_s(x):
    return isinstance(x, (SymReal, SymComplex))


def _pyfunc(name, nin):
    k = (name, nin)
    if k not in _PF:
        _PF[k] = np.frompyfunc((U1 if nin == 1 else U2)[name], nin, 1)
    return _PF[k]


def _box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def dispatch_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    where = kw.pop('where', True)
    if where is not True:
        unsupported('ufunc where=')
    for k in ('dtype', 'casting', 'subok', 'order', 'signature'):
        kw.pop(k, None)
    ins = [raw(x) for x in inputs]
    if any(x is None or isinstance(x, str) for x in ins):
        if name in ('equal', 'not_equal'):
            return name == 'not_equal'
        return NotImplemented
    # foreign objects (models): let python try the reflected operation
    if any(type(x).__module__.startswith('harold') for x in inputs):
        return NotImplemented
    if name == 'matmul' and method == '__call__':
        r = s_matmul(*ins)
    elif method == '__call__':
        scal = not any(isinstance(x, np.ndarray) for x in ins)
        if not scal:
            ins = [x if isinstance(x, np.ndarray) else _box(x) for x in ins]
        if name in U1 and len(ins) == 1:
            r = U1[name](*ins) if scal else _pyfunc(name, 1)(*ins)
        elif name in U2 and len(ins) == 2:
            r = U2[name](*ins) if scal else _pyfunc(name, 2)(*ins)
        else:
            unsupported(f'ufunc {name}')
        if name in BOOLU:
            r = boolify(r)
        elif isinstance(r, np.ndarray):
            r = mk(r)
    elif method == 'reduce':
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        r = s_reduce(name, ins[0], axis, keep)
    elif method == 'accumulate':
        r = mk(_pyfunc(name, 2).accumulate(ins[0], axis=kw.get('axis', 0),
                                           dtype=object))
    elif method == 'outer':
        r = mk(_pyfunc(name, 2).outer(*[np.asarray(x) if isinstance(
            x, np.ndarray) else _box(x) for x in ins]))
    else:
        unsupported(f'ufunc method {method}')
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            if isinstance(o, SArr):
                o[...] = r
            elif isinstance(o, np.ndarray):
                # in-place on a native array: only possible if concrete
                o[...] = to_native(r, o.dtype)
            return o
    return r


def to_native(r, dtype=None):
    """SArr of constants -> native float/complex array"""
    if isinstance(r, SArr):
        flat = [(x.__complex__() if isinstance(x, SymComplex) else
                 (float(x) if isinstance(x, SymReal) else
                  (bool(x) if isinstance(x, (bool, SymBool)) else x)))
                for x in r.reshape(-1)]
        a = np.array(flat) if flat else np.zeros(0)
        return a.reshape(r.shape)
    if isinstance(r, (SymReal,)):
        return float(r)
    if isinstance(r, SymComplex):
        return complex(r)
    return r


def is_concrete(a):
    if isinstance(a, SArr):
        return all((not isinstance(x, (SymReal, SymComplex)) or x.is_const())
                   and not isinstance(x, SymBool) for x in a.reshape(-1))
    if isinstance(a, (SymReal, SymComplex)):
        return a.is_const()
    return not isinstance(a, SymBool)


def s_reduce(name, a, axis=0, keepdims=False):
    a = np.asarray(a)
    if a.dtype != object:
        a = _lift_nd(a.astype(object))
    if axis is None:
        flat = list(a.reshape(-1))
        r = _reduce_list(name, flat)
        if keepdims:
            return mkarr((1,) * a.ndim, [r])
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(sorted(x % a.ndim for x in axes))
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes))
    shp = tuple(a.shape[i] for i in rest)
    cnt = int(np.prod([a.shape[i] for i in axes])) if axes else 1
    b = b.reshape(shp + (cnt,))
    r = np.empty(shp, dtype=object)
    for k in np.ndindex(shp):
        r[k] = _reduce_list(name, list(b[k]))
    if keepdims:
        r = r.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    if r.ndim == 0:
        return r.item()
    if name in ('logical_or', 'logical_and'):
        return boolify(r)
    return mk(r)


def _reduce_list(name, xs):
    for x in xs:
        if type(x).__name__ == 'Opaque':
            return x
    if name == 'logical_or':
        return b_or([_nz(x) for x in xs])
    if name == 'logical_and':
        return b_and([_nz(x) for x in xs])
    if not xs:
        if name in IDENT:
            return lift(IDENT[name])
        raise ValueError('zero-size array to reduction operation %s which has '
                         'no identity' % name)
    f = U2[name]
    r = xs[0]
    if isinstance(r, (bool, SymBool)) and name == 'add':
        return sum(int(bool(x)) for x in xs)
    for x in xs[1:]:
        r = f(r, x)
    return r


# ------------------------------------------------------------------ functions
def _arr(a):
    if isinstance(a, SArr):
        return a
    return asany(a)


def asany(a):
    if isinstance(a, np.ndarray):
        return a if a.dtype != object else mk(_lift_nd(a))
    return s_array(a)


def s_any(a, axis=None, out=None, keepdims=False, **k):
    a = _arr(a)
    if not isinstance(a, SArr):
        return np.any(a, axis=axis, keepdims=keepdims)
    return s_reduce('logical_or', a, axis, keepdims)


def s_all(a, axis=None, out=None, keepdims=False, **k):
    a = _arr(a)
    if not isinstance(a, SArr):
        return np.all(a, axis=axis, keepdims=keepdims)
    return s_reduce('logical_and', a, axis, keepdims)


def s_sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, (list, tuple)) or not isinstance(a, SArr):
        a = asany(a)
        if not isinstance(a, SArr):
            return np.sum(a, axis=axis, keepdims=keepdims)
    return s_reduce('add', a, axis, keepdims)


def s_prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    a = asany(a)
    if not isinstance(a, SArr):
        return np.prod(a, axis=axis, keepdims=keepdims)
    return s_reduce('multiply', a, axis, keepdims)


def s_max(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = asany(a)
    if not isinstance(a, SArr):
        return np.max(a, axis=axis, keepdims=keepdims)
    if initial is not None and a.size == 0:
        return initial
    r = s_reduce('maximum', a, axis, keepdims)
    return r if initial is None else _max2(lift(initial), r)


def s_min(a, axis=None, out=None, keepdims=False, initial=None, **k):
    a = asany(a)
    if not isinstance(a, SArr):
        return np.min(a, axis=axis, keepdims=keepdims)
    if initial is not None and a.size == 0:
        return initial
    r = s_reduce('minimum', a, axis, keepdims)
    return r if initial is None else _min2(lift(initial), r)


def _arg(a, axis, better):
    a = asany(a)
    if axis is not None and a.ndim > 1:
        r = np.empty([n for i, n in enumerate(a.shape) if i != axis % a.ndim], int)
        b = np.moveaxis(np.asarray(a), axis, -1)
        for k in np.ndindex(r.shape):
            r[k] = _arg(mk(b[k]), None, better)
        return r
    xs = list(a.reshape(-1))
    if not xs:
        raise ValueError('attempt to get argmax of an empty sequence')
    best = 0
    for i in range(1, len(xs)):
        if bool(better(xs[i], xs[best])):
            best = i
    return best


def s_argmax(a, axis=None, **k):
    return _arg(a, axis, lambda x, y: x > y)


def s_argmin(a, axis=None, **k):
    return _arg(a, axis, lambda x, y: x < y)


def s_matmul(a, b):
    a, b = np.asarray(raw(a)), np.asarray(raw(b))
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim > 2 or b.ndim > 2:
        a2 = a if a.ndim > 1 else a[None, :]
        b2 = b if b.ndim > 1 else b[:, None]
        lead = np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
        A = np.broadcast_to(a2, lead + a2.shape[-2:])
        B = np.broadcast_to(b2, lead + b2.shape[-2:])
        r = np.empty(lead + (a2.shape[-2], b2.shape[-1]), dtype=object)
        for k in np.ndindex(lead):
            r[k] = np.asarray(s_matmul(A[k], B[k]))
        if a.ndim == 1:
            r = r[..., 0, :]
        if b.ndim == 1:
            r = r[..., 0]
        return mk(r)
    a2 = a if a.ndim == 2 else a[None, :]
    b2 = b if b.ndim == 2 else b[:, None]
    if a2.shape[1] != b2.shape[0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core '
                         'dimension 0 (size %d is different from %d)'
                         % (b2.shape[0], a2.shape[1]))
    m, k, n = a2.shape[0], a2.shape[1], b2.shape[1]
    r = np.empty((m, n), dtype=object)
    for i in range(m):
        for j in range(n):
            acc = None
            for l in range(k):
                x = a2[i, l]
                y = b2[l, j]
                if S.is_zero_const(x) or S.is_zero_const(y):
                    if not (isinstance(x, float) or isinstance(y, float)):
                        continue
                t = x * y
                acc = t if acc is None else acc + t
            r[i, j] = lift(0) if acc is None else acc
    if a.ndim == 1 and b.ndim == 1:
        return r[0, 0]
    if a.ndim == 1:
        r = r[0, :]
    elif b.ndim == 1:
        r = r[:, 0]
    return mk(r)


def s_dot(a, b, out=None):
    a, b = np.asarray(raw(a)), np.asarray(raw(b))
    if a.ndim == 0 or b.ndim == 0:
        r = _pyfunc('multiply', 2)(a, b)
        return mk(r) if isinstance(r, np.ndarray) else r
    if a.ndim <= 2 and b.ndim <= 2:
        return s_matmul(a, b)
    unsupported('dot with ndim > 2')


def s_trace(a, offset=0, *x, **k):
    d = np.diagonal(np.asarray(a), offset)
    return _reduce_list('add', list(d)) if len(d) else lift(0)


def s_nonzero(a):
    a = asany(a)
    if not isinstance(a, SArr):
        return np.nonzero(a)
    m = np.array([bool(_nz(x)) for x in a.reshape(-1)], dtype=bool)
    return np.nonzero(m.reshape(a.shape))


def s_flatnonzero(a):
    return s_nonzero(asany(a).reshape(-1))[0]


def s_argwhere(a):
    return np.transpose(s_nonzero(a))


def s_count_nonzero(a, axis=None, **k):
    a = asany(a)
    if not isinstance(a, SArr):
        return np.count_nonzero(a, axis=axis)
    m = np.array([bool(_nz(x)) for x in a.reshape(-1)], dtype=bool)
    return np.count_nonzero(m.reshape(a.shape), axis=axis)


def s_where(c, *ab):
    if not ab:
        return s_nonzero(c)
    x, y = np.asarray(raw(ab[0])), np.asarray(raw(ab[1]))
    c = np.asarray(c) if isinstance(c, np.ndarray) else np.asarray(c, dtype=object)
    c, x, y = np.broadcast_arrays(c, x, y)
    r = np.empty(c.shape, dtype=object)
    for k in np.ndindex(c.shape):
        r[k] = x[k] if bool(c[k]) else y[k]
    return mk(r)


def s_sort(a, axis=-1, **k):
    a = asany(a)
    if not isinstance(a, SArr):
        return np.sort(a, axis=axis)
    b = np.array(np.asarray(a), dtype=object)
    if b.ndim != 1:
        unsupported('sort ndim>1')
    xs = list(b)
    order = s_argsort(mk(b))
    return mkarr(b.shape, [xs[i] for i in order])


def s_argsort(a, axis=-1, **k):
    a = asany(a)
    if not isinstance(a, SArr):
        return np.argsort(a, axis=axis)
    if a.ndim != 1:
        unsupported('argsort ndim>1')
    xs = list(a)
    order = []
    for i, x in enumerate(xs):            # stable insertion sort
        j = len(order)
        while j > 0 and bool(_key_lt(x, xs[order[j - 1]])):
            j -= 1
        order.insert(j, i)
    return np.array(order, dtype=int)


def _key_lt(x, y):
    if isinstance(x, SymComplex) or isinstance(y, SymComplex):
        xr, yr = x.real, y.real
        if bool(xr < yr):
            return True
        if bool(xr > yr):
            return False
        return x.imag < y.imag
    return x < y


def s_round(a, decimals=0, out=None):
    if is_concrete(a):
        return wrap(np.round(to_native(a), decimals))
    unsupported('round of symbolic array')


def s_cumsum(a, axis=None, **k):
    a = np.asarray(raw(a))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return mk(_pyfunc('add', 2).accumulate(a, axis=axis, dtype=object))


def s_cumprod(a, axis=None, **k):
    a = np.asarray(raw(a))
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return mk(_pyfunc('multiply', 2).accumulate(a, axis=axis, dtype=object))


def s_clip(a, lo=None, hi=None, **k):
    r = a
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


def _dt(dtype):
    """classify a dtype argument: 'f','c','i','b','O',None"""
    if dtype is None:
        return None
    if dtype is object:
        return 'O'
    k = np.dtype(dtype).kind
    return {'f': 'f', 'c': 'c', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O'}.get(k, 'x')


def s_astype(a, dtype):
    k = _dt(dtype)
    if k in ('f', 'c', 'O', None):
        r = np.array(np.asarray(a), dtype=object, copy=True)
        if k == 'f':
            for x in r.reshape(-1):
                if isinstance(x, SymComplex):
                    break
            else:
                r = mk(_bool_to_num(r))
                r.kind = 'f'
                return r
            return _map(lambda x: x.real, r)       # numpy: ComplexWarning
        r = mk(_bool_to_num(r))
        r.kind = 'f'
        return r
    if k == 'i':
        if is_concrete(a):
            return to_native(a).astype(int)
        r = _map(_trunc, a)
        r.kind = 'i'
        return r
    if k == 'b':
        return boolify(np.asarray(_map(_nz, a)))
    unsupported(f'astype {dtype}')


def _bool_to_num(r):
    f = r.reshape(-1)
    for i in range(f.size):
        x = f[i]
        if isinstance(x, (bool, SymBool)):
            f[i] = lift(int(bool(x)))
    return r


def s_array(obj, dtype=None, *, copy=True, order='K', subok=False, ndmin=0,
            like=None):
    k = _dt(dtype)
    if k in ('i', 'b', 'x'):
        if isinstance(obj, SArr):
            return s_astype(obj, dtype)
        if not has_sym(obj):
            return np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin)
    if isinstance(obj, np.ndarray) and not isinstance(obj, SArr):
        if obj.dtype.kind in 'iub' and k in (None, 'i', 'b'):
            return np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin)
        if obj.dtype.kind not in 'iubfcO':
            return np.array(obj, dtype=dtype, copy=copy, ndmin=ndmin)
    if not has_sym(obj) and not isinstance(obj, np.ndarray):
        # let numpy do the shape/error handling
        a = np.array(obj, dtype=dtype, ndmin=ndmin)
        if a.dtype.kind in 'fc' or k in ('f', 'c'):
            return wrap(a)
        return a
    if isinstance(obj, SArr):
        a = np.asarray(obj)
        a = np.array(a, dtype=object, copy=True) if copy else a
        src_kind = getattr(obj, 'kind', 'f')
    else:
        src_kind = 'f'
        # validate homogeneity the way numpy would
        shp = _nested_shape(obj)
        a = np.empty(shp, dtype=object)
        _fill(a, obj)
        a = _lift_nd(a)
    flat = a.reshape(-1)
    for x in flat:
        if isinstance(x, str):
            raise ValueError('could not convert string to float: %r' % x)
    if k == 'f':
        for i in range(flat.size):
            x = flat[i]
            if isinstance(x, SymComplex):
                raise TypeError("can't convert complex to float")
            if x is None:
                flat[i] = math.nan
    while a.ndim < ndmin:
        a = a[None]
    r = mk(a)
    r.kind = src_kind if k is None else k
    if k == 'i':
        r = _map(_trunc, r)
        r.kind = 'i'
    if all(isinstance(x, (bool, SymBool)) for x in flat) and flat.size and k is None:
        return boolify(a)
    return r


def _nested_shape(o):
    if isinstance(o, np.ndarray):
        return o.shape
    if isinstance(o, (list, tuple)):
        if len(o) == 0:
            return (0,)
        shapes = [_nested_shape(x) for x in o]
        if any(s != shapes[0] for s in shapes):
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        return (len(o),) + shapes[0]
    return ()


def _fill(a, o):
    if a.ndim == 0:
        a[()] = o.item() if isinstance(o, np.ndarray) else o
        return
    if isinstance(o, np.ndarray):
        if a.size:
            for k in np.ndindex(o.shape):
                a[k] = o[k]
        return
    for i, x in enumerate(o):
        if a.ndim == 1:
            a[i] = x.item() if isinstance(x, np.ndarray) else x
        else:
            _fill(a[i], x)


def s_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return s_all(s_isclose(a, b))


def s_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """closeness is exact equality; near-misses are outside the claim"""
    if is_concrete(a) and is_concrete(b):
        return wrap(np.isclose(to_native(a), to_native(b), rtol, atol,
                               equal_nan))
    r = np.equal(mk(np.asarray(raw(asany(a)))) if not np.isscalar(a) else
                 mk(np.asarray(raw(s_array(a)))), b)
    if S.PATH is not None:
        S.PATH._use_band()
    return r


def s_array_equal(a, b, **k):
    a, b = asany(a), asany(b)
    if a.shape != b.shape:
        return False
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return np.array_equal(a, b)
    return s_all(np.equal(a, b))


def s_iscomplexobj(x):
    if isinstance(x, SymComplex) or isinstance(x, complex):
        return True
    if isinstance(x, SArr):
        return any(isinstance(y, SymComplex) or
                   (isinstance(y, SymReal) and y.has_root())
                   for y in x.reshape(-1))
    if isinstance(x, SymReal):
        return x.has_root()
    if isinstance(x, (list, tuple)):
        return s_iscomplexobj(asany(x))
    return np.iscomplexobj(x)


def s_real(x):
    if isinstance(x, (SymReal, SymComplex, SArr)):
        return x.real
    if isinstance(x, (list, tuple)):
        return asany(x).real
    return wrap(np.real(x))


def s_imag(x):
    if isinstance(x, (SymReal, SymComplex, SArr)):
        return x.imag
    if isinstance(x, (list, tuple)):
        return asany(x).imag
    return wrap(np.imag(x))


def s_isreal(x):
    if isinstance(x, SArr):
        return boolify(np.asarray(_map(lambda y: (y.imag == 0) if
                                       isinstance(y, SymComplex) else True, x)))
    if isinstance(x, SymComplex):
        return x.imag == 0
    if isinstance(x, SymReal):
        return True
    return np.isreal(x)


def s_real_if_close(x, tol=100):
    x = asany(x)
    if not isinstance(x, SArr):
        return wrap(np.real_if_close(x))
    if bool(s_all(np.equal(x.imag, 0))):
        return x.real
    return x


def s_convolve(a, v, mode='full'):
    a, v = asany(a), asany(v)
    a, v = np.asarray(raw(a)), np.asarray(raw(v))
    if a.ndim == 0:
        a = a[None]
    if v.ndim == 0:
        v = v[None]
    if a.ndim > 1 or v.ndim > 1:
        raise ValueError('object too deep for desired array')
    if len(a) == 0:
        raise ValueError('a cannot be empty')
    if len(v) == 0:
        raise ValueError('v cannot be empty')
    n = len(a) + len(v) - 1
    r = [None] * n
    for i, x in enumerate(a):
        for j, y in enumerate(v):
            t = x * y
            r[i + j] = t if r[i + j] is None else r[i + j] + t
    out = mkarr((n,), r)
    if mode == 'full':
        return out
    if mode == 'same':
        m = max(len(a), len(v))
        s = (n - m) // 2
        return out[s:s + m]
    if mode == 'valid':
        m = max(len(a), len(v)) - min(len(a), len(v)) + 1
        s = min(len(a), len(v)) - 1
        return out[s:s + m]
    unsupported('convolve mode')


def s_trim_zeros(filt, trim='fb'):
    first = 0
    trim = trim.upper()
    n = len(filt)
    if 'F' in trim:
        for i in filt:
            if bool(i != 0):
                break
            first += 1
    last = n
    if 'B' in trim:
        for i in filt[::-1]:
            if bool(i != 0):
                break
            last -= 1
    return filt[first:last]


def s_polyval(p, x):
    p = asany(p)
    x0 = x
    r = None
    xs = x if is_s(x) else asany(x)
    r = xs * 0 if isinstance(xs, np.ndarray) else lift(0)
    for c in p:
        r = r * xs + c
    return r


def s_poly(seq):
    seq = asany(seq)
    if seq.ndim == 2:
        if seq.shape[0] != seq.shape[1]:
            raise ValueError('input must be 1d or non-empty square 2d array.')
        from . import linalg as L
        return L.charpoly(seq)
    if seq.ndim == 0:
        seq = seq.reshape(1)
    a = s_array([1.0])
    for x in seq:
        a = s_convolve(a, s_array([1.0, -x]))
    if any(isinstance(x, SymComplex) for x in a):
        # numpy drops the imaginary part when roots are conjugate-closed
        if bool(s_all(np.equal(a.imag, 0))):
            a = a.real
    return a


def s_polymul(a, b):
    return s_convolve(s_trim_zeros(asany(a), 'f'), s_trim_zeros(asany(b), 'f'))


def s_polyadd(a, b):
    a, b = np.asarray(raw(asany(a))), np.asarray(raw(asany(b)))
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    n = max(len(a), len(b))
    z = lift(0)
    a = [z] * (n - len(a)) + list(a)
    b = [z] * (n - len(b)) + list(b)
    return mkarr((n,), [x + y for x, y in zip(a, b)])


def s_polysub(a, b):
    return s_polyadd(a, -mk(np.asarray(raw(asany(b)))))


def s_polydiv(u, v):
    u, v = list(np.asarray(raw(asany(u)))), list(np.asarray(raw(asany(v))))
    m, n = len(u) - 1, len(v) - 1
    sc = lift(1) / v[0]
    q = [lift(0)] * max(m - n + 1, 1)
    r = list(u)
    for k in range(0, m - n + 1):
        d = sc * r[k]
        q[k] = d
        for j in range(n + 1):
            r[k + j] = r[k + j] - d * v[j]
    while len(r) > 1 and bool(r[0] == 0):
        r = r[1:]
    return mkarr((len(q),), q), mkarr((len(r),), r)


def s_deconvolve(signal, divisor):
    num, den = list(np.asarray(raw(asany(signal)))), list(np.asarray(raw(asany(divisor))))
    N, D = len(num), len(den)
    if bool(den[0] == 0):
        raise ValueError('BUG: filter coefficient a[0] == 0')
    if D > N:
        return mkarr((0,), []), mkarr((N,), num)
    r = list(num)
    q = []
    for k in range(N - D + 1):
        d = r[k] / den[0]
        q.append(d)
        for j in range(D):
            r[k + j] = r[k + j] - d * den[j]
    return mkarr((len(q),), q), mkarr((N,), r)


def s_kron(a, b):
    a, b = np.asarray(raw(asany(a))), np.asarray(raw(asany(b)))
    nd = max(a.ndim, b.ndim)
    a = a.reshape((1,) * (nd - a.ndim) + a.shape)
    b = b.reshape((1,) * (nd - b.ndim) + b.shape)
    r = np.empty(tuple(x * y for x, y in zip(a.shape, b.shape)), dtype=object)
    for i in np.ndindex(a.shape):
        for j in np.ndindex(b.shape):
            r[tuple(x * n + y for x, n, y in zip(i, b.shape, j))] = a[i] * b[j]
    return mk(r)


def s_einsum(sub, *ops, **k):
    sub = sub.replace(' ', '')
    ops = [np.asarray(raw(asany(o))) for o in ops]
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    if '.' in sub:
        unsupported('einsum ellipsis')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts string contains wrong '
                             'number of subscripts')
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n and n != 1:
                raise ValueError('operands could not be broadcast together')
    summed = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)
    for k in np.ndindex(r.shape):
        env = dict(zip(out, k))
        acc = lift(0)
        for q in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, q))
            t = lift(1)
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[c] for c in s)]
            acc = acc + t
        r[k] = acc
    if r.ndim == 0:
        return r.item()
    return mk(r)


def s_outer(a, b, out=None):
    a = np.asarray(raw(asany(a))).reshape(-1)
    b = np.asarray(raw(asany(b))).reshape(-1)
    return mk(_pyfunc('multiply', 2).outer(a, b))


def s_diff(a, n=1, axis=-1, **k):
    a = asany(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def s_unique(a, **k):
    a = asany(a).reshape(-1)
    if k:
        unsupported('unique with options')
    b = s_sort(a)
    out = []
    for x in b:
        if not out or not bool(x == out[-1]):
            out.append(x)
    return mkarr((len(out),), out)


def s_angle(z, deg=False):
    z = asany(z)
    f = 180 / math.pi if deg else 1
    out = []
    for v in np.asarray(z).reshape(-1):
        if isinstance(v, float) and v != v:
            out.append(v)
            continue
        if not isinstance(v, SymComplex):
            v = SymComplex(S.lift(v), S.lift(0))
        out.append(S.PATH.angle(v) * f)
    return mkarr(z.shape, out) if z.ndim else out[0]


def s_unwrap(p, discont=None, axis=-1, *, period=2 * math.pi):
    """jumps of up to three periods"""
    p = asany(p)
    if discont is not None and discont > period / 2:
        S.unsupported('unwrap with a larger jump')
    a = np.moveaxis(np.array(np.asarray(p), dtype=object), axis, -1)
    for k in np.ndindex(a.shape[:-1]):
        row, shift = a[k], S.lift(0)
        prev = row[0] if len(row) else None
        for i in range(1, len(row)):
            v = row[i]
            d = v - prev
            prev = v
            if isinstance(d, float) or isinstance(shift, float):
                shift = row[i] = math.nan
                continue
            n = 0
            while bool(d > period / 2) and n < 3:
                d, shift, n = d - period, shift - period, n + 1
            while bool(d < -period / 2) and n < 3:
                d, shift, n = d + period, shift + period, n + 1
            if n == 3:
                S.unsupported('unwrap of a large jump')
            row[i] = v + shift
    return mk(np.moveaxis(a, -1, axis))


def s_size(a, axis=None):
    a = a if isinstance(a, np.ndarray) else asany(a)
    return a.size if axis is None else a.shape[axis]


def s_copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = np.broadcast_to(np.asarray(raw(src)), dst.shape)[fix_index(where)]


def s_iscomplex(x):
    x = asany(x)
    if isinstance(x, SArr):
        return boolify(np.asarray(_map(lambda y: (y.imag != 0) if
                                       isinstance(y, SymComplex) else False, x)))
    return np.iscomplex(x)


def s_median(*a, **k):
    unsupported('median')


def s_isin(a, b, **k):
    a = asany(a)
    bl = list(asany(b).reshape(-1))
    return boolify(np.asarray(_map(lambda x: b_or([x == y for y in bl]), a)))


def s_nan_to_num(x, **k):
    return x


def s_vdot(a, b):
    a = asany(a).reshape(-1)
    return s_dot(np.conj(a), asany(b).reshape(-1))


def s_block(arrays):
    def rec(x, depth):
        if isinstance(x, list):
            return [rec(y, depth + 1) for y in x]
        return x
    return wrap(np.block._implementation(strip(arrays)) if hasattr(
        np.block, '_implementation') else np.block(strip(arrays)))


def s_full_like(a, v, dtype=None, **k):
    a = asany(a)
    r = mkarr(a.shape, [lift(v)] * a.size)
    return r


def s_zeros_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asany(a)
    shp = a.shape if shape is None else shape
    if _dt(dtype) in ('i', 'b'):
        return np.zeros(shp, dtype=dtype)
    if not isinstance(a, SArr) and dtype is None:
        return np.zeros_like(a, shape=shape)
    r = mkarr(shp, [lift(0)] * int(np.prod(shp)))
    r.kind = getattr(a, 'kind', 'f') if dtype is None else 'f'
    return r


def s_ones_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asany(a)
    shp = a.shape if shape is None else shape
    if _dt(dtype) in ('i', 'b'):
        return np.ones(shp, dtype=dtype)
    if not isinstance(a, SArr) and dtype is None:
        return np.ones_like(a, shape=shape)
    r = mkarr(shp, [lift(1)] * int(np.prod(shp)))
    r.kind = getattr(a, 'kind', 'f') if dtype is None else 'f'
    return r


_undef = [0]


def undef():
    if S.PATH is None:
        return lift(0)
    return S.PATH.fresh('undef')


def s_empty_like(a, dtype=None, order='K', subok=True, shape=None):
    a = asany(a)
    shp = a.shape if shape is None else shape
    if _dt(dtype) in ('i', 'b'):
        return np.zeros(shp, dtype=dtype)
    if not isinstance(a, SArr) and dtype is None:
        return np.zeros_like(a, shape=shape)
    n = int(np.prod(shp))
    r = mkarr(shp, [undef() for _ in range(n)])
    r.kind = getattr(a, 'kind', 'f') if dtype is None else 'f'
    return r


FUNCS = {
    np.any: s_any, np.all: s_all, np.sum: s_sum, np.prod: s_prod,
    np.max: s_max, np.min: s_min, np.amax: s_max, np.amin: s_min,
    np.argmax: s_argmax, np.argmin: s_argmin, np.dot: s_dot,
    np.trace: s_trace, np.nonzero: s_nonzero, np.flatnonzero: s_flatnonzero,
    np.argwhere: s_argwhere, np.count_nonzero: s_count_nonzero,
    np.where: s_where, np.sort: s_sort, np.argsort: s_argsort,
    np.around: s_round, np.round: s_round, np.cumsum: s_cumsum,
    np.cumprod: s_cumprod, np.clip: s_clip,
    np.allclose: s_allclose, np.isclose: s_isclose,
    np.array_equal: s_array_equal, np.iscomplexobj: s_iscomplexobj,
    np.isrealobj: lambda x: not s_iscomplexobj(x),
    np.real: s_real, np.imag: s_imag, np.isreal: s_isreal,
    np.iscomplex: s_iscomplex, np.real_if_close: s_real_if_close,
    np.convolve: s_convolve, np.trim_zeros: s_trim_zeros,
    np.polyval: s_polyval, np.poly: s_poly, np.polymul: s_polymul,
    np.polyadd: s_polyadd, np.polysub: s_polysub, np.polydiv: s_polydiv,
    np.kron: s_kron, np.einsum: s_einsum, np.outer: s_outer, np.diff: s_diff,
    np.unique: s_unique, np.angle: s_angle, np.unwrap: s_unwrap, np.size: s_size,
    np.zeros_like: s_zeros_like, np.ones_like: s_ones_like,
    np.empty_like: s_empty_like, np.full_like: s_full_like,
    np.copyto: s_copyto, np.isin: s_isin, np.nan_to_num: s_nan_to_num,
    np.vdot: s_vdot, np.inner: lambda a, b: s_dot(a, np.asarray(b).T if
                                                 np.ndim(b) > 1 else b),
    np.mean: lambda a, axis=None, **k: asany(a).mean(axis=axis),
    np.sort_complex: lambda a: s_sort(a),
}
