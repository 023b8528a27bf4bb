"""numpy / scipy stand-ins seen by the symbolically executed modules."""
import builtins
import math
import types

import numpy as np
import scipy
import scipy.linalg as sla
import scipy.signal
import scipy.stats

from . import linalg as L
from . import sym as S
from .sarr import (SArr, mk, mkarr, wrap, raw, asany, s_array, has_sym, lift,
                   FUNCS, _dt, undef, s_any, s_all, is_concrete, to_native,
                   s_trim_zeros, s_polyval, s_poly, s_deconvolve, strip)
from .sym import SymReal, SymComplex, SymBool, unsupported


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, SymReal))

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class sfloat(metaclass=_FloatMeta):
    dtype = np.dtype('f8')
    __name__ = 'float'

    def __new__(cls, x=0.0):
        if isinstance(x, (SymReal,)):
            return x
        if isinstance(x, SymComplex):
            raise TypeError("can't convert complex to float")
        if isinstance(x, SymBool):
            return builtins.float(bool(x))
        if isinstance(x, L.Opaque):
            return x
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to '
                                'Python scalars')
            return sfloat(x.reshape(-1)[0])
        return builtins.float(x)

    fromhex = builtins.float.fromhex


class _CplxMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.complex, SymComplex))

    def __eq__(cls, o):
        return o is cls or o is builtins.complex

    def __hash__(cls):
        return hash(builtins.complex)


class scomplex(metaclass=_CplxMeta):
    dtype = np.dtype('c16')

    def __new__(cls, x=0.0, y=0.0):
        if has_sym(x) or has_sym(y):
            x, y = lift(x), lift(y)
            if isinstance(x, SymComplex):
                return x
            return SymComplex(x, y)
        return builtins.complex(x, y)


def s_all_b(it):
    if isinstance(it, np.ndarray) and it.ndim == 1 and it.dtype == object or \
            isinstance(it, (list, tuple)):
        xs = list(it)
        for x in xs:
            if isinstance(x, L.Opaque):
                return x
        if any(isinstance(x, SymBool) for x in xs) and all(
                isinstance(x, (bool, np.bool_, SymBool)) for x in xs):
            return S.b_and(xs)
    return builtins.all(it)


def s_any_b(it):
    if isinstance(it, np.ndarray) and it.ndim == 1 and it.dtype == object or \
            isinstance(it, (list, tuple)):
        xs = list(it)
        for x in xs:
            if isinstance(x, L.Opaque):
                return x
        if any(isinstance(x, SymBool) for x in xs) and all(
                isinstance(x, (bool, np.bool_, SymBool)) for x in xs):
            return S.b_or(xs)
    return builtins.any(it)


def s_round_b(x, n=None):
    return builtins.round(x, n) if n is not None else builtins.round(x)


# ---------------------------------------------------------------- numpy
def _shape(s):
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    return tuple(int(x) for x in s)


def _const(shape, v):
    shape = _shape(shape)
    n = 1
    for k in shape:
        if k < 0:
            raise ValueError('negative dimensions are not allowed')
        n *= k
    z = lift(v)
    return mkarr(shape, [z] * n)


def zeros(shape, dtype=None, order='C', **k):
    if _dt(dtype) in ('i', 'b'):
        return np.zeros(shape, dtype=dtype)
    return _const(shape, 0)


def ones(shape, dtype=None, order='C', **k):
    if _dt(dtype) in ('i', 'b'):
        return np.ones(shape, dtype=dtype)
    return _const(shape, 1)


def empty(shape, dtype=None, order='C', **k):
    if _dt(dtype) in ('i', 'b'):
        return np.zeros(shape, dtype=dtype)
    shape = _shape(shape)
    n = int(np.prod(shape)) if shape else 1
    return mkarr(shape, [undef() for _ in range(n)])


def full(shape, v, dtype=None, **k):
    if _dt(dtype) in ('i', 'b'):
        return np.full(shape, v, dtype=dtype)
    if isinstance(v, (bool, int)) and dtype is None:
        return np.full(shape, v)
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
        r = _const(shape, 0)
        r[...] = v
        return r
    return _const(shape, v)


def eye(N, M=None, k=0, dtype=None, **kw):
    r = np.eye(N, M, k)
    return r.astype(dtype) if _dt(dtype) in ('i', 'b') else wrap(r)


def asarray(a, dtype=None, order=None, **k):
    if isinstance(a, SArr):
        if _dt(dtype) in ('i', 'b'):
            return a.astype(dtype)
        return a
    if isinstance(a, np.ndarray) and (dtype is None or np.dtype(dtype) == a.dtype):
        if a.dtype.kind in 'iub':
            return a
    return s_array(a, dtype=dtype, copy=False)


def atleast_1d(*arys):
    r = []
    for a in arys:
        a = asany(a) if not isinstance(a, np.ndarray) else a
        r.append(a.reshape(1) if a.ndim == 0 else a)
    return r[0] if len(r) == 1 else r


def atleast_2d(*arys):
    r = []
    for a in arys:
        a = asany(a) if not isinstance(a, np.ndarray) else a
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a[None, :]
        r.append(a)
    return r[0] if len(r) == 1 else r


def arange(*a, **k):
    f = S.PATH.hooks.get('grid') if S.PATH is not None else None
    if f is not None and any(isinstance(x, float) and x % 1 for x in a):
        a = [lift(x) for x in a]
    elif not has_sym(a):
        return wrap(np.arange(*a, **k))
    if f is None and all(is_concrete(lift(x)) for x in a):
        return wrap(np.arange(*[float(x) for x in a]))
    if f is not None:
        a = [lift(x) for x in a]
        a = [lift(0)] + a if len(a) == 1 else a
        return f(a[0], a[1], a[2] if len(a) > 2 else lift(1))
    unsupported('arange with symbolic bounds')


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym((start, stop)):
        return wrap(np.linspace(start, stop, int(num), endpoint, retstep))
    a, b = lift(start), lift(stop)
    if isinstance(num, SymReal) and not num.is_const():
        f = S.PATH.hooks.get('grid')
        if f is None:
            unsupported('linspace with a symbolic length')
        return f(a, b, (b - a) / (num - 1 if endpoint else num))
    num = int(num)
    d = num - 1 if endpoint else num
    st = (b - a) / d if d > 0 else lift(0)
    r = mkarr((num,), [a + st * i for i in range(num)])
    return (r, st) if retstep else r


def diag(v, k=0):
    v = asany(v) if not isinstance(v, np.ndarray) else v
    if not isinstance(v, SArr):
        return wrap(np.diag(v, k))
    if v.ndim == 1:
        n = len(v) + abs(k)
        r = np.asarray(_const((n, n), 0))
        for i in range(len(v)):
            r[i + max(-k, 0), i + max(k, 0)] = v[i]
        return mk(r)
    return mk(np.array(np.diagonal(np.asarray(v), k), dtype=object))


def array_func(f):
    """call a real numpy function, lifting symbolic list arguments first"""
    def g(*a, **k):
        if has_sym(a):
            if f in FUNCS:
                return FUNCS[f](*a, **k)
            a = tuple(_liftlists(x) for x in a)
        elif isinstance(k.get('dtype'), type) and k['dtype'] in (sfloat, scomplex):
            k['dtype'] = k['dtype'].dtype
        return wrap(f(*a, **k))
    g.__name__ = getattr(f, '__name__', 'f')
    g.__wrapped__ = f
    return g


def _liftlists(x):
    """a (nested) list containing scalars only -> SArr; lists of arrays stay"""
    if isinstance(x, (list, tuple)) and x and has_sym(x):
        if any(isinstance(y, (SymReal, SymComplex, SymBool)) for y in x) and \
                not any(isinstance(y, (np.ndarray, list, tuple)) for y in x):
            return s_array(x)
        r = [_liftlists(y) for y in x]
        return type(x)(r) if type(x) in (list, tuple) else x
    if isinstance(x, (SymReal, SymComplex)):
        return mkarr((), [x])
    return x


class UFunc:
    def __init__(self, uf):
        self._uf = uf

    def __call__(self, *a, **k):
        if has_sym(a) or any(isinstance(x, (list, tuple)) for x in a):
            a = tuple(asany(x) if isinstance(x, (list, tuple)) else x for x in a)
            if has_sym(a):
                from .sarr import dispatch_ufunc
                return dispatch_ufunc(self._uf, '__call__', a, k)
        return wrap(self._uf(*a, **k))

    def __getattr__(self, n):
        return getattr(self._uf, n)


class _RC:
    def __init__(self, o):
        self._o = o

    def __getitem__(self, k):
        return wrap(self._o[k])


class Shim(types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over
        self.__dict__['_cache'] = {}

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        c = self._cache.get(n)
        if c is not None:
            return c
        v = getattr(self._real, n)
        if isinstance(v, np.ufunc):
            v = UFunc(v)
        elif isinstance(v, (type, types.ModuleType)) or not callable(v):
            return v
        elif isinstance(v, float):
            return v
        else:
            v = array_func(v)
        self._cache[n] = v
        return v


class vectorize:
    def __init__(self, f, **k):
        self.f = f

    def __call__(self, *a):
        arrs = np.broadcast_arrays(*[np.asarray(raw(asany(x))) for x in a])
        r = np.empty(arrs[0].shape, dtype=object)
        for k in np.ndindex(r.shape):
            r[k] = self.f(*[x[k] for x in arrs])
        return wrap(r)


def isscalar(x):
    return isinstance(x, (SymReal, SymComplex)) or np.isscalar(x)


def iterable(x):
    return np.iterable(x)


def np_abs(x, *a, **k):
    if isinstance(x, (list, tuple)):
        x = asany(x)
    return abs(x) if not isinstance(x, np.ndarray) or isinstance(x, SArr) \
        else wrap(np.abs(x))


def ndim(x):
    return 0 if isinstance(x, (SymReal, SymComplex)) else np.ndim(
        x if not has_sym(x) or isinstance(x, np.ndarray) else asany(x))


def shape(x):
    return () if isinstance(x, (SymReal, SymComplex)) else np.shape(
        x if not has_sym(x) or isinstance(x, np.ndarray) else asany(x))


def delete(arr, obj, axis=None):
    from .sarr import fix_index1
    if isinstance(obj, SArr):
        obj = fix_index1(obj)
    return wrap(np.delete(arr, obj, axis))


def np_append(arr, values, axis=None):
    a = asany(arr)
    v = asany(values)
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    return wrap(np.concatenate((strip(a), strip(v)), axis=axis))


def squeeze(a, axis=None):
    a = asany(a) if not isinstance(a, np.ndarray) else a
    return a.squeeze(axis) if axis is not None else a.squeeze()


def logspace(*a, **k):
    if not all(is_concrete(x) for x in (*a, *k.values()) if has_sym(x)):
        unsupported('logspace with symbolic bounds')
    return wrap(np.logspace(*[to_native(x) for x in a],
                **{n: to_native(x) if has_sym(x) else x for n, x in k.items()}))


def geomspace(*a, **k):
    if not all(is_concrete(x) for x in (*a, *k.values()) if has_sym(x)):
        unsupported('geomspace with symbolic bounds')
    return wrap(np.geomspace(*[to_native(x) for x in a],
                **{n: to_native(x) if has_sym(x) else x for n, x in k.items()}))


NP_OVER = {
    'array': s_array, 'asarray': asarray, 'asanyarray': asarray,
    'asfarray': lambda a, dtype=None: asarray(a, dtype=float),
    'ascontiguousarray': asarray, 'asfortranarray': asarray,
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full,
    'eye': eye, 'identity': lambda n, dtype=None, **k: eye(n, dtype=dtype),
    'atleast_1d': atleast_1d, 'atleast_2d': atleast_2d,
    'arange': arange, 'linspace': linspace, 'logspace': logspace,
    'geomspace': geomspace, 'diag': diag,
    'r_': _RC(np.r_), 'c_': _RC(np.c_), 'vectorize': vectorize,
    'isscalar': isscalar, 'abs': np_abs, 'absolute': np_abs,
    'ndim': ndim, 'shape': shape, 'delete': delete, 'append': np_append,
    'squeeze': squeeze, 'roots': L.roots,
    'copy': lambda a, *x, **k: s_array(a),
}
for _f, _g in FUNCS.items():
    NP_OVER.setdefault(_f.__name__, _g)
for _n in ('any', 'all', 'sum', 'max', 'min', 'amax', 'amin', 'round'):
    NP_OVER[_n] = FUNCS[getattr(np, _n)]


def _nativefirst(name, g):
    real = getattr(np, name, None)
    if real is None or name in ('array',):
        return g

    def h(*a, **k):
        if not has_sym(a) and not has_sym(tuple(k.values())):
            k = {x: (y.dtype if isinstance(y, type) and y in (sfloat, scomplex)
                     else y) for x, y in k.items()}
            return wrap(real(*a, **k))
        return g(*a, **k)
    h.__name__ = name
    return h


for _f, _g in list(FUNCS.items()):
    _n = _f.__name__
    if _n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        continue
    NP_OVER[_n] = _nativefirst(_n, _g)
for _n in ('max', 'min', 'any', 'all', 'sum', 'round'):
    NP_OVER[_n] = _nativefirst(_n, FUNCS[getattr(np, _n)])

LIN_OVER = {
    'solve': L.np_solve, 'inv': L.inv, 'det': L.det, 'norm': L.norm,
    'matrix_rank': L.matrix_rank, 'matrix_power': L.matrix_power,
    'svd': L.svd, 'qr': lambda a, mode='reduced': L.qr(
        a, mode={'reduced': 'economic', 'complete': 'full'}.get(mode, mode)),
    'eigvals': L.eigvals, 'eig': L.eig, 'cond': L.cond, 'lstsq': L.lstsq,
    'pinv': L.pinv, 'LinAlgError': np.linalg.LinAlgError,
}
SLA_OVER = {
    'solve': L.solve, 'inv': L.inv, 'det': L.det, 'norm': L.norm,
    'svd': L.svd, 'svdvals': L.svdvals, 'qr': L.qr, 'eigvals': L.eigvals,
    'eig': L.eig, 'block_diag': L.block_diag, 'lu': L.lu, 'lstsq': L.lstsq,
    'expm': L.expm, 'logm': L.logm, 'matrix_balance': L.matrix_balance,
    'hessenberg': L.hessenberg, 'qz': L.qz, 'schur': L.schur,
    'solve_continuous_are': L.care, 'solve_discrete_are': L.dare,
    'pinv': L.pinv, 'null_space': L.null_space, 'orth': L.orth,
    'solve_triangular': L.solve_triangular,
}



def _overwriting(fn):
    """with overwrite_a or overwrite_b set, an argument stored the way LAPACK
    wants it holds unspecified numbers after the call"""
    def f(*a, **k):
        flags = {n: k.pop(n) for n in ('overwrite_a', 'overwrite_b',
                                       'overwrite_ab') if n in k}
        r = fn(*a, **k)
        for n, on in flags.items():
            key = n[len('overwrite_'):]
            i = 1 if key == 'b' else 0
            v = k[key] if key in k else a[i] if len(a) > i else None
            if on and isinstance(v, np.ndarray) and v.flags.f_contiguous \
                    and v.flags.writeable and has_sym(v):
                for ix in np.ndindex(*v.shape):
                    v[ix] = S.PATH.fresh('overwritten')
        return r
    f.__name__ = getattr(fn, '__name__', 'f')
    return f


SLA_OVER = {n: f if n in ('norm', 'block_diag') else _overwriting(f)
            for n, f in SLA_OVER.items()}

umath_linalg = Shim('numpy.linalg._umath_linalg', np.linalg._umath_linalg,
                    {'solve': L.gufunc_solve})
np_linalg_linalg = Shim('numpy.linalg.linalg', np.linalg.linalg, dict(
    LIN_OVER, _makearray=lambda a: (asarray(a), lambda x: x)))
np_linalg = Shim('numpy.linalg', np.linalg, dict(
    LIN_OVER, _umath_linalg=umath_linalg, linalg=np_linalg_linalg))


def native(v):
    if not has_sym(v):
        return v
    return np.vectorize(float, otypes=[float])(np.asarray(raw(asany(v))))


def _drawn(name, real):
    """random numbers come from the harness when it wants them"""
    def f(*a, **k):
        h = S.PATH.hooks.get(name) if S.PATH is not None else None
        if h is not None:
            return h(*a, **k)
        return real(*[native(v) for v in a], **{n: native(v) for n, v in k.items()})
    f.__name__ = name
    return f


np_random = Shim('numpy.random', np.random, {
    n: _drawn(n, getattr(np.random, n)) for n in ('rand', 'choice')})
ortho_group = types.SimpleNamespace(
    rvs=_drawn('ortho_group', scipy.stats.ortho_group.rvs))
STATS = Shim('scipy.stats', scipy.stats, {'ortho_group': ortho_group})
NP = Shim('numpy', np, dict(NP_OVER, linalg=np_linalg, random=np_random))
sla_decomp = Shim('scipy.linalg._decomp', __import__(
    'scipy.linalg._decomp', fromlist=['x']),
    {'_asarray_validated': L.asarray_validated})
SLA = Shim('scipy.linalg', sla, dict(SLA_OVER, _decomp=sla_decomp))


def _wrapdec(sig, div):
    if not has_sym((sig, div)):
        return wrap(scipy.signal.deconvolve(sig, div))
    return s_deconvolve(sig, div)


SIG = Shim('scipy.signal', scipy.signal, {'deconvolve': _wrapdec,
                                          'convolve': NP_OVER['convolve']})
SP = Shim('scipy', scipy, {'linalg': SLA, 'signal': SIG,
                           'stats': STATS})


def _m1(name, attr, pyf):
    def f(x):
        if isinstance(x, SArr) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, (SymReal, SymComplex)):
            return getattr(x, attr)()
        return pyf(x)
    return f


MATH = Shim('math', math, {
    'sqrt': _m1('sqrt', 'sqrt', math.sqrt), 'exp': _m1('exp', 'exp', math.exp),
    'log': _m1('log', 'log', math.log), 'cos': _m1('cos', 'cos', math.cos),
    'sin': _m1('sin', 'sin', math.sin), 'tan': _m1('tan', 'tan', math.tan),
    'atan': _m1('atan', 'arctan', math.atan),
    'log10': _m1('log10', 'log10', math.log10),
    'fabs': lambda x: abs(x), 'isclose': lambda a, b, **k: a == b,
    'isnan': lambda x: isinstance(x, float) and x != x,
    'isinf': lambda x: isinstance(x, float) and abs(x) == math.inf,
    'isfinite': lambda x: not (isinstance(x, float) and (
        x != x or abs(x) == math.inf)),
    'floor': lambda x: math.floor(x) if not isinstance(x, SymReal) else int(x.floor()),
    'ceil': lambda x: math.ceil(x) if not isinstance(x, SymReal) else int(x.ceil()),
    'hypot': lambda a, b: (lift(a) * a + lift(b) * b).sqrt(),
    'copysign': lambda a, b: abs(a) if b >= 0 else -abs(a),
    'prod': lambda it, start=1: __import__('functools').reduce(
        lambda a, b: a * b, it, start),
    'fsum': lambda it: sum(it),
})

MODS = {
    'numpy': NP, 'numpy.linalg': np_linalg,
    'numpy.linalg._umath_linalg': umath_linalg,
    'numpy.linalg.linalg': np_linalg_linalg,
    'scipy': SP, 'scipy.linalg': SLA, 'scipy.linalg._decomp': sla_decomp,
    'scipy.signal': SIG, 'math': MATH, 'numpy.random': np_random,
    'scipy.stats': STATS,
}
