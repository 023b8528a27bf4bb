"""Exact models of the linear algebra kernels (LAPACK wrappers) for symbolic
data.  Every function falls back to the real scipy/numpy routine when all of
its inputs are concrete.  What each model promises is listed in STUBS, which
goes into the evidence of every check that used it."""
import math
from fractions import Fraction

import numpy as np
import scipy.linalg as sla

from . import sym as S
from . import poly as P
from .sym import SymReal, SymComplex, SymBool, lift, unsupported
from .sarr import (SArr, mk, mkarr, raw, wrap, asany, is_concrete, to_native,
                   s_matmul, s_array, has_sym)

LinAlgError = np.linalg.LinAlgError

STUBS = {
    'solve': 'solve/inv/lstsq: exact Cramer solution; singular -> LinAlgError',
    'det': 'det: exact determinant',
    'rank': 'matrix_rank: exact rank (branches on pivots)',
    'svdvals': 'svdvals: only (non)singularity of the matrix is modelled',
    'svd': 'svd: exact for zero matrices, scalars and vectors',
    'svd-echelon': 'svd: any factorisation M = L R with R row-compressed',
    'qr': 'qr: exact for vectors, scalars and two columns',
    'eig-opaque': 'eigenvalues are opaque (not inspected by this harness)',
    'eig-exact': 'eigenvalues: exact quadratic formula, block structure',
    'eig-split': 'eigenvalues: generic roots of the characteristic polynomial',
    'balance': 'matrix_balance: unit scaling (any scaling is a valid output)',
    'balance-free': 'matrix_balance: arbitrary positive diagonal scaling',
    'expm-series': 'expm: formal power series in the step, truncated',
    'registered': 'factorisation outputs constructed by the harness',
    'hess': 'hessenberg: identity transformation for order <= 2',
    'tzeros-opaque': 'transmission zeros are opaque (not inspected)',
    'tzeros-exact': 'transmission zeros: roots of the exact numerator',
    'lu': 'lu: exact elimination, pivot order unspecified',
    'are': 'Riccati solver: arbitrary symmetric solution of the equation',
    'contract:staircase': 'staircase: orthogonal similarity with unreachable states last',
    'contract:cancellation_distance': 'cancellation_distance: zero exactly for pairs without full rank',
    'log-uf': 'log/tan/arctan: uninterpreted functions',
}


def used(k):
    if S.PATH is not None:
        S.PATH.stubs.add(k)


class Opaque:
    """A value the model says nothing about; branching on it is unsupported."""
    __array_priority__ = 1000
    __slots__ = ('tag',)

    def __init__(self, tag=''):
        self.tag = tag

    def _o(self, *a, **k):
        return Opaque(self.tag)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _o
    __truediv__ = __rtruediv__ = __neg__ = __abs__ = __pow__ = __rpow__ = _o
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _o
    __and__ = __or__ = __rand__ = __ror__ = __invert__ = __pos__ = _o
    __mod__ = __floordiv__ = _o
    sqrt = exp = log = conjugate = conj = _o
    real = property(_o)
    imag = property(_o)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        unsupported('branch on an opaque value (%s)' % self.tag)

    def __float__(self):
        unsupported('float of an opaque value (%s)' % self.tag)

    def __deepcopy__(self, m):
        return self

    def is_const(self):
        return False

    def __repr__(self):
        return '<opaque %s>' % self.tag

    def __array_ufunc__(self, ufunc, method, *a, **k):
        from . import sarr
        return sarr.dispatch_ufunc(ufunc, method, a, k)


def conc(*args):
    for a in args:
        if a is None:
            continue
        if isinstance(a, (list, tuple)):
            if not conc(*a):
                return False
        elif not is_concrete(a):
            return False
    return True


def inexact(*args):
    """concrete data that the exact models cannot take (complex, inf, nan);
    finite concrete reals go through the exact models like symbolic ones, so
    that no rounding enters the encoding"""
    if not conc(*args):
        return False
    for a in args:
        if a is None:
            continue
        n = np.asarray(nat(a))
        if n.dtype.kind == 'c' and np.any(n.imag) or not np.all(np.isfinite(n)):
            return True
    return False


def nat(a):
    if isinstance(a, (list, tuple)):
        return type(a)(nat(x) for x in a)
    return to_native(a)


def real_call(fn, *args, **kw):
    """run the real routine on concrete data, lift the outcome"""
    return wrap(fn(*[nat(a) for a in args], **{k: nat(v) for k, v in kw.items()}))


def A2(a):
    """to object ndarray, 2-d check left to callers"""
    a = asany(a)
    if a.dtype.kind in 'iub':
        a = a.astype(float)
    return np.asarray(raw(wrap(a)))


# ------------------------------------------------------------- determinants
def _zero(x):
    return S.is_zero_const(x)


def det_rows(M, rows, cols, memo):
    n = len(rows)
    if n == 0:
        return lift(1)
    if n == 1:
        return M[rows[0], cols[0]]
    key = (rows, cols)
    r = memo.get(key)
    if r is not None:
        return r
    # expand along the sparsest of: first row
    best = 0
    acc = lift(0)
    i = rows[0]
    for k, j in enumerate(cols):
        x = M[i, j]
        if _zero(x):
            continue
        sub = det_rows(M, rows[1:], cols[:k] + cols[k + 1:], memo)
        if _zero(sub):
            continue
        t = x * sub
        acc = acc + t if k % 2 == 0 else acc - t
    memo[key] = acc
    return acc


def det_exact(M):
    M = A2(M)
    n = M.shape[0]
    return det_rows(M, tuple(range(n)), tuple(range(n)), {})


def det(a, **k):
    if inexact(a):
        return real_call(np.linalg.det, a)
    used('det')
    a = asany(a)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    return det_exact(a)


def adjugate(M):
    """adj and det with a shared minor table"""
    M = A2(M)
    n = M.shape[0]
    memo = {}
    allr = tuple(range(n))
    adj = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            rr = allr[:i] + allr[i + 1:]
            cc = allr[:j] + allr[j + 1:]
            m = det_rows(M, rr, cc, memo)
            adj[j, i] = m if (i + j) % 2 == 0 else -m
    return adj, det_rows(M, allr, allr, memo)


def _triangular(M):
    n = M.shape[0]
    lo = all(_zero(M[i, j]) for i in range(n) for j in range(i + 1, n))
    up = all(_zero(M[i, j]) for i in range(n) for j in range(i))
    return 'L' if lo else ('U' if up else None)


def solve_core(A, B, singular):
    """A x = B exact. singular: callable invoked when det == 0"""
    n = A.shape[0]
    if n == 0:
        return B
    f = S.PATH.hooks.get('solve')
    if f is not None:
        X = f(mk(A.copy()), mk(B.copy()))
        if X is not None:
            used('registered')
            return np.asarray(X)
    t = _triangular(A)
    if t:
        for i in range(n):
            if bool(A[i, i] == 0):
                return singular()
        order = range(n) if t == 'L' else range(n - 1, -1, -1)
        X = np.empty(B.shape, dtype=object)
        for i in order:
            for j in range(B.shape[1]):
                acc = B[i, j]
                js = range(i) if t == 'L' else range(i + 1, n)
                for k in js:
                    if not _zero(A[i, k]) and not _zero(X[k, j]):
                        acc = acc - A[i, k] * X[k, j]
                X[i, j] = acc / A[i, i]
        return X
    adj, d = adjugate(A)
    if bool(d == 0):
        return singular()
    R = np.asarray(s_matmul(adj, B))
    X = np.empty(R.shape, dtype=object)
    for k in np.ndindex(R.shape):
        X[k] = R[k] / d
    return X


def _raise_singular():
    raise LinAlgError('Matrix is singular.')


def solve(a, b, *args, **kw):
    if inexact(a, b):
        return real_call(sla.solve, a, b, *args, **kw)
    used('solve')
    A, B = A2(a), A2(b)
    if A.ndim == 0:
        A = A.reshape(1, 1)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('Input a needs to be a square matrix.')
    n = A.shape[0]
    if kw.get('transposed'):
        A = A.T
    if B.ndim == 0 or n != B.shape[0]:
        if not (n == 1 and B.size != 0):
            raise ValueError('Input b has to have same number of rows as input a')
    if B.size == 0:
        return mk(B.copy())
    one = B.ndim == 1
    if one:
        B2 = B[:, None] if n != 1 else B[None, :]
    else:
        B2 = B
    ah = kw.get('assume_a', None)
    X = solve_core(A, B2, _raise_singular)
    if one:
        X = X[:, 0] if n != 1 else X.reshape(-1)
    return mk(X)


def np_solve(a, b):
    if inexact(a, b):
        return real_call(np.linalg.solve, a, b)
    used('solve')
    A, B = A2(a), A2(b)
    if A.ndim > 2 or B.ndim > 2:
        lead = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
        AA = np.broadcast_to(A, lead + A.shape[-2:])
        BB = np.broadcast_to(B, lead + B.shape[-2:])
        r = np.empty(lead + B.shape[-2:], dtype=object)
        for k in np.ndindex(lead):
            r[k] = np.asarray(np_solve(mk(AA[k].copy()), mk(BB[k].copy())))
        return mk(r)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    one = B.ndim == 1
    B2 = B[:, None] if one else B
    if B2.shape[0] != A.shape[0]:
        raise ValueError('solve: Input operand 1 has a mismatch in its core dimension')
    X = solve_core(A, B2, _raise_singular)
    return mk(X[:, 0] if one else X)


def gufunc_solve(a, b, **kw):
    if inexact(a, b):
        from numpy.linalg import _umath_linalg as ul
        return real_call(ul.solve, a, b)
    used('solve')
    A, B = A2(a), A2(b)
    if A.ndim != 2 or B.ndim != 2:
        unsupported('gufunc solve with ndim != 2')
    if A.shape[0] != A.shape[1] or A.shape[0] != B.shape[0]:
        raise ValueError('solve: mismatch in core dimensions')

    def sing():
        return mkarr(B.shape, [math.nan] * B.size)
    return mk(np.asarray(solve_core(A, B, sing)))


def inv(a, **kw):
    if inexact(a):
        return real_call(sla.inv, a)
    used('solve')
    A = A2(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('expected square matrix')
    n = A.shape[0]
    I = np.asarray(wrap(np.eye(n)))
    return mk(solve_core(A, I, _raise_singular))


def matrix_power(a, n):
    a = asany(a)
    if inexact(a):
        return real_call(np.linalg.matrix_power, a, int(n))
    n = int(n)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    r = wrap(np.eye(a.shape[0]))
    b = a
    if n < 0:
        b, n = inv(a), -n
    for _ in range(n):
        r = s_matmul(r, b)
    return r


# ---------------------------------------------------------------- elimination
def rref(M, ncols=None):
    """(R, pivots): exact reduced row echelon form; branches on pivots"""
    M = np.array(A2(M), dtype=object, copy=True)
    r, c = M.shape
    ncols = c if ncols is None else ncols
    piv = []
    row = 0
    for col in range(ncols):
        if row >= r:
            break
        # constants first, then small entries: fewer symbolic branches
        cand = sorted(range(row, r), key=lambda i: (
            _zero(M[i, col]), not M[i, col].is_const(), len(M[i, col].n.t)
            if isinstance(M[i, col], SymReal) else 50))
        p = None
        for i in cand:
            if _zero(M[i, col]):
                continue
            if bool(M[i, col] != 0):
                p = i
                break
            M[i, col] = lift(0)
        if p is None:
            continue
        if p != row:
            M[[row, p]] = M[[p, row]]
        pv = M[row, col]
        for j in range(col, c):
            M[row, j] = M[row, j] / pv if j != col else lift(1)
        for i in range(r):
            if i != row and not _zero(M[i, col]):
                f = M[i, col]
                for j in range(col, c):
                    if not _zero(M[row, j]):
                        M[i, j] = M[i, j] - f * M[row, j]
                M[i, col] = lift(0)
        piv.append(col)
        row += 1
    return M, piv


def matrix_rank(M, tol=None, hermitian=False, **k):
    M = asany(M)
    if inexact(M):
        return np.linalg.matrix_rank(nat(M), tol=tol)
    used('rank')
    M = A2(M)
    if M.ndim < 2:
        return int(bool(S.b_or([x != 0 for x in M.reshape(-1)])))
    return len(rref(M)[1])


def lstsq(a, b, *args, **kw):
    if inexact(a, b):
        return real_call(sla.lstsq, a, b)
    used('solve')
    A, B = A2(a), A2(b)
    one = B.ndim == 1
    B2 = B[:, None] if one else B
    n = A.shape[1]
    R, piv = rref(np.hstack([A, B2]), ncols=n)
    if len(piv) < n:
        unsupported('lstsq of a rank deficient matrix')
    tail = R[n:, n:]
    if all(_zero(x) or bool(x == 0) for x in tail.reshape(-1)):
        X = R[:n, n:]
    else:
        AT = A.T
        X = solve_core(np.asarray(s_matmul(AT, A)), np.asarray(s_matmul(AT, B2)),
                       _raise_singular)
    X = X[:, 0] if one else X
    return mk(np.array(X, dtype=object)), mkarr((0,), []), n, mkarr(
        (n,), [lift(1)] * n)


def lu(a, permute_l=False, **kw):
    if inexact(a):
        return real_call(sla.lu, a)
    used('lu')
    M = np.array(A2(a), dtype=object, copy=True)
    r, c = M.shape
    k = min(r, c)
    perm = list(range(r))
    L = np.asarray(wrap(np.eye(r)))
    row = 0
    for col in range(c):
        if row >= r:
            break
        p = None
        for i in range(row, r):
            if _zero(M[i, col]):
                continue
            if bool(M[i, col] != 0):
                p = i
                break
            M[i, col] = lift(0)
        if p is None:
            continue
        if p != row:
            M[[row, p]] = M[[p, row]]
            perm[row], perm[p] = perm[p], perm[row]
        for i in range(row + 1, r):
            if not _zero(M[i, col]):
                f = M[i, col] / M[row, col]
                for j in range(col, c):
                    M[i, j] = M[i, j] - f * M[row, j]
                M[i, col] = lift(0)
        row += 1
    U = M[:k, :]
    return wrap(np.eye(r)), mk(L[:, :k]), mk(U)


# ----------------------------------------------------------------- norms etc
def norm(a, ord=None, axis=None, keepdims=False, **kw):
    a = asany(a)
    if conc(a):
        return wrap(np.linalg.norm(nat(a), ord=ord, axis=axis))
    f = S.PATH.hooks.get('norm')
    if f is not None:
        r = f(a, ord)
        if r is not None:
            used('registered')
            return r
    A = np.asarray(a)
    if axis == (0, 1) and A.ndim == 3:
        return mkarr((A.shape[2],), [norm(mk(A[:, :, k].copy()), ord)
                                     for k in range(A.shape[2])])
    if axis is not None:
        if A.ndim != 2 or axis not in (0, 1) or ord not in (None, 2):
            unsupported('norm with axis')
        rows = A if axis == 1 else A.T
        return mkarr((len(rows),), [norm(mk(r.copy())) for r in rows])
    if ord in (None, 'fro') or (A.ndim == 1 and ord == 2):
        acc = lift(0)
        for x in A.reshape(-1):
            if isinstance(x, SymComplex):
                acc = acc + x.re * x.re + x.im * x.im
            else:
                acc = acc + x * x
        return S.PATH.sqrt(acc, True)
    if ord == 1 and A.ndim == 2:
        return mkarr((A.shape[1],), [sum((abs(x) for x in A[:, j]), lift(0))
                                     for j in range(A.shape[1])]).max()
    if ord == np.inf and A.ndim == 2:
        return mkarr((A.shape[0],), [sum((abs(x) for x in A[i]), lift(0))
                                     for i in range(A.shape[0])]).max()
    if ord == np.inf and A.ndim == 1:
        return mk(A).__abs__().max()
    if ord == 1 and A.ndim == 1:
        return sum((abs(x) for x in A), lift(0))
    if A.ndim == 2 and ord == 2:
        s = svdvals(a)
        return s.max()
    unsupported(f'norm ord={ord!r}')


def svdvals(a, **kw):
    if conc(a):
        return real_call(sla.svdvals, a)
    A = A2(a)
    if A.ndim != 2:
        raise ValueError('expected matrix')
    n, m = A.shape
    if min(n, m) == 0:
        return mkarr((0,), [])
    if min(n, m) == 1:
        return mkarr((1,), [norm(mk(A.reshape(-1)))])
    f = S.PATH.hooks.get('svdvals')
    if f is not None:
        return f(mk(A))
    used('svdvals')
    k = min(n, m)
    G = A if n == m else (np.asarray(s_matmul(A, A.T)) if n < m else
                          np.asarray(s_matmul(A.T, A)))
    d = det_exact(G)
    out = []
    for i in range(k - 1):
        v = S.PATH.fresh('sv')
        S.PATH.assume(S.atom((-v).n, '<'))
        out.append(v)
    out.append(abs(d))
    return mkarr((k,), out)


def cond(a, p=None):
    if conc(a):
        return real_call(np.linalg.cond, a)
    unsupported('cond')


def svd(a, full_matrices=True, compute_uv=True, **kw):
    A = A2(a)
    if conc(a) and S.PATH.opts.get('svd') != 'echelon':
        fn = sla.svd if kw.pop('_scipy', False) else np.linalg.svd
        return real_call(np.linalg.svd, a, full_matrices=full_matrices,
                         compute_uv=compute_uv)
    if A.ndim != 2:
        raise LinAlgError('svd needs a matrix')
    if not compute_uv:
        return svdvals(a)
    n, m = A.shape
    f = S.PATH.hooks.get('svd')
    if f is not None:
        r = f(mk(A), full_matrices)
        if r is not None:
            used('registered')
            return r
    if min(n, m) == 1:
        used('svd')
        v = A.reshape(-1)
        nr = norm(mk(v))
        if bool(nr == 0):
            U, Vh = wrap(np.eye(n)), wrap(np.eye(m))
            s = mkarr((1,), [lift(0)])
        elif n == 1 and m == 1:
            sg = lift(1) if bool(v[0] > 0) else lift(-1)
            U, Vh, s = mkarr((1, 1), [sg]), wrap(np.eye(1)), mkarr((1,), [nr])
        else:
            Q = _householder(v, nr)      # first column is v/|v|
            s = mkarr((1,), [nr])
            if m == 1:
                U, Vh = Q, wrap(np.eye(1))
            else:
                U, Vh = wrap(np.eye(1)), mk(np.asarray(Q).T.copy())
        if not full_matrices:
            U, Vh = U[:, :1], Vh[:1, :]
        return U, s, Vh
    if S.PATH.opts.get('svd') == 'echelon':
        used('svd-echelon')
        R, piv = rref(A)
        k = min(n, m)
        # M = L R ; report L := unknown, s := 1 on the rank, V := rows of R
        s = mkarr((k,), [lift(1) if i < len(piv) else lift(0) for i in range(k)])
        V = np.empty((m, m), dtype=object)
        for i in range(m):
            for j in range(m):
                V[i, j] = R[i, j] if i < len(piv) else lift(0)
        U = mkarr((n, n), [Opaque('svd U') for _ in range(n * n)])
        return U, s, mk(V)
    unsupported('svd of a symbolic matrix')


def _householder(v, nr):
    """orthogonal matrix with first column v/nr (|v| = nr > 0)"""
    n = len(v)
    # Q = -(I - 2 w w'/w'w) with sign chosen so that no cancellation:
    # w = v + sgn nr e1 ; (I - 2ww'/w'w) v = -sgn nr e1
    sg = lift(1) if bool(v[0] >= 0) else lift(-1)
    w = list(v)
    w[0] = w[0] + sg * nr
    ww = (nr * nr + sg * nr * v[0]) * 2
    Q = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            e = lift(1 if i == j else 0) - (w[i] * w[j] * 2) / ww
            Q[i, j] = e if j else -sg * e
    return mk(Q)


def qr(a, overwrite_a=False, lwork=None, mode='full', pivoting=False,
       check_finite=True):
    if conc(a):
        return real_call(sla.qr, a, mode=mode, pivoting=pivoting)
    A = A2(a)
    n, m = A.shape
    f = S.PATH.hooks.get('qr')
    if f is not None:
        r = f(mk(A), mode, pivoting)
        if r is not None:
            used('registered')
            return r
    used('qr')
    if m == 0:
        return (wrap(np.eye(n)), mk(A.copy())) + (
            (np.zeros(0, int),) if pivoting else ())
    perm = list(range(m))
    R = np.array(A, dtype=object, copy=True)
    Q = np.asarray(wrap(np.eye(n)))
    steps = min(n - 1, m)
    if steps > 2 and not _triangular(A) == 'U':
        unsupported('qr of a symbolic matrix')
    for c in range(min(n, m)):
        if pivoting and c < m - 1:
            # pivot on the column of largest norm
            best = c
            for j in range(c + 1, m):
                nj = sum((x * x for x in R[c:, j]), lift(0))
                nb = sum((x * x for x in R[c:, best]), lift(0))
                if bool(nj > nb):
                    best = j
            if best != c:
                R[:, [c, best]] = R[:, [best, c]]
                perm[c], perm[best] = perm[best], perm[c]
        v = R[c:, c]
        if c == n - 1 or all(_zero(x) for x in v[1:]):
            continue
        nr = norm(mk(v.copy()))
        if bool(nr == 0):
            continue
        H = np.asarray(_householder(v, nr))     # first col v/nr: H' v = nr e1
        Rn = np.asarray(s_matmul(H.T, R[c:, :]))
        R[c:, :] = Rn
        R[c + 1:, c] = lift(0)
        R[c, c] = nr
        Q[:, c:] = np.asarray(s_matmul(Q[:, c:], H))
    out = ()
    if mode == 'r':
        out = (mk(R),)
    elif mode == 'economic':
        k = min(n, m)
        out = (mk(Q[:, :k].copy()), mk(R[:k].copy()))
    else:
        out = (mk(Q), mk(R))
    if pivoting:
        out = out + (np.array(perm),)
    return out if len(out) > 1 else out[0]


# ----------------------------------------------------------------- eigenvalues
def charpoly(A):
    """coefficients of det(sI - A), Faddeev-LeVerrier"""
    A = A2(A)
    n = A.shape[0]
    c = [lift(1)]
    M = np.asarray(wrap(np.zeros((n, n))))
    I = np.asarray(wrap(np.eye(n)))
    for k in range(1, n + 1):
        M = np.asarray(s_matmul(A, M)) + c[-1] * I if k > 1 else I
        AM = np.asarray(s_matmul(A, M))
        t = lift(0)
        for i in range(n):
            t = t + AM[i, i]
        c.append(-t / k)
    return mkarr((n + 1,), c)


def _blocks(A):
    """diagonal blocks of a block triangular matrix (by structural zeros)"""
    n = A.shape[0]
    import itertools
    adj = [[not _zero(A[i, j]) for j in range(n)] for i in range(n)]
    reach = [[adj[i][j] or i == j for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if reach[i][k]:
                for j in range(n):
                    if reach[k][j]:
                        reach[i][j] = True
    seen = set()
    out = []
    for i in range(n):
        if i in seen:
            continue
        comp = [j for j in range(n) if reach[i][j] and reach[j][i]]
        seen.update(comp)
        out.append(comp)
    return out


def quad_roots(b, c):
    """roots of s^2 + b s + c"""
    disc = b * b - c * 4
    if bool(disc >= 0):
        r = disc.sqrt()
        return [(-b + r) / 2, (-b - r) / 2]
    r = (-disc).sqrt()
    return [SymComplex(-b / 2, r / 2), SymComplex(-b / 2, -r / 2)]


def poly_roots(coef, tag='root'):
    """roots of a monic polynomial given by its coefficient list"""
    n = len(coef) - 1
    if n == 0:
        return []
    if n == 1:
        return [-coef[1]]
    k = 0
    while k < n and _zero(coef[n - k]):
        k += 1
    if k:
        return poly_roots(coef[:n - k + 1], tag) + [lift(0)] * k
    if all(isinstance(c, SymReal) and c.is_const() for c in coef):
        f = np.roots([float(c) for c in coef])
        return [lift(complex(z)) if z.imag else lift(float(z.real)) for z in f]
    mode = S.PATH.opts.get('eig', 'opaque')
    if mode == 'opaque':
        used('eig-opaque')
        return [Opaque('eigenvalue') for _ in range(n)]
    if n == 2 and mode == 'exact':
        used('eig-exact')
        return quad_roots(coef[1], coef[2])
    if mode == 'split':
        used('eig-split')
        return split_roots(coef)
    unsupported('eigenvalues of order %d' % n)


def split_roots(coef):
    """generic roots: universal splitting algebra of the monic polynomial"""
    path = S.PATH
    key = ('split',) + tuple((c.n, frozenset(c.d.items())) for c in coef)
    hit = path.dkeys.get(key)
    if hit is not None:
        return list(hit)
    # all denominators must be units in the base: multiply is not possible, so
    # rational coefficients are handled through fresh base variables
    n = len(coef) - 1
    base = []
    for c in coef[1:]:
        if c.d:
            ev = path._reval(c)
            v, new = path.derive(('alias', path._rkey(c)), 'coef', ev,
                                 path._rvars(c))
            if new:
                i = path._idx(v)
                dp = S._dprod(c.d)
                path.daxioms[i] = [('a', v.n * dp - c.n, '==')]
            base.append(v.n)
        else:
            base.append(c.n)
    roots = []
    q = [P.ONE] + base            # current quotient, coefficients are Poly
    idxs = []

    def rootfn(k):
        def fn(vals, k=k):
            z = np.roots([1.0] + [float(b.eval(vals)) for b in base])
            z = sorted(z, key=lambda t: (round(t.real, 9), t.imag))
            return complex(z[k])
        return fn
    for k in range(n):
        deg = len(q) - 1
        i = path._new('root')
        path.derived[i] = (rootfn(k), sorted(set().union(*[set(b.vars()) for b in base])
                                             if base else set()))
        path.daxioms[i] = []
        path.space.cplx.add(i)
        idxs.append(i)
        v = path.space.var(i)
        if deg == 1:
            # linear: the last root is determined
            path.space.set_rule(i, 1, -q[1])
            roots.append(SymReal(-q[1]))
            break
        rhs = P.ZERO
        for j in range(1, deg + 1):
            rhs = rhs - q[j] * (v ** (deg - j))
        path.space.set_rule(i, deg, rhs)
        roots.append(SymReal(v))
        # synthetic division of q by (s - v)
        nq = [q[0]]
        for j in range(1, deg):
            nq.append(q[j] + nq[-1] * v)
        q = nq
    path.dkeys[key] = tuple(roots)
    return roots


def eigvals(a, b=None, *args, **kw):
    if b is not None:
        if conc(a, b):
            return real_call(sla.eigvals, a, b)
        unsupported('generalised eigenvalues')
    if conc(a):
        A = nat(asany(a))
        return wrap(sla.eigvals(A) if A.size else _eig_empty(A))
    A = A2(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('expected square matrix')
    out = []
    f = S.PATH.hooks.get('eigvals')
    if f is not None:
        r = f(mk(A))
        if r is not None:
            used('registered')
            return r
    if S.PATH.opts.get('eig', 'opaque') == 'opaque':
        used('eig-opaque')
        n = A.shape[0]
        return mkarr((n,), [Opaque('eigenvalue') for _ in range(n)])
    for comp in _blocks(A):
        sub = A[np.ix_(comp, comp)]
        out += poly_roots(list(charpoly(sub)))
    return mkarr((len(out),), out)


def _eig_empty(A):
    return sla.eigvals(A)


def eig(a, *args, **kw):
    if conc(a):
        return real_call(sla.eig, a, *args, **kw)
    f = S.PATH.hooks.get('eig')
    if f is not None:
        used('registered')
        return f(asany(a), *args, **kw)
    unsupported('eig (vectors)')


def roots(p):
    p = asany(p)
    if conc(p):
        return real_call(np.roots, p)
    f = S.PATH.hooks.get('roots')
    if f is not None:
        q = f(mk(np.asarray(raw(p))))
        if q is not None:
            used('registered')
            return q
    p = list(np.asarray(raw(p)))
    while p and bool(p[0] == 0):
        p = p[1:]
    tail = 0
    while p and bool(p[-1] == 0):
        p = p[:-1]
        tail += 1
    if not p:
        return mkarr((0,), [])
    r = poly_roots([x / p[0] for x in p]) + [lift(0)] * tail
    return mkarr((len(r),), r)


# ------------------------------------------------------------------- others
def block_diag(*arrs):
    if not arrs:
        arrs = ([],)
    arrs = [A2(a) if not isinstance(a, np.ndarray) or a.dtype == object
            else a for a in arrs]
    arrs = [np.atleast_2d(np.asarray(a)) for a in arrs]
    if not any(a.dtype == object for a in arrs):
        return wrap(sla.block_diag(*arrs))
    bad = [k for k, a in enumerate(arrs) if a.ndim > 2]
    if bad:
        raise ValueError('arguments in the following positions have dimension '
                         'greater than 2: %s' % bad)
    r = sum(a.shape[0] for a in arrs)
    c = sum(a.shape[1] for a in arrs)
    out = np.empty((r, c), dtype=object)
    out.fill(lift(0))
    i = j = 0
    for a in arrs:
        x, y = a.shape
        out[i:i + x, j:j + y] = np.asarray(raw(a))
        i += x
        j += y
    return mk(out)


def matrix_balance(A, permute=True, scale=True, separate=False, overwrite_a=False):
    if conc(A) and not S.PATH.opts.get('balance_free'):
        return real_call(sla.matrix_balance, A, permute=permute, scale=scale,
                         separate=separate)
    a = asany(A)
    n = a.shape[0]
    f = S.PATH.hooks.get('balance')
    if f is not None:
        r = f(mk(np.asarray(a)))
        if r is not None:
            used('registered')
            return (r[0], (np.diag(r[1]), np.arange(n))) if separate else r
    if S.PATH is not None and S.PATH.opts.get('balance_free'):
        used('balance-free')
        t = []
        for i in range(n):
            if i == 0:
                t.append(lift(1))
                continue
            v = S.PATH.input('balance_scale_%d_%d' % (S.PATH.bal, i), lo=Fraction(1, 8), hi=8)
            t.append(v)
        S.PATH.bal += 1
        out = np.empty((n, n), dtype=object)
        ar = np.asarray(a)
        for i in range(n):
            for j in range(n):
                out[i, j] = ar[i, j] * t[j] / t[i] if i != j else ar[i, j]
        if separate:
            return mk(out), (mkarr((n,), t), np.arange(n))
        return mk(out), mk(np.diag(np.array(t, dtype=object)) + lift(0)) if n else mk(out)
    used('balance')
    if separate:
        return mk(np.array(a, dtype=object)), (wrap(np.ones(n)), np.arange(n))
    return mk(np.array(a, dtype=object)), wrap(np.eye(n))


def hessenberg(a, calc_q=False, **kw):
    if conc(a):
        return real_call(sla.hessenberg, a, calc_q=calc_q)
    A = A2(a)
    n = A.shape[0]
    f = S.PATH.hooks.get('hessenberg')
    if f is not None:
        used('registered')
        return f(mk(A), calc_q)
    if n <= 2:
        used('hess')
        return (mk(A.copy()), wrap(np.eye(n))) if calc_q else mk(A.copy())
    if n == 3:
        used('hess')
        v = A[1:, 0]
        if _zero(v[1]):
            Q = wrap(np.eye(3))
            H = A.copy()
        else:
            nr = norm(mk(v.copy()))
            Hh = np.asarray(_householder(v, nr))
            Q = np.asarray(wrap(np.eye(3)))
            Q[1:, 1:] = Hh
            H = np.asarray(s_matmul(s_matmul(Q.T, A), Q))
            H = H.copy()
            H[2, 0] = lift(0)
            Q = mk(Q)
        return (mk(H), Q) if calc_q else mk(H)
    unsupported('hessenberg of order > 3')


def expm(a, **kw):
    if conc(a):
        return real_call(sla.expm, a)
    f = S.PATH.hooks.get('expm')
    if f is not None:
        used('registered')
        return f(asany(a))
    K = S.PATH.opts.get('series')
    if K:
        used('expm-series')
        A = asany(a)
        n = A.shape[0]
        acc = wrap(np.eye(n))
        term = acc
        for k in range(1, K + 1):
            term = s_matmul(term, A) * Fraction(1, k)
            acc = acc + term
        return acc
    A = A2(a)
    if A.shape == (1, 1):
        return mkarr((1, 1), [A[0, 0].exp()])
    unsupported('expm of a symbolic matrix')


def logm(a, **kw):
    if conc(a):
        return real_call(sla.logm, a)
    f = S.PATH.hooks.get('logm')
    if f is not None:
        used('registered')
        return f(asany(a))
    K = S.PATH.opts.get('series')
    if K:
        used('expm-series')
        A = asany(a)
        n = A.shape[0]
        X = A - wrap(np.eye(n))
        acc = wrap(np.zeros((n, n)))
        term = wrap(np.eye(n))
        for k in range(1, K + 1):
            term = s_matmul(term, X)
            acc = acc + term * Fraction((-1) ** (k + 1), k)
        return acc
    unsupported('logm of a symbolic matrix')


def _hooked(name, real):
    def fn(*a, **k):
        if conc(*a, *k.values()):
            return real_call(real, *a, **k)
        f = S.PATH.hooks.get(name)
        if f is not None:
            used('registered')
            return f(*[asany(x) if isinstance(x, (list, tuple, np.ndarray))
                       else x for x in a],
                     **{q: asany(x) if isinstance(x, (list, tuple)) else x
                        for q, x in k.items()})
        unsupported(name + ' of symbolic data')
    fn.__name__ = name
    return fn


qz = _hooked('qz', sla.qz)
schur = _hooked('schur', sla.schur)
care = _hooked('care', sla.solve_continuous_are)
dare = _hooked('dare', sla.solve_discrete_are)
null_space = _hooked('null_space', sla.null_space)
orth = _hooked('orth', sla.orth)
pinv = _hooked('pinv', sla.pinv)


def asarray_validated(a, check_finite=True, sparse_ok=False, objects_ok=False,
                      mask_ok=False, as_inexact=False):
    return asany(a) if not isinstance(a, np.ndarray) else (
        a if isinstance(a, SArr) else s_array(a, dtype=np.float64 if
                                              as_inexact else None))


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **kw):
    if conc(a, b):
        return real_call(sla.solve_triangular, a, b, trans=trans, lower=lower,
                         unit_diagonal=unit_diagonal)
    A = A2(a)
    n = A.shape[0]
    T = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            keep = j <= i if lower else j >= i
            T[i, j] = A[i, j] if keep else lift(0)
            if i == j and unit_diagonal:
                T[i, j] = lift(1)
    if trans in (1, 'T', 2, 'C'):
        T = T.T
    return solve(mk(T), b)
