"""Reference semantics of linear models, written against the harness context so
that the same text is evaluated symbolically and on floats."""
from fractions import Fraction
import numpy as np


def _det(M, rows, cols, memo):
    n = len(rows)
    if n == 0:
        return 1
    if n == 1:
        return M[rows[0]][cols[0]]
    k = (rows, cols)
    if k in memo:
        return memo[k]
    acc = 0
    for j, c in enumerate(cols):
        e = M[rows[0]][c]
        if type(e) is int and e == 0 or _z(e):
            continue
        t = e * _det(M, rows[1:], cols[:j] + cols[j + 1:], memo)
        acc = acc + t if j % 2 == 0 else acc - t
    memo[k] = acc
    return acc


def _z(e):
    n = getattr(e, 'n', None)
    return n is not None and hasattr(n, 't') and not n.t


def det(x, M):
    n = len(M)
    return _det([list(r) for r in M], tuple(range(n)), tuple(range(n)), {}) + x.const(0)


def adjdet(x, M):
    """adjugate (nested list) and determinant of a square matrix"""
    n = len(M)
    M = [list(r) for r in M]
    memo = {}
    al = tuple(range(n))
    adj = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            m = _det(M, al[:i] + al[i + 1:], al[:j] + al[j + 1:], memo)
            adj[j][i] = (m if (i + j) % 2 == 0 else -m) + x.const(0)
    return adj, _det(M, al, al, memo) + x.const(0)


def resolvent(x, A, s):
    n = A.shape[0]
    M = [[(s - A[i, j]) if i == j else -A[i, j] for j in range(n)]
         for i in range(n)]
    return adjdet(x, M)


def tf_ss(x, A, B, C, D, s):
    """(N, den): C adj(sI-A) B + D det and det(sI-A), N is p x m"""
    p, m = D.shape
    n = A.shape[0] if A is not None and A.ndim == 2 else 0
    if n == 0:
        return D + x.const(0), x.const(1)
    adj, d = resolvent(x, A, s)
    R = x.mat(adj)
    return C @ R @ B + D * d, d


def polyval(x, c, s):
    r = x.const(0)
    for k in c:
        r = r * s + k
    return r


def tf(x, G, s):
    """(N, Den) both p x m arrays with G(s) = N / Den entrywise"""
    p, m = G.NumberOfOutputs, G.NumberOfInputs
    if type(G).__name__ == 'State':
        if G.NumberOfStates == 0:
            return x.np.asarray(G.d) + x.const(0), x.np.ones((p, m))
        N, d = tf_ss(x, G.a, G.b, G.c, G.d, s)
        return N, x.mat([[d] * m for _ in range(p)])
    num, den = G.num, G.den
    if (p, m) == (1, 1) and not isinstance(num, list):
        num, den = [[num]], [[den]]
    N = [[polyval(x, num[i][j].reshape(-1), s) for j in range(m)] for i in range(p)]
    D = [[polyval(x, den[i][j].reshape(-1), s) for j in range(m)] for i in range(p)]
    return x.mat(N), x.mat(D)


# ---- rational matrices as pairs -------------------------------------------
def r_add(a, b):
    return a[0] * b[1] + b[0] * a[1], a[1] * b[1]


def r_neg(a):
    return -a[0], a[1]


def r_bcast(x, a, p, m):
    """broadcast a 1x1 rational to p x m ones"""
    return (x.mat([[a[0][0, 0]] * m for _ in range(p)]),
            x.mat([[a[1][0, 0]] * m for _ in range(p)]))


def r_common(x, a):
    """per-entry rational -> (N, scalar den) using the product of entries, or
    the shared denominator when all are the same object"""
    N, D = a
    p, m = N.shape
    d0 = D[0, 0]
    if all(D[i, j] is d0 for i in range(p) for j in range(m)):
        return N, d0
    same = True
    for i in range(p):
        for j in range(m):
            if _neq(D[i, j], d0):
                same = False
    if same:
        return N, d0
    dens = []
    for i in range(p):
        for j in range(m):
            if not any(not _neq(D[i, j], q) for q in dens):
                dens.append(D[i, j])
    tot = dens[0]
    for q in dens[1:]:
        tot = tot * q
    M = [[None] * m for _ in range(p)]
    for i in range(p):
        for j in range(m):
            t = N[i, j]
            skip = False
            for q in dens:
                if not skip and not _neq(D[i, j], q):
                    skip = True
                    continue
                t = t * q
            M[i][j] = t
    return x.mat(M), tot


def _neq(a, b):
    n1, n2 = getattr(a, 'n', None), getattr(b, 'n', None)
    if n1 is not None and hasattr(n1, 't'):
        return not (n1.t == n2.t and a.d == b.d)
    return not (a == b)


def r_mul(x, a, b):
    """matrix product"""
    N1, d1 = r_common(x, a)
    N2, d2 = r_common(x, b)
    N = N1 @ N2
    d = d1 * d2
    return N, x.mat([[d] * N.shape[1] for _ in range(N.shape[0])])


def r_emul(a, b):
    return a[0] * b[0], a[1] * b[1]


def eq_tf(x, G, ref, s, label):
    """G(s) equals the reference rational matrix"""
    N, D = tf(x, G, s)
    x.same(tuple(N.shape), tuple(ref[0].shape), label + ' shape')
    if N.shape != ref[0].shape:
        return
    x.eq(N * ref[1], ref[0] * D, label)


# ------------------------------------------------------- orthogonal factors
def givens(x, n, i, j, name):
    """rotation in the (i, j) plane by an arbitrary angle"""
    c = x.real(name)
    x.assume(c <= 1)
    x.assume(c >= -1)
    s = (1 - c * c) ** 0.5 if not hasattr(c, 'sqrt') else (1 - c * c).sqrt()
    M = [[x.const(1 if a == b else 0) for b in range(n)] for a in range(n)]
    M[i][i], M[j][j], M[i][j], M[j][i] = c, c, -s, s
    return x.mat(M)


def rotation(x, n, name):
    """product of one rotation per plane: every orthogonal matrix up to column
    signs"""
    Q = x.mat([[x.const(1 if a == b else 0) for b in range(n)] for a in range(n)])
    for i in range(n):
        for j in range(i + 1, n):
            Q = Q @ givens(x, n, i, j, '%s%d%d' % (name, i, j))
    return Q


# ------------------------------------------------------------ larger models
def fixed_matrix(x, shape, seed, free=None):
    """small integers without a pattern; the entry `free` is replaced"""
    p, m = shape
    M = [[x.const((5 * i * i + 3 * j * j + 7 * i * j + 2 * i + seed) % 7 - 3)
          for j in range(m)] for i in range(p)]
    if free is not None:
        M[-1][-1] = free
    return x.mat(M)


def larger_state(x, name, n, p, m, dt=None, d=True):
    """fixed integer data with one free entry in every matrix"""
    t = ord(name[0])
    z = [x.real(name + k) for k in 'abcd']
    D = fixed_matrix(x, (p, m), t + 3, z[3]) if d else x.np.zeros((p, m)) * x.const(1)
    if n == 0:
        return x.H.State(D, dt=dt)
    return x.H.State(fixed_matrix(x, (n, n), t, z[0]), fixed_matrix(x, (n, m), t + 1, z[1]),
                     fixed_matrix(x, (p, n), t + 2, z[2]), D, dt)


def fixed_floats(n, p, m, dt=None, scale=4.):
    """float data of a stable model: distinct well separated poles"""
    f = lambda a, b, t: np.array([[((5 * i * i + 3 * j * j + 7 * i * j + 2 * i + t) % 7 - 3.)
                                   / scale for j in range(b)] for i in range(a)])
    A = np.triu(f(n, n, 1), 1)
    i = 0
    while i < n:
        if i % 3 == 0 and i + 1 < n:
            A[i:i + 2, i:i + 2] = [[-.5 - i / 4, 1.], [-1., -.5 - i / 4]]
            i += 2
        else:
            A[i, i] = -1.25 - i / 2
            i += 1
    Q = np.linalg.qr(np.eye(n) + f(n, n, 4))[0]
    A = Q @ A @ Q.T
    if dt is not None:
        A = np.linalg.solve(np.eye(n) - A / 4, np.eye(n) + A / 4)
    A = np.round(A, 4)
    return A, f(n, m, 2) + np.eye(n, m), f(p, n, 3) + np.eye(p, n), f(p, m, 5)


def near(x, got, want, k, tol, label):
    """got equals the float array want scaled by k up to tol"""
    got = np.asarray(got) if not x.sym else got
    x.same(tuple(got.shape), tuple(np.shape(want)), label + ' shape')
    want = np.asarray(want)
    for u, v in zip(got.reshape(-1), want.reshape(-1)):
        t = k * (tol * (1 + abs(v)))
        parts = [(u.real, v.real), (u.imag, v.imag)] if np.iscomplexobj(want) else [(u, v)]
        for a, b in parts:
            e = a - k * float(b)
            x.true((e <= t) & (-e <= t), label)


def exact(x, M):
    """float matrix as exact rationals"""
    M = np.asarray(M, dtype=float)
    return x.mat([[x.const(Fraction(float(v)) if x.sym else float(v)) for v in r] for r in M])


def hidden_modes(p, m, unc, uno, dt=None):
    """order 3 model extended with uncontrollable and unobservable modes"""
    A, B, C, D = fixed_floats(3, p, m, dt)
    n = 3 + unc + uno
    F = np.zeros((n, n))
    F[:3, :3] = A
    for i in range(3, n):
        F[i, i] = (-.3 - .4 * i) if dt is None else .9 - .25 * (i - 3)
    G, H = np.vstack([B, np.zeros((unc + uno, m))]), np.hstack([C, np.zeros((p, unc + uno))])
    F[:3, 3:3 + unc] = .5               # uncontrollable modes drive the others
    H[:, 3:3 + unc] = 1.
    F[3 + unc:, :3] = .25               # unobservable modes are driven
    G[3 + unc:, :] = 1.
    i = np.arange(n)
    Q = np.linalg.qr(np.eye(n) * 2 + ((3 * i[:, None] + 5 * i * i) % 7 - 3.))[0]
    return Q @ F @ Q.T, Q @ G, H @ Q.T, D, (A, B, C)
