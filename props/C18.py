"""Kalman matrices, rank tests, decomposition and controllability indices."""
from itertools import combinations
from symx.api import *
from symx.tf import det, hidden_modes, near
from symx.linalg import _zero
from props.C16 import orthogonal

HARNESSES = []
FUNCTIONS = ['controllability_matrix', 'observability_matrix',
             'is_kalman_controllable', 'is_kalman_observable',
             'kalman_decomposition', 'controllability_indices']
BOUNDS = {
    'quick': 'matrices up to order 4 with up to 2 inputs/outputs; rank tests '
             'up to order 3; decomposition up to order 4 with every dimension '
             'of the reachable and observable subspaces, in one orthogonal '
             'basis; indices of order 2 with up to 2 inputs; '
             'fixed models of order up to 6 with hidden modes',
    'thorough': 'as quick with order 3 rank tests for two inputs'}
ASSUMPTIONS = ['the singular value decomposition returns orthogonal factors, '
               'the leading ones spanning the range and the row space; the '
               'basis the data were built from is used']


def blocks(x, A, B, side):
    """B, AB, ... (or the rows C, CA, ...)"""
    out, M = [], B
    for _ in range(A.shape[0]):
        out.append(M)
        M = A @ M if side == 'c' else M @ A
    return x.np.hstack(out) if side == 'c' else x.np.vstack(out)


def pair(x, n, m, side):
    A = x.array('a', (n, n))
    return A, x.array('b', (n, m) if side == 'c' else (m, n))


def model(x, A, B, side, dt=None, m=1):
    n = A.shape[0]
    if side == 'c':
        C = x.np.ones((m, n)) * x.const(1)
        return x.H.State(A, B, C, dt=dt)
    return x.H.State(A, x.np.ones((n, m)) * x.const(1), B, dt=dt)


def funcs(x, side):
    return ((x.H.controllability_matrix, x.H.is_kalman_controllable)
            if side == 'c' else
            (x.H.observability_matrix, x.H.is_kalman_observable))


@harness(HARNESSES, svd='echelon')
def matrix_blocks(x):
    side = x.choice('side', 'co')
    n, m = x.choice('size', [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1)])
    A, B = pair(x, n, m, side)
    k = n * m
    x.hook('svd', lambda M, full: (x.np.eye(M.shape[0]) * x.const(1),
                                   x.vec([x.const(1)] * min(M.shape)),
                                   x.np.eye(M.shape[1]) * x.const(1)))
    arg = (A, B) if x.flag('tuple') else model(x, A, B, side)
    M, T, r = funcs(x, side)[0](arg)
    x.eq(M, blocks(x, A, B, side), 'blocks')
    x.same(tuple(T.shape), (n, n), 'transformation size')


def known(x, M0, Q, r, s, side):
    """svd in the basis the data were built from"""
    n = Q.shape[0]

    def svd(M, full):
        if tuple(M.shape) != tuple(M0.shape) or not all(
                _zero(a - b) for a, b in zip(M.reshape(-1), M0.reshape(-1))):
            return None
        k = min(M.shape)
        sv = x.vec([s[i] if i < r else x.const(0) for i in range(k)])
        # rows of the other factor on the range: unknown unit vectors
        if side == 'c':
            V = x.np.zeros((M.shape[1],) * 2) * x.const(1)
            V[:r, :] = x.mat([[(Q.T @ M)[i, j] / s[i] for j in range(M.shape[1])]
                              for i in range(r)])
            return Q, sv, V
        U = x.np.zeros((M.shape[0],) * 2) * x.const(1)
        U[:, :r] = x.mat([[(M @ Q)[i, j] / s[j] for j in range(r)]
                          for i in range(M.shape[0])])
        return U, sv, Q.T
    x.hook('svd', svd)


def reachable(x, n, r, m, side, name=''):
    """pair with reachable (observable) dimension r, in a rotated basis"""
    Q = orthogonal(x, n)
    A = x.array('a' + name, (n, n))
    for i in range(r, n):
        for j in range(r):
            A[i, j] = x.const(0)
    B = x.array('b' + name, (n, m))
    B[r:, :] = x.const(0)
    K = blocks(x, A, B, 'c')[:r, :]
    if r:
        # full rank of the leading part
        P = K[:, :r * m]
        if m == 1:
            d = det(x, P)
        else:
            d = det(x, P @ P.T)
        x.assume(d != 0 if x.sym else abs(d) > 1e-3)
    A, B = Q @ A @ Q.T, Q @ B
    return (A, B, Q) if side == 'c' else (A.T, B.T, Q)


@harness(HARNESSES)
def compressed(x):
    """the compressed matrix and the transformation belong together"""
    side = x.choice('side', 'co')
    n, r, m = x.choice('size', [(2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 1, 1),
                                (3, 2, 1)])
    A, B, Q = reachable(x, n, r, m, side)
    K = blocks(x, A, B, side)
    s = [x.pos('s%d' % i) for i in range(r)]
    known(x, K, Q, r, s, side)
    f = funcs(x, side)[0]
    M, T, k = f((A, B), compress=True)
    x.same(int(k), r, 'rank')
    x.eq(T.T @ T, x.np.eye(n) * x.const(1), 'orthogonal')
    Kc, Tc, kc = f((A, B))
    x.eq(Kc, K, 'full matrix')
    x.same(int(kc), r, 'rank')
    x.eq(Tc - T, T * 0, 'same transformation')
    x.same(tuple(M.shape), tuple(K.shape), 'shape')
    if side == 'c':
        x.eq(T @ M, K, 'compression')
        if r < n:
            x.eq(M[r:, :], M[r:, :] * 0, 'zero rows')
            x.eq((Tc.T @ K)[r:, :], M[r:, :] * 0, 'zero rows')
    else:
        x.eq(M @ T.T, K, 'compression')
        if r < n:
            x.eq(M[:, r:], M[:, r:] * 0, 'zero columns')
            x.eq((K @ Tc)[:, r:], M[:, r:] * 0, 'zero columns')


def full_rank(x, K, side):
    n = K.shape[0] if side == 'c' else K.shape[1]
    M = K if side == 'c' else K.T
    for cols in combinations(range(M.shape[1]), n):
        d = det(x, M[:, list(cols)])
        if x.sym:
            if x.branch(d != 0):
                return True
        elif abs(d) > 1e-9:
            return True
    return False


@harness(HARNESSES, svd='echelon')
def rank_tests(x):
    side = x.choice('side', 'co')
    n, m = x.choice('size', x.q([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)],
                                [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2)]))
    if n == 3:
        # in the basis of one input direction
        A = x.array('a', (n, n))
        B = x.mat([[x.const(1 if (i, j) == (0, 0) else 0) for j in range(m)]
                   for i in range(n)])
        if m == 2:
            B[:, 1] = x.array('b', (n,))
        if side == 'o':
            B = B.T
    else:
        A, B = pair(x, n, m, side)
    want = full_rank(x, blocks(x, A, B, side), side)
    arg = (A, B) if x.flag('tuple') else model(x, A, B, side)
    x.same(bool(funcs(x, side)[1](arg)), want, 'rank test')


def decomposed(x, n, r, o, u, m=1, p=1):
    """model with reachable dimension r of which o dimensions are observable;
    u: observable dimension of the unreachable block taken by itself"""
    Q = orthogonal(x, n)
    P = orthogonal(x, r, 1) if r > 1 else x.np.eye(r) * x.const(1)
    W = orthogonal(x, n - r, 2) if n - r > 1 else x.np.eye(max(n - r, 0)) * x.const(1)
    zero = x.const(0)
    a = x.array('a', (n, n))
    for i in range(n):
        for j in range(n):
            if i >= r > j or i < o <= j < r or r <= i < r + u <= j:
                a[i, j] = zero
    b, c, d = x.array('b', (n, m)), x.array('c', (p, n)), x.array('d', (p, m))
    b[r:, :] = zero
    c[:, o:r] = zero
    c[:, r + u:] = zero

    def full(M, k):
        if k:
            v = det(x, M @ M.T) if M.shape[1] > k else det(x, M)
            x.assume(v != 0 if x.sym else abs(v) > 1e-3)
    # exact dimensions
    full(blocks(x, a[:r, :r], b[:r, :], 'c')[:, :r * m], r)
    full(blocks(x, a[:o, :o], c[:, :o], 'o')[:o * p, :].T, o) if o else None
    if u:
        full(blocks(x, a[r:r + u, r:r + u], c[:, r:r + u], 'o')[:u * p, :].T, u)
    R = x.np.zeros((n, n)) * x.const(1)
    R[:r, :r] = P
    if r < n:
        R[r:, r:] = W
    # a is given in the final coordinates
    A1, B1, C1 = R @ a @ R.T, R @ b, c @ R.T
    A, B, C = Q @ A1 @ Q.T, Q @ B1, C1 @ Q.T
    know = [('l', Q, r)] if r < n else []
    if r == n:
        know += [('r', Q @ P, o)]
    else:
        know += [('r', P, o), ('r', W, u)]

    def svd(M, full):
        for side, T, k in know:
            if side == 'l' and M.shape[0] == T.shape[0]:
                Z = (T.T @ M)[k:, :]
            elif side == 'r' and M.shape[1] == T.shape[0]:
                Z = (M @ T)[:, k:]
            else:
                continue
            if not all(_zero(z) for z in np.asarray(Z).reshape(-1)):
                continue
            s = x.vec([x.const(1 if i < k else 0) for i in range(min(M.shape))])
            I = [x.np.eye(q) * x.const(1) for q in M.shape]
            return (T, s, I[1]) if side == 'l' else (I[0], s, T.T)
        k = min(M.shape)
        return (x.np.eye(M.shape[0]) * x.const(1), x.vec([x.const(1)] * k),
                x.np.eye(M.shape[1]) * x.const(1))
    x.hook('svd', svd)
    return A, B, C, d


CASES = [(1, 1, 1, 0), (1, 1, 0, 0), (2, 2, 2, 0), (2, 2, 1, 0), (2, 2, 0, 0),
         (2, 1, 1, 1), (2, 1, 1, 0), (2, 1, 0, 1), (2, 1, 0, 0),
         (3, 3, 3, 0), (3, 3, 2, 0), (3, 3, 1, 0), (3, 2, 2, 1), (3, 2, 2, 0),
         (3, 2, 1, 1), (3, 2, 1, 0), (3, 1, 1, 1), (3, 1, 1, 0), (3, 1, 0, 2),
         (4, 2, 1, 1)]


@harness(HARNESSES)
def decomposition(x):
    n, r, o, u = x.choice('case', CASES)
    m, p = x.choice('shape', [(1, 1)] if n > 2 else [(1, 1), (2, 1), (1, 2)])
    A, B, C, D = decomposed(x, n, r, o, u, m, p)
    dt = x.choice('dt', [None, 0.25]) if n == 2 else None
    G = x.H.State(A, B, C, D, dt)
    how = x.choice('output', ['system', 'matrices'])
    # thresholding of tiny entries switched off in half of the cases
    F, T = x.H.kalman_decomposition(G, compute_T=True, output=how,
                                    cleanup_threshold=0)
    if how == 'system':
        x.same(F.SamplingPeriod, dt, 'sampling period')
        a, b, c, d = F.a, F.b, F.c, F.d
    else:
        a, b, c, d = F
    x.eq(T @ a @ T.T, A, 'similar')
    x.eq(T @ b, B, 'input')
    x.eq(c @ T.T, C, 'output')
    x.eq(d, D, 'feedthrough')
    x.eq(T.T @ T, x.np.eye(n) * x.const(1), 'orthogonal')

    def zero(M, what):
        if M.size:
            x.eq(M, M * 0, what)
    zero(b[r:, :], 'unreachable input rows')
    zero(a[r:, :r], 'unreachable block')
    zero(c[:, o:r], 'unobservable output columns')
    zero(a[:o, o:r], 'unobservable block')
    zero(c[:, r + u:], 'unobservable output columns of the unreachable part')
    zero(a[r:r + u, r + u:], 'unobservable block of the unreachable part')
    F = x.H.kalman_decomposition(G, output=how, cleanup_threshold=0)
    if how == 'system':
        x.same(F.SamplingPeriod, dt, 'sampling period')
        F = F.a, F.b, F.c, F.d
    for y, z in zip(F, (a, b, c, d)):
        x.eq(y - z, z * 0, 'same result without the transformation')


@harness(HARNESSES)
def cleanup(x):
    """only entries below the threshold are removed"""
    a, b, c = x.array('a', (2, 2)), x.array('b', (2, 1)), x.array('c', (1, 2))
    t = x.pos('t', lo=Fraction(1, 100), hi=Fraction(1, 2))
    for K in (blocks(x, a, b, 'c'), blocks(x, a, c, 'o')):
        x.assume(det(x, K) != 0 if x.sym else abs(det(x, K)) > 1e-3)
    x.hook('svd', lambda M, full: (x.np.eye(2) * x.const(1), x.vec([x.const(1)] * 2),
                                   x.np.eye(2) * x.const(1)))
    k, l = x.choice('entry', [(0, 0), (0, 1), (1, 0), (1, 1)])
    for M in (a, b, c):
        for i in range(M.shape[0]):
            for j in range(M.shape[1]):
                if M is not a or (i, j) != (k, l):
                    x.assume(abs(M[i, j]) > Fraction(6, 10))
    F = x.H.kalman_decomposition(x.H.State(a * 1, b, c), cleanup_threshold=t)
    if x.branch(abs(a[k, l]) >= t):
        x.eq(F.a, a, 'large entries kept')
    else:
        x.eq(F.a[k, l], x.const(0), 'small entry removed')


@harness(HARNESSES)
def trivial_cases(x):
    d = x.array('d', (2, 2))
    dt = x.choice('dt', [None, 0.25])
    G = x.H.State(d, dt=dt)
    F = x.H.kalman_decomposition(G)
    x.eq(F.d, d, 'gain')
    x.same(F.SamplingPeriod, dt, 'sampling period')
    a, c = x.array('a', (2, 2)), x.array('c', (1, 2))
    x.hook('svd', lambda M, full: (x.np.eye(2) * x.const(1), x.vec([x.const(0)] * 2),
                                   x.np.eye(M.shape[1]) * x.const(1)))
    x.raises(ValueError, lambda: x.H.kalman_decomposition(
        x.H.State(a, x.np.zeros((2, 1)), c)), 'no input')


@harness(HARNESSES)
def indices(x):
    n, m = x.choice('size', [(1, 1), (2, 1), (1, 2), (2, 2)])
    if m == 1:
        A, B = x.array('a', (n, n)), x.array('b', (n, m))
        for v in B.reshape(-1):
            x.assume(abs(v) >= Fraction(1, 8))
    else:
        A, B = x.array('a', (n, n)), x.array('b', (n, m))
    K = blocks(x, A, B, 'c')
    # dependence is decided exactly, apart from a margin for the tolerance
    ranks = []
    for k in range(1, n + 1):
        M = K[:, :k * m]
        if n == 1:
            for v in M.reshape(-1):
                x.assume((v == 0) | (abs(v) > Fraction(1, 100)) if x.sym else
                         v == 0 or abs(v) > 0.01)
            ranks.append(int(any(x.branch(v != 0) for v in M.reshape(-1))))
            continue
        r = 0
        if any(x.branch(v != 0) for v in M.reshape(-1)):
            r = 1
            for cols in combinations(range(M.shape[1]), 2):
                dd = det(x, M[:, list(cols)])
                if x.branch(dd != 0):
                    x.assume(abs(dd) > Fraction(1, 100))
                    r = 2
                    break
        ranks.append(r)
    ind = x.H.controllability_indices(A, B)
    x.same(len(ind), m, 'one index per input')
    got = sorted(int(v) for v in ind)
    inc = [ranks[0]] + [b - a for a, b in zip(ranks, ranks[1:])]
    want = sorted(sum(1 for i in inc if i > j) for j in range(m))
    x.same(got, want, 'indices')


@harness(HARNESSES)
def indices_steps(x):
    """two inputs, two further directions, every pattern of dependence"""
    z = x.const(0)
    mag = lambda name: x.pos(name) * x.choice('sign ' + name, [1, -1])
    first = x.flag('first input reaches on')
    second = x.choice('second input reaches on', ['no', 'same', 'other'])
    third = x.flag('third step')
    p = mag('p') if first else z
    q = mag('q') if second == 'same' else z
    r = mag('r') if second == 'other' else z
    t = mag('t') if third else z
    up = x.array('u', (2, 4))
    other = second == 'other' and not first
    A = x.np.vstack([up, x.mat([[p, q, x.real('v'), t if other else x.real('w')],
                                [z, r, z if other or not third else t, x.real('y')]])])
    if other:
        A[3, 2] = x.real('k')
    elif not third:
        A[3, 2] = z
    B = x.np.zeros((4, 2)) * x.const(1)
    # the larger column is taken first
    B[0, 0], B[1, 1] = x.pos('b0', lo=2, hi=4), x.pos('b1', lo=Fraction(1, 2), hi=1)
    swap = x.flag('swap')
    if swap:
        B = B[:, ::-1]
    n1 = int(first) + int(second == 'other' or second == 'same' and not first)
    want = [1 + (1 if first else 0), 1 + (n1 - (1 if first else 0))]
    if n1 == 1 and third:
        want[0 if first else 1] += 1
    ind = x.H.controllability_indices(A, B)
    got = [int(v) for v in ind]
    x.same(got[::-1] if swap else got, want, 'indices')


@harness(HARNESSES)
def indices_rejected(x):
    v = x.real('v')
    I, L = x.np.eye(2) * v, x.array('l', (3, 1))
    for args in ((x.array('r', (2, 3)), I), (I, L)):
        x.raises(ValueError, lambda: x.H.controllability_indices(*args), 'shape')


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed models of order up to 6 with hidden modes"""
    p, m = x.choice('shape', [(1, 1), (3, 2), (2, 3)])
    unc, uno = x.choice('hidden', [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (2, 1), (1, 2)])
    dt = x.choice('dt', [None, 0.5])
    A, B, C, D, _ = hidden_modes(p, m, unc, uno, dt)
    k = x.real('k', -4, 4)
    G = x.H.State(A, B, C, D * k, dt)
    n = len(A)
    x.same((bool(x.H.is_kalman_controllable(G)), bool(x.H.is_kalman_observable(G))),
           (unc == 0, uno == 0), 'verdict')
    M, _, r = x.H.controllability_matrix(G)
    x.same((tuple(M.shape), int(r)), ((n, n * m), n - unc), 'controllability matrix')
    M, _, r = x.H.observability_matrix(G)
    x.same((tuple(M.shape), int(r)), ((n * p, n), n - uno), 'observability matrix')
    F, T = x.H.kalman_decomposition(G, compute_T=True)
    T = np.array([[float(v) for v in r] for r in T])
    one = x.const(1)
    near(x, F.a, T.T @ A @ T, one, 1e-4, 'state matrix')
    near(x, F.b, T.T @ B, one, 1e-4, 'input matrix')
    near(x, F.c, C @ T, one, 1e-4, 'output matrix')
    x.eq(F.d, D * k, 'feedthrough')
    near(x, x.np.asarray(T.T @ T), np.eye(n), one, 1e-5, 'orthogonal')
    r = n - unc
    near(x, F.b[r:, :], np.zeros((unc, m)), one, 1e-4, 'unreachable input rows')
    near(x, F.a[r:, :r], np.zeros((unc, r)), one, 1e-4, 'unreachable block')
    near(x, F.c[:, r - uno:r], np.zeros((p, uno)), one, 1e-4, 'unobservable output columns')
