"""Lyapunov equation solver.

The data are generated from the solution: X is an arbitrary symmetric matrix
and Y the right-hand side it belongs to, which reaches every symmetric Y of a
regular equation."""
from symx.api import *
from symx.tf import fixed_floats, near

HARNESSES = []
FUNCTIONS = ['lyapunov_eq_solver', '_solve_continuous_lyapunov',
             '_solve_discrete_lyapunov',
             '_solve_continuous_generalized_lyapunov',
             '_solve_discrete_generalized_lyapunov']
BOUNDS = {
    'quick': 'full matrices up to order 2; order 3 and 4 through every '
             'pattern of 1x1 and 2x2 diagonal blocks; '
             'fixed matrices of order 5, 6 and 8 with a scaled right hand '
             'side',
    'thorough': 'order 5 with patterns of 1x1 and 2x2 blocks'}
ASSUMPTIONS = ['the equation has a unique solution',
               'schur and qz return the factors the data were built from, in '
               'one orthogonal basis per order']


def sym(x, name, n):
    v = {(i, j): x.real('%s%d%d' % (name, i, j))
         for i in range(n) for j in range(i, n)}
    return x.mat([[v[min(i, j), max(i, j)] for j in range(n)] for i in range(n)])


def lhs(kind, A, X, E):
    if kind == 'c':
        return A.T @ X + X @ A
    if kind == 'd':
        return A.T @ X @ A - X
    if kind == 'gc':
        return A.T @ X @ E + E.T @ X @ A
    return A.T @ X @ A - E.T @ X @ E


def run(x, kind, A, E, Y):
    g = {} if kind in 'cd' else {'E': E}
    form = x.choice('form', {'c': ['c', 'continuous'],
                             'd': ['d', 'discrete']}[kind[-1]])
    old = [m * 1 for m in (A, Y) + ((E,) if g else ())]
    X = x.H.lyapunov_eq_solver(A, Y, form=form, **g)
    x.same(tuple(X.shape), tuple(A.shape), 'shape')
    for a, b in zip((A, Y) + ((E,) if g else ()), old):
        x.eq(a, b, 'arguments unchanged')
    return X


def regular(x, M):
    """operator matrix of the equation is invertible"""
    d = x.np.linalg.det(M)
    x.assume(d != 0 if x.sym else abs(d) > 1e-6)


KINDS = ['c', 'd', 'gc', 'gd']


@harness(HARNESSES)
def scalar(x):
    kind = x.choice('kind', KINDS)
    a, e, y = x.real('a'), x.real('e'), x.real('y')
    den = {'c': 2 * a, 'd': a * a - 1, 'gc': 2 * a * e, 'gd': a * a - e * e}[kind]
    x.assume(den != 0 if x.sym else abs(den) > 1e-6)
    plain = x.flag('scalars')
    w = (lambda v: v) if plain else (lambda v: x.mat([[v]]))
    g = {} if kind in 'cd' else {'E': w(e)}
    X = x.H.lyapunov_eq_solver(w(a), w(y), form=kind[-1], **g)
    x.eq(X[0, 0] * den, -y, 'equation')


@harness(HARNESSES)
def second_order(x):
    kind = x.choice('kind', KINDS)
    A, E, X = x.array('a', (2, 2)), x.array('e', (2, 2)), sym(x, 'x', 2)
    a, b, c, d = A[0, 0], A[0, 1], A[1, 0], A[1, 1]
    cols = [lhs(kind, A, x.mat(m), E) for m in
            ([[1, 0], [0, 0]], [[0, 1], [1, 0]], [[0, 0], [0, 1]])]
    regular(x, x.mat([[C[0, 0], C[0, 1], C[1, 1]] for C in cols]))
    Y = -lhs(kind, A, X, E)
    R = run(x, kind, A, E, Y)
    x.eq(R, X, 'solution')


def orthogonal(x, n, shift=0):
    """a rational orthogonal matrix"""
    Q = x.np.eye(n) * x.const(1)
    for k in range(n - 1):
        c, s = [(3, 4, 5), (5, -12, 13), (8, 15, 17), (-7, 24, 25)][k + shift][:2]
        h = [5, 13, 17, 25][k + shift]
        G = [[x.const(1 if i == j else 0) for j in range(n)] for i in range(n)]
        G[k][k] = G[k + 1][k + 1] = x.const(Fraction(c, h))
        G[k][k + 1], G[k + 1][k] = x.const(Fraction(-s, h)), x.const(Fraction(s, h))
        Q = Q @ x.mat(G)
    return Q


def quasi(x, name, blocks, upper=False):
    n = sum(blocks)
    M = [[x.const(0)] * n for _ in range(n)]
    at = []
    for k, b in enumerate(blocks):
        at += [k] * b
    for i in range(n):
        for j in range(n):
            nm = '%s%d%d' % (name, i, j)
            if at[i] == at[j] and blocks[at[i]] == 2:
                # complex eigenvalues: off-diagonal entries of opposite sign
                if i != j:
                    M[i][j] = x.const(0) if upper else x.pos(nm) * (1 if i < j else -1)
                else:
                    M[i][j] = x.pos(nm) if upper else x.real(nm)
            elif i <= j:
                M[i][j] = x.real(nm)
    return x.mat(M)


def blockwise(x, blocks):
    kind = x.choice('kind', KINDS)
    n = sum(blocks)
    As = quasi(x, 'a', blocks)
    Xs = sym(x, 'x', n)
    Q = orthogonal(x, n)
    if kind in 'cd':
        Z, Es, E = Q, None, None
    else:
        Z = orthogonal(x, n, 4 - n + 1) if n < 4 else Q.T
        Es = quasi(x, 'e', blocks, upper=True)
        E = Q @ Es @ Z.T
    starts = [sum(blocks[:k]) for k in range(len(blocks) + 1)]
    for k, b in zip(starts, blocks):
        if b == 2:
            e, h = (1, 1) if Es is None else (Es[k, k], Es[k + 1, k + 1])
            x.assume((As[k, k] * h - As[k + 1, k + 1] * e) ** 2
                     < -4 * As[k, k + 1] * As[k + 1, k] * e * h)
    A = Q @ As @ Z.T
    Y = -(Z @ lhs(kind, As, Xs, Es) @ Z.T)
    cands = []
    for i in range(len(blocks)):
        for j in range(len(blocks)):
            B = Xs[starts[i]:starts[i + 1], starts[j]:starts[j + 1]]
            if B.shape == (2, 2):
                if i == j:
                    cands.append(x.mat([[B[0, 0]], [B[0, 1]], [B[1, 1]]]))
                else:
                    cands.append(x.mat([[v] for v in list(B[0]) + list(B[1])]))
            elif B.shape != (1, 1):
                cands.append(B)

    def solve(M, R):
        for c in cands:
            if c.shape == R.shape and c.shape[0] == M.shape[0]:
                D = M @ c - R
                if all(v.is_const() and not v.n.t for v in D.ravel()):
                    return c
        # not an equation the true solution satisfies: an unknown value, the
        # result is judged by the real run
        return x.array('wrong%d' % M.shape[0], R.shape)
    x.hook('solve', solve)
    x.hook('schur', lambda a, output='real', *r, **k: (As, Q))
    x.hook('qz', lambda a, b, output='real', *r, **k: (As, Es, Q, Z))
    if x.sym:
        R = run(x, kind, A, E, Y)
        x.eq(R, Q @ Xs @ Q.T, 'solution')
    else:
        # unique solution, not too ill conditioned
        I = np.eye(n)
        K = {'c': lambda: np.kron(I, A.T) + np.kron(A.T, I),
             'd': lambda: np.kron(A.T, A.T) - np.eye(n * n),
             'gc': lambda: np.kron(E.T, A.T) + np.kron(A.T, E.T),
             'gd': lambda: np.kron(A.T, A.T) - np.kron(E.T, E.T)}[kind]()
        x.assume(np.linalg.cond(K) < 1e8)
        R = run(x, kind, A, E, Y)
        x.eq(R, Q @ Xs @ Q.T, 'solution')


@harness(HARNESSES)
def third_order(x):
    blockwise(x, x.choice('blocks', [(1, 1, 1), (1, 2), (2, 1)]))


@harness(HARNESSES)
def fourth_order(x):
    blockwise(x, x.choice('blocks', [(2, 2), (1, 2, 1), (2, 1, 1), (1, 1, 2),
                                     (1, 1, 1, 1)]))


@harness(HARNESSES)
def fifth_order(x):
    blockwise(x, x.choice('blocks', x.q([(2, 1, 2)], [
        (2, 1, 2), (2, 2, 1), (1, 2, 2), (1, 2, 1, 1), (1, 1, 1, 2)])))


@harness(HARNESSES)
def integers(x):
    """integer right-hand sides are not truncated"""
    kind = x.choice('kind', KINDS)
    A, E = x.mat([[-4, 1, 0], [0, -2, 1], [0, 0, -3]]), x.np.eye(3) * x.const(1)
    Y = x.intarray('y', (3, 3), -3, 3)
    for i in range(3):
        for j in range(i):
            Y[i, j] = Y[j, i]
    x.hook('schur', lambda a, *r, **k: (A, E))
    x.hook('qz', lambda a, b, *r, **k: (A, E, E, E))
    X = run(x, kind, A, E, Y)
    x.eq(lhs(kind, A, X, E) + Y, x.np.zeros((3, 3)), 'equation')


@harness(HARNESSES)
def rejected(x):
    v = x.real('v')
    I, J, L = x.np.eye(2) * v, x.np.eye(3) * v, x.array('l', (1, 2))
    for args in ((L, I), (I, L), (I, J), (J, I), (I, I, L), (I, I, J)):
        for f in ('c', 'd'):
            x.raises(ValueError, lambda: x.H.lyapunov_eq_solver(*args, form=f), 'shape')
    for f in ('a', '', 'C', None):
        x.raises(ValueError, lambda: x.H.lyapunov_eq_solver(I, I, form=f), 'form')


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed matrices of order 5, 6 and 8, right hand side scaled symbolically"""
    form = x.choice('form', ['c', 'd'])
    n = x.choice('n', [5, 6, 8])
    gen = x.flag('generalised')
    A, Y, _, _ = fixed_floats(n, n, n, 1 if form == 'd' else None)
    Y = Y + Y.T
    E = np.round(np.eye(n) + .1 * np.triu(Y, 1), 3) if gen else None
    k = x.pos('k', Fraction(1, 4), 4)
    X = x.H.lyapunov_eq_solver(A, Y * k, E, form)
    Ef = np.eye(n) if E is None else E
    x.same(tuple(X.shape), (n, n), 'shape')
    R = A.T @ X @ Ef + Ef.T @ X @ A if form == 'c' else A.T @ X @ A - Ef.T @ X @ Ef
    near(x, R, -Y, k, 1e-4, 'equation')
