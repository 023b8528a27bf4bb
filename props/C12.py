"""Hold equivalents: zero-order and first-order hold."""
from symx.api import *
from symx.tf import *

HARNESSES = []
FUNCTIONS = ['discretize', '_discretize', 'undiscretize', '_undiscretize']
BOUNDS = {
    'quick': 'orders 1..3, 1..2 inputs; state and input matrices of the form '
             'eps*A, eps*B with every entry symbolic, identities in the power '
             'series ring truncated after eps^6, eps^5, eps^3 for orders 1, 2, '
             '3; sampling periods in [1/4, 2]; arbitrary positive balancing '
             'factors; '
             'fixed models of order 4 and 5 with up to three inputs',
    'thorough': 'truncation after eps^8, eps^6 and eps^4'}
ASSUMPTIONS = ['expm and logm are their power series; identities are decided '
               'coefficient by coefficient up to the truncation order',
               'the poles of a model to be undiscretised are not near zero']
OPT = dict(series=11, balance_free=True, nondet=True)


def order(x, n):
    return x.q({1: 6, 2: 5, 3: 3}, {1: 8, 2: 6, 3: 4})[n]


def series(x, M, K, shift=0):
    """sum_k M^k / (k+shift)!   (K terms symbolically, many numerically)"""
    import math
    n = M.shape[0]
    T = x.np.eye(n) * x.const(1)
    acc = T * (x.const(1) / math.factorial(shift))
    for k in range(1, (K if x.sym else 60) + 1):
        T = T @ M
        acc = acc + T * (x.const(1) / math.factorial(k + shift))
    return acc


def cont(x, n, shp, eps, scale=1):
    p, m = shp
    A = x.array('a', (n, n), -2, 2) * eps
    B = x.array('b', (n, m)) * eps * scale
    C, D = x.array('c', (p, n)), x.array('d', (p, m))
    return A, B, C, D


def setup(x):
    n = x.choice('n', [1, 2, 3])
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1)] if n < 3 else [(1, 1)])
    K = order(x, n)
    eps = x.eps('eps', K)
    dt = x.pos('dt', Fraction(1, 4), 2)
    scale = x.choice('input scale', [1, 4096])
    A, B, C, D = cont(x, n, shp, eps, scale)
    return n, shp, K, dt, A, B, C, D


@harness(HARNESSES, **OPT)
def zoh(x):
    """x(t+T) = exp(AT) x + int_0^T exp(A tau) dtau B u"""
    n, shp, K, dt, A, B, C, D = setup(x)
    Gd = x.H.discretize(x.H.State(A, B, C, D), dt, method='zoh')
    x.eq(Gd.SamplingPeriod, dt, 'sampling period')
    x.same(Gd.DiscretizedWith, 'zoh', 'method recorded')
    x.eq(Gd.a, series(x, A * dt, K), 'state matrix')
    x.eq(Gd.b, series(x, A * dt, K, 1) @ (B * dt), 'input matrix')
    x.eq(Gd.c, C, 'output matrix')
    x.eq(Gd.d, D, 'feedthrough')


@harness(HARNESSES, **OPT)
def foh(x):
    """inputs interpolated linearly between the samples: with
    x+ = P x + G1 u + G2 (u+ - u) the output response of the model is that of
    w = x - G2 u"""
    n, shp, K, dt, A, B, C, D = setup(x)
    Gd = x.H.discretize(x.H.State(A, B, C, D), dt, method='foh')
    x.eq(Gd.SamplingPeriod, dt, 'sampling period')
    x.same(Gd.DiscretizedWith, 'foh', 'method recorded')
    P = series(x, A * dt, K)
    G1 = series(x, A * dt, K, 1) @ (B * dt)
    G2 = series(x, A * dt, K, 2) @ (B * dt)
    x.eq(Gd.a, P, 'state matrix')
    x.eq(Gd.b, G1 + P @ G2 - G2, 'input matrix')
    x.eq(Gd.c, C, 'output matrix')
    x.eq(Gd.d, D + C @ G2, 'feedthrough')


def away(x, n):
    """eigenvalue test of the code under test passes (poles not near zero)"""
    x.hook('eigvals', lambda A: x.np.ones(A.shape[0]) if A.shape[0] == n else None)
    x.hook('norm', lambda A, ord: x.const(1) if A.shape == (n, n) else None)


@harness(HARNESSES, **OPT)
def zoh_inverse(x):
    """the recovered model has the given discrete model as its equivalent"""
    n = x.choice('n', [1, 2, 3])
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1)] if n < 3 else [(1, 1)])
    K = order(x, n)
    eps = x.eps('eps', K)
    dt = x.pos('dt', Fraction(1, 4), 2)
    scale = x.choice('input scale', [1, 4096])
    X, B, C, D = cont(x, n, shp, eps, scale)
    for v in x.array('a', (n, n), -2, 2).reshape(-1):
        x.assume(v <= 1)
        x.assume(v >= -1)
    A = x.np.eye(n) + X
    Gd = x.H.State(A, B, C, D, dt)
    away(x, n)
    if x.flag('recorded'):
        Gd.DiscretizedWith = 'zoh'
        Gc = x.H.undiscretize(Gd)
    else:
        Gc = x.H.undiscretize(Gd, method='zoh')
    x.same(Gc.SamplingSet, 'R', 'continuous')
    x.eq(series(x, Gc.a * dt, K), A, 'state matrix')
    x.eq(series(x, Gc.a * dt, K, 1) @ (Gc.b * dt), B, 'input matrix')
    x.eq(Gc.c, C, 'output matrix')
    x.eq(Gc.d, D, 'feedthrough')


@harness(HARNESSES, eig='exact')
def zero_pole(x):
    """no continuous model has a pole at the origin as its sampled pole"""
    method = x.choice('method', ['zoh', 'foh'])
    n = x.choice('n', [1, 2])
    a = x.pos('a')
    A = x.mat([[x.const(0)]] if n == 1 else
              [[x.const(0), x.real('e')], [x.const(0), a]])
    x.hook('norm', lambda A, ord: x.const(1) if A.shape == (n, n) else None)
    G = x.H.State(A, x.array('b', (n, 1)), x.array('c', (1, n)), dt=x.pos('dt'))
    x.raises(ValueError, lambda: x.H.undiscretize(G, method=method), 'pole at the origin')


@harness(HARNESSES, float_consts=True)
def oscillating(x):
    """sampled pairs anywhere but on the negative real line can be recovered"""
    method = x.choice('method', ['zoh', 'foh'])
    re, im = x.choice('pair', [(-.3, .4), (.3, .4), (-.5, .1), (0., .5), (-.6, 1.2)])
    m = x.choice('inputs', [1, 2])
    dt = x.choice('dt', [.5, 2.])
    A, B = np.array([[re, im], [-im, re]]), np.array([[1., -1.], [.5, 2.]])[:, :m]
    if re == 0.:
        A = np.array([[.5, 0.], [.75, .25]])        # can be reordered by balancing
        B[0] = 0.
    C, D = x.array('c', (1, 2), -2, 2), x.array('d', (1, m), -2, 2)
    H = x.H.undiscretize(x.H.State(A, B, C, D, dt), method=method)
    x.same(H.SamplingSet, 'R', 'continuous')
    G = x.H.discretize(H, dt, method=method)
    for label, M, N in (('state matrix', G.a, A), ('input matrix', G.b, B),
                        ('output matrix', G.c, C), ('feedthrough', G.d, D)):
        x.same(tuple(M.shape), tuple(N.shape), label)
        for u, v in zip(M.reshape(-1), N.reshape(-1)):
            e, tol = u - v, Fraction(1, 10 ** 4) if x.sym else 1e-4
            x.true((e <= tol) & (e >= -tol), label)


@harness(HARNESSES, **OPT)
def round_trip(x):
    n, shp, K, dt, A, B, C, D = setup(x)
    method = x.choice('method', ['zoh', 'foh'])
    G = x.H.State(A, B, C, D)
    Gd = x.H.discretize(G, dt, method=method)
    away(x, n)
    H = x.H.undiscretize(Gd)
    x.eq(H.a, A, 'state matrix')
    x.eq(H.b, B, 'input matrix')
    x.eq(H.c, C, 'output matrix')
    x.eq(H.d, D, 'feedthrough')


@harness(HARNESSES, eig='exact', tzeros='strict', nondet=True)
def transfer_first_order(x):
    """k/(s+a) held: pole at exp(-aT), steady gain kept"""
    method = x.choice('method', ['zoh', 'foh'])
    dt = x.pos('dt', Fraction(1, 4), 2)
    k, a, d = x.real('k'), x.pos('a', Fraction(1, 4), 2), x.real('d')
    E = x.np.exp(-a * dt)
    # expm of the 2x2 (3x3) block matrix in terms of the scalar exponential
    g1 = (1 - E) / a * 1                       # int exp(-a t)
    g2 = (1 / a - g1 / dt / a)
    hook_expm(x, a, dt, E)
    num = [d, d * a + k]
    G = x.H.Transfer(x.vec(num), x.vec([x.const(1), a]))
    Gd = x.H.discretize(G, dt, method=method)
    x.same(type(Gd).__name__, 'Transfer', 'type')
    x.eq(Gd.SamplingPeriod, dt, 'sampling period')
    z = x.real('z')
    N, Dn = tf(x, Gd, z)
    if method == 'zoh':
        rn, rd = d * (z - E) + k * g1, z - E
    else:
        b = g1 + E * g2 - g2
        rn, rd = (d + k * g2) * (z - E) + k * b, z - E
    x.eq(N * rd, Dn * rn, 'held response')


def hook_expm(x, a, dt, E):
    """exp of [[p, r, 0..], [0, 0, ..]] block matrices with scalar p = -a dt"""
    if not x.sym:
        return
    from symx.linalg import _zero
    from symx.sym import unsupported

    def fn(M):
        n = M.shape[0]
        p = M[0, 0]
        if not _zero(p + a * dt):
            unsupported('expm argument')
        f1 = (E - 1) / p
        f2 = (f1 - 1) / p
        R = x.np.eye(n) * x.const(1)
        R[0, 0] = E
        if n == 2 and _zero(M[1, 0]) and _zero(M[1, 1]):
            R[0, 1] = f1 * M[0, 1]
            return R
        low = all(_zero(M[i, j]) for i in (1, 2) for j in (0, 1)) and _zero(M[2, 2])
        if n == 3 and low:
            R[0, 1] = f1 * M[0, 1]
            R[1, 2] = M[1, 2]
            R[0, 2] = f1 * M[0, 2] + f2 * M[0, 1] * M[1, 2]
            return R
        unsupported('expm argument')
    x.hook('expm', fn)


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed models of order 4 and 5 with up to three inputs, symbolic output gain"""
    n = x.choice('n', [4, 5])
    p, m = x.choice('shape', [(1, 3), (3, 2), (2, 1)])
    method = x.choice('method', ['zoh', 'foh'])
    dt = x.choice('dt', [.01, .25, 1.5, 10.])
    A, B, C, D = fixed_floats(n, p, m)
    D = D * x.flag('feedthrough')
    if x.flag('triangular'):
        A, B = np.tril(A, -1) - np.diag(np.arange(1., n + 1)), np.tril(B)
    k = x.pos('k', Fraction(1, 4), 4)
    G = x.H.discretize(x.H.State(A, B, C * k, D * k), dt, method=method)
    I = np.eye(n)
    w, V = np.linalg.eig(A)
    Ad = (V @ np.diag(np.exp(w * dt)) @ np.linalg.inv(V)).real
    G1 = np.linalg.solve(A, Ad - I)
    Bd, Dd = G1 @ B, D
    if method == 'foh':
        G2 = np.linalg.solve(A, G1 - dt * I) / dt
        Bd, Dd = G1 @ B + (Ad - I) @ G2 @ B, D + C @ G2 @ B
    one = x.const(1)
    near(x, G.a, Ad, one, 1e-4, 'state matrix')
    near(x, G.b / dt, Bd / dt, one, 1e-4, 'input matrix')
    near(x, G.c, C, k, 1e-4, 'output matrix')
    near(x, G.d, Dd, k, 1e-4, 'feedthrough')
    x.same(G.SamplingPeriod, dt, 'sampling period')
