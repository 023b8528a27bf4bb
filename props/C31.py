"""Distance of a pair of matrices to the nearest pair that loses rank."""
from symx.api import *
from symx.tf import near, exact

HARNESSES = []
FUNCTIONS = ['cancellation_distance', 'e_i']
BOUNDS = {
    'quick': 'fixed pairs with up to 3 rows (5 for the ordering of the bounds '
             'and the reported point), up to 3 columns in the second matrix, '
             'several random directions each; the point of the complex plane '
             'at which the lower bound is compared is symbolic',
    'thorough': 'as quick with more random directions'}
ASSUMPTIONS = ['the random directions are a few seeded draws of the generator, '
               'not enumerated']

PAIRS = {
    '1x1': ([[2.]], [[3.]]),
    '1x2': ([[-1.]], [[.5, -.25]]),
    '1x1-zero': ([[2.]], [[0.]]),
    '2x1': ([[0., 1], [-2, -3]], [[0.], [1]]),
    '2x1-complex': ([[-.5, 2], [-2, -.5]], [[1.], [.25]]),
    '2x1-lost': ([[-1., 0], [0, -2]], [[1.], [0]]),
    '2x1-nearly': ([[-1., .5], [0, -2]], [[1.], [.0625]]),
    '2x2': ([[1., 4], [.5, -2]], [[.25, 0], [1, -.5]]),
    '3x1': ([[-1., 1, 0], [0, -2, 1], [.5, 0, -3]], [[0.], [0], [1]]),
    '3x2': ([[0., 1, 0], [-1, 0, .5], [.25, 0, -.5]], [[1., 0], [0, .5], [.5, 1]]),
}
MORE = {
    '3x3': ([[-1., 1, 2], [3, -2, 1], [.5, 0, -3]], [[1., 0, 2], [0, 3, 1], [1, 1, 0]]),
    '4x1': ([[0., 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [-2, -3, -4, -1]],
            [[0.], [0], [0], [1]]),
    '4x2': ([[-1., 2, 0, 0], [-2, -1, 1, 0], [0, 0, -3, 1], [0, 0, 0, -4]],
            [[0., 1], [1, 0], [0, .5], [2, 0]]),
    '5x3': ([[-1., 2, 0, 0, 1], [-2, -1, 1, 0, 0], [0, 0, -3, 1, 0], [0, 0, 0, -4, 2],
             [1, 0, 0, 0, -5]],
            [[0., 1, 0], [1, 0, 1], [0, .5, 0], [2, 0, 0], [0, 0, 1]]),
}


def bounds(x, pairs):
    name = x.choice('pair', sorted(pairs))
    draw = x.choice('draw', list(range(x.q(5, 12))))
    F, G = (np.array(v) for v in pairs[name])
    k = x.choice('scale', [1., .125, 16.])
    F, G = F * k, G * k
    keep = np.random.get_state()
    np.random.seed(17 + draw)
    try:
        u2, u1, low, e, rad = x.H.cancellation_distance(F, G)
    finally:
        np.random.set_state(keep)
    return F, G, k, [float(np.real(v)) for v in (u2, u1, low, rad)], complex(e)


def gram(x, F, G, re, im):
    """real and imaginary part of [F-pI G] times its conjugate transpose"""
    n = len(F)
    P = exact(x, F @ F.T + G @ G.T)
    S, K = exact(x, F + F.T), exact(x, F - F.T)
    R = [[P[i, j] - re * S[i, j] + (re * re + im * im if i == j else 0)
          for j in range(n)] for i in range(n)]
    # -conj(p) F - p F' = -re (F + F') + i im (F - F')
    J = [[im * K[i, j] for j in range(n)] for i in range(n)]
    return R, J


def minors(R, J):
    """leading minors of the hermitian matrix R + iJ"""
    q = lambda i, j: R[i][j] * R[i][j] + J[i][j] * J[i][j]
    out = [R[0][0]]
    if len(R) > 1:
        out.append(R[0][0] * R[1][1] - q(0, 1))
    if len(R) > 2:
        a, b, c = (R[0][1], J[0][1]), (R[1][2], J[1][2]), (R[2][0], J[2][0])
        t = (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
        out.append(R[0][0] * R[1][1] * R[2][2] + 2 * (t[0] * c[0] - t[1] * c[1])
                   - R[0][0] * q(1, 2) - R[1][1] * q(0, 2) - R[2][2] * q(0, 1))
    return out


@harness(HARNESSES, float_consts=True, path_s=60)
def lower_bound(x):
    """no point of the complex plane is closer than the lower bound"""
    F, G, k, (u2, u1, low, rad), e = bounds(x, PAIRS)
    x.true(low >= -1e-5 * k, 'lower bound is not negative')
    x.true(low <= u2 + 1e-5 * k, 'lower bound does not exceed the upper one')
    re, im = x.real('re'), x.real('im')
    R, J = gram(x, F / k, G / k, re, im)
    w = max(low / k - 1e-4, 0) ** 2
    for i in range(len(R)):
        R[i][i] = R[i][i] - x.const(Fraction(w).limit_denominator(10 ** 9) - Fraction(1, 10 ** 5)
                                    if x.sym else w - 1e-5)
    for i, v in enumerate(minors(R, J)):
        x.true(v >= 0, 'minor %d of the pencil minus the lower bound' % i)


@harness(HARNESSES, float_consts=True)
def upper_bound(x):
    """the first bound is attained at the reported point"""
    F, G, k, (u2, u1, low, rad), e = bounds(x, dict(PAIRS, **MORE))
    s = np.linalg.svd(np.c_[F - e * np.eye(len(F)), G], compute_uv=False)[-1]
    one = x.pos('one')
    near(x, one * np.array([u2 / k]), np.array([s / k]), one, 1e-4, 'smallest singular value')
    x.true(u2 <= u1 + 1e-5 * k, 'sharper bound is not larger')
    x.true(-1e-5 * k <= low, 'lower bound is not negative')
    x.true(low <= u2 + 1e-5 * k, 'lower bound does not exceed the upper one')


@harness(HARNESSES)
def lost_rank(x):
    """a pair that already lost rank has distance zero"""
    n = x.choice('rows', [2, 3, 4])
    m = x.choice('columns', [1, 2])
    A = np.triu(np.array([[(3 * i + 2 * j) % 5 - 2. for j in range(n)] for i in range(n)]), 1)
    A = A + np.diag([-1. - 1.5 * i for i in range(n)])
    B = np.array([[1. + (i + j) % 3 for j in range(m)] for i in range(n)])
    B[-1] = 0
    u2, u1, low, e, rad = x.H.cancellation_distance(A, B)
    x.true(abs(u2) <= 1e-4, 'distance')
    x.true(abs(low) <= 1e-4, 'lower bound')
    x.true(abs(e - A[-1, -1]) <= 1e-4, 'mode that is lost')


@harness(HARNESSES)
def rejections(x):
    F = x.array('f', (2, x.choice('columns', [1, 3])))
    x.raises(ValueError, lambda: x.H.cancellation_distance(F, x.array('g', (2, 1))),
             'first matrix not square')
    Q = x.array('q', (2, 2))
    x.raises(ValueError, lambda: x.H.cancellation_distance(Q, x.array('h', (x.choice('rows', [1, 3]), 1))),
             'different numbers of rows')
