"""Minimal realisations.

State models are generated from their Kalman structure in a rotated basis, and
transfer models from their roots."""
from symx.api import *
from symx.linalg import _zero
from symx.tf import det, polyval, tf_ss, exact, hidden_modes, fixed_floats, near
from props.C18 import blocks
from props.C19 import ident, basis, same
from props.C23 import conv

HARNESSES = []
FUNCTIONS = ['minimal_realization', '_minimal_realization_state',
             '_minimal_realization_transfer', '_minimal_realization_simplify']
BOUNDS = {
    'quick': 'state models of order up to 4 with every combination of '
             'controllable/observable dimensions up to 2, shapes up to 2x2, '
             'one orthogonal basis per order; transfer models of order up to '
             '3 with every number of cancelling real roots and complex pairs, '
             '1x1 and entries of 1x2 and 2x1; '
             'fixed models of order up to 6 with hidden modes and a '
             'symbolic evaluation point',
    'thorough': 'transfer models of order 4'}
ASSUMPTIONS = ['roots and modes either cancel exactly or are separated',
               'contract of staircase (property C19): unreachable states last, '
               'unobservable states first in the inverted observer form',
               'contract of cancellation_distance: zero exactly for pairs '
               'that are not controllable',
               'matrix_balance returns a diagonal similarity',
               'the polynomial root finder returns the exact roots']


class Point:
    """a generic rational point"""
    def __getitem__(self, i):
        return Fraction((i * 7919 + 131) % 1009 + 2, (i * 31) % 7 + 1)


def number(v):
    d = Fraction(1)
    for f, e in v.d.items():
        d *= f.eval(Point()) ** e
    return v.n.eval(Point()) / d


def generic_rank(M):
    R = [[number(v) for v in row] for row in np.asarray(M)]
    r = 0
    for c in range(len(R[0]) if R else 0):
        k = next((i for i in range(r, len(R)) if R[i][c] != 0), None)
        if k is None:
            continue
        R[r], R[k] = R[k], R[r]
        for i in range(r + 1, len(R)):
            f = R[i][c] / R[r][c]
            R[i] = [a - f * b for a, b in zip(R[i], R[r])]
        r += 1
    return r


def full(x, K):
    """full row rank"""
    n = K.shape[0]
    if n:
        d = det(x, K if K.shape[1] == n else K @ K.T)
        x.assume(d != 0 if x.sym else abs(d) > 1e-2)


def kalman(x, dims, m, p):
    """model with dims = controllable & observable, controllable only,
    observable only, neither"""
    n = sum(dims)
    at = [sum(dims[:k]) for k in range(5)]
    kind = [k for k in range(4) for _ in range(dims[k])]
    a, b, c = x.array('a', (n, n)), x.array('b', (n, m)), x.array('c', (p, n))
    z = x.const(0)
    for i in range(n):
        for j in range(n):
            ci, oi = kind[i] < 2, kind[i] % 2 == 0
            cj, oj = kind[j] < 2, kind[j] % 2 == 0
            if cj and not ci or oi and not oj:
                a[i, j] = z
        if kind[i] > 1:
            b[i, :] = z
        if kind[i] % 2:
            c[:, i] = z
    k = at[2]
    ctr = list(range(k))
    obs = list(range(at[1])) + list(range(at[2], at[3]))
    if ctr:
        full(x, blocks(x, a[:k, :k], b[:k, :], 'c')[:, :k * m])
    if obs:
        s = np.ix_(obs, obs)
        full(x, blocks(x, a[s], c[:, obs], 'o').T[:, :len(obs) * p])
    unobs = [i for i in range(n) if i not in obs]
    return a, b, c, ctr, unobs, obs


def eye_cols(x, order):
    n = len(order)
    M = x.np.zeros((n, n)) * x.const(1)
    for j, i in enumerate(order):
        M[i, j] = x.const(1)
    return M


def contracts(x, stages):
    """stages: matrix, basis to the Kalman coordinates, kinds per state"""
    def staircase(A, B, C, form='c', invert=False):
        n = A.shape[0]
        T = ident(x, n)
        for M, Q, unreach, unobs in stages:
            if tuple(M.shape) == tuple(A.shape) and same(M, A):
                bad = unreach if form == 'c' else unobs
                T = Q @ eye_cols(x, [i for i in range(n) if i not in bad] + bad)
                break
        if invert:
            T = T[:, ::-1]
        return T.T @ A @ T, T.T @ B, C @ T, T

    def distance(F, G):
        if F.shape[0] != G.shape[0] or F.shape[0] != F.shape[1]:
            raise ValueError('shape')
        if F.shape[0] == 0:
            raise IndexError('empty')
        v = x.const(0 if generic_rank(blocks(x, F, G, 'c')) < F.shape[0] else 1)
        return v, v, v, x.const(0), x.const(0)
    x.hook('lib:staircase', staircase)
    x.hook('lib:cancellation_distance', distance)


def markov(x, A, B, C, k):
    out, M = [], B
    for _ in range(k):
        out.append(C @ M)
        M = A @ M
    return out


DIMS = [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1),
        (2, 0, 0, 0), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 1, 0),
        (0, 2, 0, 0), (0, 0, 2, 0), (0, 1, 0, 1), (0, 0, 1, 1), (0, 0, 0, 2),
        (3, 0, 0, 0), (2, 1, 0, 0), (2, 0, 1, 0), (2, 0, 0, 1), (1, 2, 0, 0),
        (1, 0, 2, 0), (1, 0, 0, 2), (1, 1, 1, 0), (1, 1, 0, 1), (1, 0, 1, 1),
        (0, 2, 1, 0), (0, 1, 2, 0), (0, 1, 1, 1), (1, 1, 1, 1), (2, 1, 1, 0)]


@harness(HARNESSES)
def state(x):
    dims = x.choice('dims', DIMS)
    n = sum(dims)
    m, p = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)] if n < 3 else [(1, 1)])
    a, b, c, ctr, unobs, obs = kalman(x, dims, m, p)
    Q = basis(x, n, 0)
    A1, B1, C1 = Q @ a @ Q.T, Q @ b, c @ Q.T
    # data before balancing
    T = ident(x, n)
    if n == 2:
        T[1, 1] = x.pos('t')
    Ti = T * 1
    if n == 2:
        Ti[1, 1] = 1 / T[1, 1]
    A, B, C = T @ A1 @ Ti, T @ B1, C1 @ Ti
    unreach = [i for i in range(n) if i not in ctr]
    k = len(ctr)
    keep = [i for i in range(n) if i in obs]
    contracts(x, [(A1, Q, unreach, unobs),
                  (a[:k, :k], ident(x, k), [], [i for i in unobs if i < k])])
    x.hook('balance', lambda M: (A1, T) if same(M, A) else None)
    dt = x.choice('dt', [None, 0.25]) if n < 3 else None
    D = x.array('d', (p, m))
    G = x.H.State(A, B, C, D, dt)
    F = x.H.minimal_realization(G)
    x.same(type(F).__name__, 'State', 'representation')
    x.same(F.SamplingPeriod, dt, 'sampling period')
    x.same(tuple(F.shape), (p, m), 'shape')
    x.eq(F.d, D, 'feedthrough')
    x.eq(G.a, A, 'argument unchanged')
    nf = F.NumberOfStates
    x.same(nf, dims[0], 'number of states')
    M0 = markov(x, A, B, C, n + nf)
    if nf:
        for y, z in zip(markov(x, F.a, F.b, F.c, n + nf), M0):
            x.eq(y, z, 'Markov parameters')
    else:
        for z in M0:
            x.eq(z, z * 0, 'Markov parameters')


@harness(HARNESSES)
def gains(x):
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    d = x.array('d', (p, m))
    dt = x.choice('dt', [None, 0.25])
    kind = x.choice('kind', ['State', 'Transfer'])
    G = getattr(x.H, kind)(d.tolist(), dt=dt)
    F = x.H.minimal_realization(G)
    x.same(type(F).__name__, kind, 'representation')
    x.same(F.SamplingPeriod, dt, 'sampling period')
    x.same(tuple(F.shape), (p, m), 'shape')
    x.eq(F.to_array(), d, 'gain')


def rooted(x, name, common, zeros, poles):
    """numerator and denominator coefficients with the given numbers of
    (real roots, complex pairs); roots are separated"""
    pts = []

    def real(nm):
        v = x.real(nm, -3, 3)
        pts.append((v, x.const(0)))
        return [(v, x.const(0))]

    def pair(nm):
        re, im = x.real(nm + 'r', -3, 3), x.pos(nm + 'i')
        pts.append((re, im))
        return [(re, im), (re, -im)]

    def group(nm, k):
        out = []
        for i in range(k[0]):
            out += real('%s%d' % (nm, i))
        for i in range(k[1]):
            out += pair('%sc%d' % (nm, i))
        return out
    com, zer, pol = (group(name + q, k) for q, k in
                     zip('czp', (common, zeros, poles)))
    for i in range(len(pts)):
        for j in range(i):
            (a, b), (c, d) = pts[i], pts[j]
            x.assume((a - c) ** 2 + (b - d) ** 2 > Fraction(1, 100))

    def coef(rs, k):
        out = [x.const(1)]
        for re, im in rs:
            if isinstance(im, (int, float)) and im == 0 or x.sym and _zero(im):
                out = conv(out, [x.const(1), -re])
        done = False
        for re, im in rs:
            zero = _zero(im) if x.sym else im == 0
            if not zero:
                done = not done
                if done:
                    out = conv(out, [x.const(1), -2 * re, re * re + im * im])
        return [k * v for v in out]
    kn, kd = x.pos(name + 'kn'), x.pos(name + 'kd')
    if name == 'g':
        kn = kn * x.choice('numerator sign', [1, -1])
        kd = kd * x.choice('denominator sign', [1, -1])
    num, den = coef(com + zer, kn), coef(com + pol, kd)
    return num, den, com + zer, com + pol, len(com)


def known_roots(x, table):
    def roots(p):
        q = [v for v in p]
        while q and _zero(q[0]):
            q = q[1:]
        for co, rs in table:
            if len(co) == len(q) and all(_zero(a * co[0] - b * q[0]) for a, b in zip(q, co)):
                from symx.sym import SymComplex
                out = [re if _zero(im) else SymComplex(re, im) for re, im in rs]
                return x.vec(out)
        return None
    x.hook('roots', roots)


def polys_equal(x, a, b, label):
    n = max(len(a), len(b))
    pad = lambda c: [x.const(0)] * (n - len(c)) + list(c)
    for u, v in zip(pad(a), pad(b)):
        x.eq(u, v, label)


def check_entry(x, num, den, n2, d2, cancelled, what):
    n2, d2 = [v for v in n2[0]], [v for v in d2[0]]
    polys_equal(x, conv(num, d2), conv(n2, den), what)
    x.same(len(d2), len(den) - cancelled, what + ': order')


SHAPES = [((0, 0), (0, 0), (1, 0)), ((0, 0), (1, 0), (1, 0)), ((1, 0), (0, 0), (0, 0)),
          ((1, 0), (0, 0), (1, 0)), ((1, 0), (1, 0), (1, 0)), ((1, 0), (0, 0), (2, 0)),
          ((2, 0), (0, 0), (0, 0)), ((2, 0), (0, 0), (1, 0)), ((0, 1), (0, 0), (0, 0)),
          ((0, 1), (0, 0), (1, 0)), ((0, 1), (1, 0), (1, 0)), ((1, 0), (0, 0), (0, 1)),
          ((0, 0), (0, 1), (0, 1)), ((1, 0), (0, 1), (0, 1)), ((1, 1), (0, 0), (0, 0)),
          ((0, 0), (1, 0), (0, 1))]
MORE = [((2, 0), (1, 0), (1, 0)), ((1, 1), (0, 0), (1, 0)), ((0, 2), (0, 0), (0, 0)),
        ((0, 1), (0, 1), (0, 1)), ((3, 0), (0, 0), (1, 0))]


@harness(HARNESSES)
def transfer(x):
    case = x.choice('roots', x.q(SHAPES, SHAPES + MORE))
    num, den, zr, pr, k = rooted(x, 'g', *case)
    known_roots(x, [(num, zr), (den, pr)])
    dt = x.choice('dt', [None, 0.25])
    G = x.H.Transfer([v for v in num], [v for v in den], dt=dt)
    F = x.H.minimal_realization(G)
    x.same(type(F).__name__, 'Transfer', 'representation')
    x.same(F.SamplingPeriod, dt, 'sampling period')
    check_entry(x, num, den, F.num, F.den, k, 'entry')


@harness(HARNESSES)
def tolerance(x):
    """the tolerance decides what cancels"""
    z, p, k = x.real('z', -3, 3), x.real('p', -3, 3), x.pos('k')
    t = x.pos('t', lo=Fraction(1, 100), hi=Fraction(1, 2))
    q = x.real('q', 5, 6)
    x.assume(abs(abs(z - p) - t * (1 + abs(z))) > Fraction(1, 1000))
    num, den = [k, -k * z], conv([1, -p], [1, -q])
    known_roots(x, [(num, [(z, x.const(0))]),
                    (den, [(p, x.const(0)), (q, x.const(0))])])
    F = x.H.minimal_realization(x.H.Transfer(num, den), tol=t)
    if x.branch(abs(z - p) < t * (1 + abs(z))):
        x.same(len(F.den[0]), 2, 'cancelled')
        polys_equal(x, list(F.den[0]), [1, -q], 'remaining pole')
        polys_equal(x, list(F.num[0]), [k], 'remaining gain')
    else:
        check_entry(x, num, den, F.num, F.den, 0, 'entry')


@harness(HARNESSES)
def near_double(x):
    """a complex pair of zeros next to a real pole"""
    p, q = x.real('p', 1, 2), x.real('q', 4, 6)
    e = x.real('e', Fraction(1, 1000), Fraction(1, 500))
    q = -q if x.flag('left') else q
    num, den = [1, -2 * p, p * p + e * e], conv([1, -p], [1, -q])
    z = x.const(0)
    kind = x.choice('kind', ['pair of zeros', 'two poles', 'pair of poles'])
    tol = Fraction(1, 100) if x.sym else 0.01
    if kind == 'two poles':
        den = conv(den, [1, -p])
        known_roots(x, [(num, [(p, e), (p, -e)]), (den, [(q, z), (p, z), (p, z)])])
        F = x.H.minimal_realization(x.H.Transfer(num, den), tol=tol)
        x.same((len(F.num[0]), len(F.den[0])), (1, 2), 'two cancellations')
        x.true(abs(F.den[0, 1] + q) < Fraction(1, 10), 'remaining pole')
        x.true(abs(F.num[0, 0] - 1) < Fraction(1, 10), 'gain')
        return
    if kind == 'pair of poles':
        known_roots(x, [(num, [(p, e), (p, -e)]), (den, [(q, z), (p, z)])])
        F = x.H.minimal_realization(x.H.Transfer(den, num), tol=tol)
        x.same((len(F.num[0]), len(F.den[0])), (2, 2), 'one cancellation')
        x.true(abs(F.num[0, 1] + q) < Fraction(1, 10), 'remaining zero')
        x.true(abs(F.den[0, 1] + p) < Fraction(1, 10), 'remaining pole')
        return
    known_roots(x, [(num, [(p, e), (p, -e)]), (den, [(q, z), (p, z)])])
    F = x.H.minimal_realization(x.H.Transfer(num, den), tol=tol)
    x.same((len(F.num[0]), len(F.den[0])), (2, 2), 'one cancellation')
    x.true(abs(F.den[0, 1] + q) < Fraction(1, 10), 'remaining pole')
    x.true(abs(F.num[0, 1] + p) < Fraction(1, 10), 'remaining zero')


@harness(HARNESSES, svd='echelon')
def transfer_mimo(x):
    shape = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    g = rooted(x, 'g', (1, 0), (0, 0), (1, 0))
    h = rooted(x, 'h', (0, 0), (1, 0), (1, 0))
    e = [(g, h), (h, g)]
    p, m = shape
    num = [[e[i][j][0] for j in range(m)] for i in range(p)]
    den = [[e[i][j][1] for j in range(m)] for i in range(p)]
    if p == 2 and m == 1:
        num, den, e = [[g[0]], [h[0]]], [[g[1]], [h[1]]], [(g,), (h,)]
    known_roots(x, [(q[i], q[i + 2]) for q in (g, h) for i in (0, 1)])
    G = x.H.Transfer(num, den)
    F = x.H.minimal_realization(G)
    x.same(tuple(F.shape), shape, 'shape')
    for i in range(p):
        for j in range(m):
            check_entry(x, num[i][j], den[i][j], F.num[i][j], F.den[i][j],
                        e[i][j][4], 'entry')
            x.eq(G.num[i][j] * 1, x.mat([num[i][j]]) if not x.sym else G.num[i][j],
                 'argument unchanged')


@harness(HARNESSES)
def scalar_numerator(x):
    """constant numerators"""
    k = x.real('k')
    den = [x.pos('d0') * x.choice('sign', [1, -1]), x.real('d1'),
           x.real('d2')][:x.choice('n', [2, 3])]
    dt = x.choice('dt', [None, 0.25])
    G = x.H.Transfer([k], [v for v in den], dt=dt)
    F = x.H.minimal_realization(G)
    polys_equal(x, conv([k], list(F.den[0])), conv(list(F.num[0]), den), 'entry')
    x.same(F.SamplingPeriod, dt, 'sampling period')


@harness(HARNESSES, float_consts=True, path_s=60)
def larger(x):
    """fixed models of order up to 6 with hidden modes"""
    p, m = x.choice('shape', [(1, 1), (3, 2), (2, 3)])
    unc, uno = x.choice('hidden', [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (2, 1), (1, 2)])
    dt = x.choice('dt', [None, 0.5])
    A, B, C, D, (a, b, c) = hidden_modes(p, m, unc, uno, dt)
    k = x.real('k', -4, 4)
    F = x.H.minimal_realization(x.H.State(A, B, C, D * k, dt), tol=1e-6)
    x.same((F.NumberOfStates, tuple(F.shape), F.SamplingPeriod), (3, (p, m), dt), 'size')
    x.eq(F.d, D * k, 'feedthrough')
    s = x.real('s', -1, 1)
    z = x.np.zeros((p, m)) * x.const(1)
    N, d = tf_ss(x, *(exact(x, M) for M in (F.a, F.b, F.c)), z, s)
    R, e = tf_ss(x, *(exact(x, M) for M in (a, b, c)), z, s)
    for i in range(p):
        for j in range(m):
            v, t = N[i, j] * e - R[i, j] * d, Fraction(1, 1000)
            x.true((v <= t) & (-v <= t), 'response')
