"""State to Transfer conversion."""
from symx.api import *
from symx.tf import *
from props.C03 import dts

HARNESSES = []
FUNCTIONS = ['state_to_transfer', 'haroldpoly', 'haroldpolyadd',
             'Transfer.__init__', 'Transfer.validate_arguments']
BOUNDS = {
    'quick': 'static gains up to 2x3; order 1 full, order 2 with arbitrary '
             'entries, order 3 triangular; shapes up to 2x2 with all '
             'entries symbolic, 2x3 and 3x2 at order 1 with one free entry '
             'per matrix; frequency point symbolic; '
             'fixed models of order 3 to 5 with up to six channels and a '
             'symbolic evaluation point',
    'thorough': 'as quick with shapes up to 2x3 and order 3'}
OPT = dict(eig='exact', tzeros='strict', path_s=40)


def run(x, A, B, C, D, dt):
    s = x.real('s')
    form = x.choice('form', ['system', 'polynomials', 'tuple'])
    p, m = D.shape
    if A is None:
        N, d = D + x.const(0), x.const(1)
    else:
        N, d = tf_ss(x, A, B, C, D, s)
    if form == 'tuple':
        x.assume(dt is None)
        e = x.np.empty((0, 0))
        arg = (A, B, C, D) if A is not None else (e, e, e, D)
        num, den = x.H.state_to_transfer(arg, output='polynomials')
    else:
        G = x.H.State(A, B, C, D, dt) if A is not None else x.H.State(D, dt=dt)
        if form == 'system':
            R = x.H.state_to_transfer(G)
            x.same(type(R).__name__, 'Transfer', 'type')
            x.same(R.SamplingPeriod, dt, 'sampling period')
            x.same(R.shape, (p, m), 'shape')
            rn, rd = tf(x, R, s)
            x.same(tuple(rn.shape), (p, m), 'entries')
            x.eq(rn * d, N * rd, 'response')
            return
        num, den = x.H.state_to_transfer(G, output='polynomials')
    if A is None:
        x.eq(num, N * den, 'gain')
        return
    if (p, m) == (1, 1):
        num, den = [[num]], [[den]]
    rn = x.mat([[polyval(x, num[i][j].reshape(-1), s) for j in range(m)] for i in range(p)])
    rd = x.mat([[polyval(x, den[i][j].reshape(-1), s) for j in range(m)] for i in range(p)])
    x.eq(rn * d, N * rd, 'response')


@harness(HARNESSES, **OPT)
def static(x):
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)])
    run(x, None, None, None, x.array('d', shp), dts(x))


@harness(HARNESSES, **OPT)
def first_order(x):
    shp = x.choice('shape', x.q([(1, 1), (1, 2), (2, 1)],
                                [(1, 1), (1, 2), (2, 1), (2, 2)]))
    run(x, x.array('a', (1, 1)), x.array('b', (1, shp[1])),
        x.array('c', (shp[0], 1)), x.array('d', shp), dts(x))


@harness(HARNESSES, svd='echelon', **OPT)
def shapes(x):
    """several channels, one free entry in every matrix"""
    p, m = x.choice('shape', [(2, 2), (2, 3), (3, 2)])
    A = x.mat([[x.real('a')]])
    B = x.mat([[x.const(2 * j - 1) for j in range(m)]])
    C = x.mat([[x.const(3 * i - 1)] for i in range(p)])
    D = x.mat([[x.const((i + j) % 3) for j in range(m)] for i in range(p)])
    B[0, 1], C[p - 1, 0], D[1, 0] = x.real('b'), x.real('c'), x.real('d')
    x.assume(B[0, 1] != 0)
    x.assume(C[p - 1, 0] != 0)
    run(x, A, B, C, D, dts(x))


@harness(HARNESSES, **OPT)
def second_order(x):
    """real poles in triangular form or a complex pair"""
    shp = x.choice('shape', x.q([(1, 1)], [(1, 1), (1, 2), (2, 1)]))
    kind = x.choice('poles', ['diagonal', 'triangular', 'complex'])
    dt = dts(x)
    z = x.const(0)
    if kind == 'complex':
        re, im = x.real('re'), x.real('im')
        x.assume(im > 0)
        A = x.mat([[re, im], [-im, re]])
    else:
        A = x.mat([[x.real('a1'), x.real('a12') if kind == 'triangular' else z],
                   [z, x.real('a2')]])
    run(x, A, x.array('b', (2, shp[1])), x.array('c', (shp[0], 2)),
        x.array('d', shp), dt)


@harness(HARNESSES, **OPT)
def structured(x):
    """integrator chains, unreachable and unobservable channels"""
    kind = x.choice('kind', ['double integrator', 'no input', 'no output',
                             'decoupled'])
    dt = dts(x)
    z, one = x.const(0), x.const(1)
    a, b, c = x.real('a'), x.real('b'), x.real('c')
    x.assume(b != 0)
    x.assume(c != 0)
    if kind == 'double integrator':
        A, B, C = [[z, one], [z, z]], [[z], [b]], [[c, x.real('c2')]]
    elif kind == 'no input':
        A, B, C = [[a, z], [z, x.real('a2')]], [[z], [z]], [[c, one]]
    elif kind == 'no output':
        A, B, C = [[a, z], [z, x.real('a2')]], [[b], [one]], [[z, z]]
    else:
        A, B, C = ([[a, z], [z, x.real('a2')]], [[b, z], [z, one]],
                   [[c, z], [z, one]])
    B, C = x.mat(B), x.mat(C)
    run(x, x.mat(A), B, C, x.array('d', (C.shape[0], B.shape[1])), dt)


@harness(HARNESSES)
def given_transfer(x):
    """a transfer model is returned as it is"""
    dt = dts(x)
    shp = x.choice('shape', [(1, 1), (1, 2)])
    form = x.choice('form', ['system', 'polynomials'])
    k, p = x.array('k', shp), x.real('p')
    for e in k.reshape(-1):
        x.assume(e != 0)
    num = [k[0, 0]] if shp == (1, 1) else [[[e] for e in k[0]]]
    G = x.H.Transfer(num, [x.const(1), p], dt=dt)
    s = x.real('s')
    if form == 'system':
        R = x.H.state_to_transfer(G)
        x.same(R.SamplingPeriod, dt, 'sampling period')
    else:
        n, d = x.H.state_to_transfer(G, output='polynomials')
        R = x.H.Transfer(n, d, dt=dt)
    x.same(type(R).__name__, 'Transfer', 'type')
    r, g = tf(x, R, s), tf(x, G, s)
    x.eq(r[0] * g[1], g[0] * r[1], 'response')


@harness(HARNESSES)
def gain_tuple(x):
    """the feedthrough alone"""
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 2)])
    D = x.array('d', shp)
    R = x.H.state_to_transfer((D,))
    s = x.real('s')
    r = tf(x, R, s)
    x.same(tuple(r[0].shape), shp, 'shape')
    x.eq(r[0], D * r[1], 'response')


@harness(HARNESSES)
def arguments(x):
    """unknown output kinds are rejected"""
    G = x.state('g', 1, 1, 1)
    x.raises(ValueError, lambda: x.H.state_to_transfer(G, output='junk'), 'output kind')


@harness(HARNESSES, float_consts=True, path_s=60)
def larger(x):
    """fixed models of order 3 to 5, every evaluation point in an interval"""
    n = x.choice('n', [3, 4, 5])
    p, m = x.choice('shape', [(1, 1), (3, 2), (2, 3), (1, 3)])
    dt = dts(x)
    feed = x.flag('feedthrough')
    A, B, C, D = fixed_floats(n, p, m, dt)
    R = x.H.state_to_transfer(x.H.State(A, B, C, D * feed, dt))
    s = x.real('s', -1, 1)
    N, d = tf_ss(x, *(x.mat([[x.const(Fraction(v)) for v in r] for r in M])
                      for M in (A, B, C, D * feed)), s)
    num, den = tf(x, R, s)
    for i in range(p):
        for j in range(m):
            e, t = num[i, j] * d - N[i, j] * den[i, j], Fraction(1, 1000)
            x.true((e <= t) & (-e <= t), 'response')
