"""State models: series connection, scaling and division."""
from symx.api import *
from symx.tf import *

HARNESSES = []
FUNCTIONS = ['State.__mul__', 'State.__rmul__', 'State.__matmul__',
             'State.__rmatmul__', 'State.__truediv__', 'State.__rtruediv__',
             'State.validate_arguments', 'State.__init__',
             'transfer_to_state (SISO)', 'Transfer.__mul__/__matmul__ (State operand)']
BOUNDS = {
    'quick': 'orders 0..2 per operand (sum <= 3), shapes up to 2x3; every '
             'matrix entry, scalar and the frequency point are symbolic reals; '
             'orders 3 and 2 with up to four inputs and one free entry '
             'per matrix',
    'thorough': 'orders 0..3 per operand (sum <= 4), shapes up to 3x3; every '
                'matrix entry, scalar and the frequency point symbolic reals'}
PAIRS = [((1, 1), (1, 1)), ((1, 2), (2, 1)), ((2, 1), (1, 2)), ((2, 2), (2, 2)),
         ((2, 2), (2, 1)), ((1, 2), (2, 2)), ((1, 2), (2, 3))]
SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2)]


def dts(x):
    return x.choice('dt', [None, 0.5])


def check(x, R, ref, dt, s, what):
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    eq_tf(x, R, ref, s, what)


@harness(HARNESSES)
def mul_state_state(x):
    n1 = x.choice('n1', x.q([0, 1, 2], [0, 1, 2, 3]))
    n2 = x.choice('n2', [0, 1, 2])
    x.assume(n1 + n2 <= x.q(3, 4))
    s1, s2 = x.choice('shapes', x.q(PAIRS, PAIRS + [((3, 2), (2, 3)), ((2, 3), (3, 2))]))
    op = x.choice('op', ['mul', 'matmul'])
    dt = dts(x)
    G, H = x.state('g', n1, *s1, dt=dt), x.state('h', n2, *s2, dt=dt)
    s = x.real('s')
    R = G * H if op == 'mul' else G @ H
    check(x, R, r_mul(x, tf(x, G, s), tf(x, H, s)), dt, s, 'series response')


@harness(HARNESSES)
def mul_broadcast(x):
    """a SISO operand scales every channel of a MIMO one, on either side"""
    n1 = x.choice('n1', [0, 1, 2])
    n2 = x.choice('n2', [0, 1])
    shp = x.choice('shape', x.q([(1, 2), (2, 1), (2, 2), (2, 3)],
                                [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]))
    swap = x.flag('siso first')
    op = x.choice('op', ['mul', 'matmul'])
    dt = dts(x)
    M, G = x.state('g', n1, *shp, dt=dt), x.state('h', n2, 1, 1, dt=dt)
    s = x.real('s')
    a, b = (G, M) if swap else (M, G)
    R = a * b if op == 'mul' else a @ b
    ref = r_emul(tf(x, M, s), r_bcast(x, tf(x, G, s), *shp))
    check(x, R, ref, dt, s, 'scaled response')


@harness(HARNESSES)
def mul_scalar(x):
    n = x.choice('n', [0, 1, 2])
    shp = x.choice('shape', SHAPES)
    kind = x.choice('operand', ['float', 'zero', 'int', '1-elem'])
    form = x.choice('form', ['G*k', 'k*G', 'G/k'])
    dt = dts(x)
    G = x.state('g', n, *shp, dt=dt)
    s = x.real('s')
    if kind == 'float':
        k = x.real('k')
        x.assume(k != 0)
    elif kind == 'zero':
        k = 0.
        x.assume(form != 'G/k')
    elif kind == 'int':
        k = 4                  # 1/4 is exact in floating point
    else:
        x.assume(form != 'G/k')
        k = x.array('k', (1,))
    R = {'G*k': lambda: G * k, 'k*G': lambda: k * G,
         'G/k': lambda: G / k}[form]()
    kk = k[0] if kind == '1-elem' else k
    N, D = tf(x, G, s)
    ref = (N, D * kk) if form == 'G/k' else (N * kk, D)
    check(x, R, ref, dt, s, 'scaled response')


@harness(HARNESSES)
def mul_matrix(x):
    """conformable matrices on either side"""
    n = x.choice('n', [0, 1, 2])
    s1, s2 = x.choice('shapes', [p for p in PAIRS if p != ((1, 1), (1, 1))])
    left = x.flag('matrix on the left')
    op = x.choice('op', ['mul', 'matmul'])
    ks = s1 if left else s2
    flat = x.flag('1D') if ks[0] == 1 and ks[1] > 1 else False
    dt = dts(x)
    s = x.real('s')
    K = x.array('k', ks)
    k = K[0] if flat else K
    if left:
        G = x.state('g', n, *s2, dt=dt)
        R = k * G if op == 'mul' else k @ G
        ref = r_mul(x, (K, x.np.ones(s1)), tf(x, G, s))
    else:
        G = x.state('g', n, *s1, dt=dt)
        R = G * k if op == 'mul' else G @ k
        ref = r_mul(x, tf(x, G, s), (K, x.np.ones(s2)))
    check(x, R, ref, dt, s, 'product with a matrix')


@harness(HARNESSES)
def siso_times_matrix(x):
    """a SISO model times a matrix is the matrix scaled by the model"""
    n = x.choice('n', [0, 1, 2])
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)])
    left = x.flag('matrix on the left')
    op = x.choice('op', ['mul', 'matmul'])
    dt = dts(x)
    s = x.real('s')
    G = x.state('g', n, 1, 1, dt=dt)
    K = x.array('k', shp)
    a, b = (K, G) if left else (G, K)
    R = a * b if op == 'mul' else a @ b
    ref = r_emul(r_bcast(x, tf(x, G, s), *shp), (K, x.np.ones(shp)))
    check(x, R, ref, dt, s, 'scaled matrix')


@harness(HARNESSES)
def divide(x):
    """k/G and H/G for invertible feedthrough"""
    n = x.choice('n', x.q([0, 1, 2], [0, 1, 2, 3]))
    k = x.choice('k', [1, 2])
    form = x.choice('form', ['1/G', 'r/G', 'H/G', 'K/G'])
    m = x.choice('h order', [0, 1]) if form == 'H/G' else 0
    x.assume(n + m <= x.q(2, 3))
    dt = dts(x)
    G = x.state('g', n, k, k, dt=dt)
    d = det(x, G.d.tolist()) if k > 1 else G.d[0, 0]
    x.assume(d != 0)
    s = x.real('s')
    if form == '1/G':
        R, lhs = 1 / G, (x.np.eye(k) * x.const(1), x.np.ones((k, k)))
    elif form == 'r/G':
        r = x.real('r')
        x.assume(r != 0)
        R, lhs = r / G, (x.np.eye(k) * r, x.np.ones((k, k)))
    elif form == 'K/G':
        K = x.array('k', (k, k))
        x.assume(K[0, 0] != 0)
        R, lhs = K / G, (K, x.np.ones((k, k)))
    else:
        H = x.state('h', m, k, k, dt=dt)
        R, lhs = H / G, tf(x, H, s)
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    # R * G == lhs
    P = r_mul(x, tf(x, R, s), tf(x, G, s))
    x.same(tuple(P[0].shape), (k, k), 'shape')
    x.eq(P[0] * lhs[1], lhs[0] * P[1], 'quotient times divisor')


@harness(HARNESSES)
def divide_singular(x):
    """no silent inverse for singular feedthrough or nonsquare models"""
    n = x.choice('n', [0, 1])
    what = x.choice('what', ['zero d', 'rank one d', 'wide', 'tall'])
    dt = dts(x)
    if what == 'zero d':
        G = x.state('g', n, 1, 1, dt=dt, d=False)
    elif what == 'rank one d':
        u, v = x.array('u', 2), x.array('v', 2)
        G = x.state('g', n, 2, 2, dt=dt,
                    d=x.mat([[u[i] * v[j] for j in range(2)] for i in range(2)]))
    else:
        G = x.state('g', n, *((1, 2) if what == 'wide' else (2, 1)), dt=dt)
    x.raises((ValueError, x.np.linalg.LinAlgError), lambda: 1 / G,
             'inverse rejected')


@harness(HARNESSES)
def mul_state_transfer(x):
    n = x.choice('n', [0, 1])
    deg = x.choice('deg', [0, 1])
    swap = x.flag('transfer first')
    op = x.choice('op', ['mul', 'matmul'])
    shp = x.choice('shape', x.q([(1, 1), (2, 1), (1, 2)],
                                [(1, 1), (2, 1), (1, 2), (2, 2)]))
    dt = dts(x)
    G = x.state('g', n, *shp, dt=dt)
    num = x.array('num', deg + 1)
    x.assume(num[0] != 0)
    den = x.array('den', deg + 1)
    x.assume(den[0] != 0)
    T = x.H.Transfer(num, den, dt=dt)
    s = x.real('s')
    a, b = (T, G) if swap else (G, T)
    R = a * b if op == 'mul' else a @ b
    ref = r_emul(tf(x, G, s), r_bcast(x, tf(x, T, s), *shp))
    check(x, R, ref, dt, s, 'mixed product')


@harness(HARNESSES)
def mul_state_transfer_mimo(x):
    """operand order matters for multichannel operands"""
    n = x.choice('n', [0, 1])
    dyn = x.flag('dynamic transfer')
    swap = x.flag('transfer first')
    s1, s2 = x.choice('shapes', [((1, 2), (2, 1)), ((2, 1), (1, 2)),
                                 ((2, 2), (2, 2)), ((1, 2), (2, 2))])
    dt = dts(x)
    s = x.real('s')
    gs, ts = (s2, s1) if swap else (s1, s2)
    G = x.state('g', n, *gs, dt=dt)
    k = x.array('num', ts)
    for e in k.reshape(-1):
        x.assume(e != 0)
    num = [[[k[i, j]] for j in range(ts[1])] for i in range(ts[0])]
    if dyn:
        T = x.H.Transfer(num, [1., x.real('p')], dt=dt)
    else:
        T = x.H.Transfer(num, dt=dt)
    a, b = (T, G) if swap else (G, T)
    R = a @ b
    check(x, R, r_mul(x, tf(x, a, s), tf(x, b, s)), dt, s, 'mixed product')


@harness(HARNESSES)
def siso_state_times_transfer(x):
    """a single channel state model scales every channel"""
    n = x.choice('n', [0, 1])
    dyn = x.flag('dynamic transfer')
    swap = x.flag('transfer first')
    op = x.choice('op', ['mul', 'matmul'])
    ts = x.choice('shape', [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)])
    dt = dts(x)
    s = x.real('s')
    G = x.state('g', n, 1, 1, dt=dt)
    k = x.array('num', ts)
    for e in k.reshape(-1):
        x.assume(e != 0)
    num = [[[k[i, j]] for j in range(ts[1])] for i in range(ts[0])]
    T = x.H.Transfer(num, [1., x.real('p')], dt=dt) if dyn else \
        x.H.Transfer(num, dt=dt)
    a, b = (T, G) if swap else (G, T)
    R = a * b if op == 'mul' else a @ b
    ref = r_emul(tf(x, T, s), r_bcast(x, tf(x, G, s), *ts))
    check(x, R, ref, dt, s, 'mixed product')


@harness(HARNESSES)
def larger(x):
    """orders 3 and 2, up to four channels, one free entry per matrix"""
    s1, s2 = x.choice('shapes', [((3, 3), (3, 2)), ((2, 4), (4, 1)), ((1, 3), (3, 3)),
                                 ((3, 2), (2, 3)), ((2, 3), (3, 2))])
    op = x.choice('op', ['model', 'array', 'array first', 'siso', 'siso transfer'])
    dt = dts(x)
    s = x.real('s')
    if op == 'array first':
        K, G = fixed_matrix(x, s1, 2, x.real('k')), larger_state(x, 'g', 3, *s2, dt)
        return check(x, K @ G, r_mul(x, (K, x.np.ones(s1)), tf(x, G, s)), dt, s, 'product')
    G = larger_state(x, 'g', 3, *s1, dt)
    g = tf(x, G, s)
    if op == 'array':
        K = fixed_matrix(x, s2, 2, x.real('k'))
        return check(x, G @ K, r_mul(x, g, (K, x.np.ones(s2))), dt, s, 'product')
    if op == 'model':
        H = larger_state(x, 'h', 2, *s2, dt)
        return check(x, G @ H, r_mul(x, g, tf(x, H, s)), dt, s, 'series response')
    H = larger_state(x, 'h', 2, 1, 1, dt) if op == 'siso' else \
        x.H.Transfer([x.const(2), x.real('n')], [x.const(1), x.const(3)], dt=dt)
    ref = r_emul(g, r_bcast(x, tf(x, H, s), *s1))
    check(x, G @ H, ref, dt, s, 'scaled response')


@harness(HARNESSES)
def same_object(x):
    """the square of a model, and the quotient of a model by itself"""
    n = x.choice('n', [0, 1, 2])
    k = x.choice('channels', [1, 2])
    op = x.choice('op', ['mul', 'matmul', 'div'])
    dt = dts(x)
    G = x.state('g', n, k, k, dt=dt)
    s = x.real('s')
    g = tf(x, G, s)
    if op == 'div':
        x.assume(k * n < 4)
        x.assume((det(x, G.d.tolist()) if k > 1 else G.d[0, 0]) != 0)
        check(x, G / G, (x.np.eye(k) * x.const(1), x.np.ones((k, k))), dt, s, 'identity')
    else:
        check(x, G * G if op == 'mul' else G @ G, r_mul(x, g, g), dt, s, 'square')
