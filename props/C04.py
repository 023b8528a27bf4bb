"""Transfer models: products and quotients."""
from symx.api import *
from symx.tf import *
from props.C03 import poly, siso, mimo, fixed, check, dts, SHAPES

HARNESSES = []
FUNCTIONS = ['Transfer.__mul__', 'Transfer.__rmul__', 'Transfer.__matmul__',
             'Transfer.__rmatmul__', 'Transfer.__truediv__',
             'Transfer.__rtruediv__', 'Transfer.__getitem__',
             'Transfer.__init__', 'Transfer.validate_arguments',
             'haroldpolymul', 'haroldlcm', 'transfer_to_state/state_to_transfer '
             '(multichannel inverse)']
BOUNDS = {
    'quick': 'degrees 0..2 single channel, first order entries multichannel, '
             'shapes up to 2x2; all coefficients and the frequency point '
             'symbolic reals; '
             'second order entries with up to six channels and one free '
             'gain',
    'thorough': 'degrees 0..2, shapes up to 2x2; all coefficients and the '
                'frequency point symbolic reals'}
OPT = dict(svd='echelon')


@harness(HARNESSES, **OPT)
def mul_siso(x):
    d1 = x.choice('deg1', [(0, 0), (0, 1), (1, 1), (1, 2)])
    d2 = x.choice('deg2', [(0, 0), (0, 1), (1, 1)])
    op = x.choice('op', ['mul', 'matmul'])
    dt = dts(x)
    G, H = siso(x, 'g', *d1, dt), siso(x, 'h', *d2, dt)
    s = x.real('s')
    R = G * H if op == 'mul' else G @ H
    check(x, R, r_emul(tf(x, G, s), tf(x, H, s)), dt, s, 'product')


@harness(HARNESSES, **OPT)
def mul_zero(x):
    """zero factors give the zero model"""
    form = x.choice('form', ['0*G', 'G*0', 'Z*G', 'G*Z', 'M*Z', 'Z*M'])
    dt = dts(x)
    G = siso(x, 'g', 1, 1, dt)
    Z = x.H.Transfer(0, [1, 2], dt=dt)
    M = mimo(x, 'm', (1, 2), 'zero', dt)
    s = x.real('s')
    R = {'0*G': lambda: 0 * G, 'G*0': lambda: G * 0., 'Z*G': lambda: Z * G,
         'G*Z': lambda: G * Z, 'M*Z': lambda: M * Z, 'Z*M': lambda: Z * M}[form]()
    shp = (1, 2) if 'M' in form else (1, 1)
    check(x, R, (x.np.zeros(shp) * x.const(1), x.np.ones(shp)), dt, s, 'zero')


@harness(HARNESSES, **OPT)
def emul_mimo(x):
    """elementwise product of equal shapes"""
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    k1 = x.choice('first', ['gain', 'common', 'mixed'])
    k2 = x.choice('second', ['gain', 'common', 'zero'])
    dt = dts(x)
    G, H = mimo(x, 'g', shp, k1, dt), mimo(x, 'h', shp, k2, dt)
    s = x.real('s')
    check(x, G * H, r_emul(tf(x, G, s), tf(x, H, s)), dt, s, 'entry products')


@harness(HARNESSES, **OPT)
def mul_broadcast(x):
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    k1 = x.choice('mimo', ['gain', 'common', 'zero'])
    d2 = x.choice('siso', [(0, 0), (0, 1), (1, 1)])
    swap = x.flag('siso first')
    op = x.choice('op', ['mul', 'matmul'])
    dt = dts(x)
    M, G = mimo(x, 'g', shp, k1, dt), siso(x, 'h', *d2, dt)
    s = x.real('s')
    a, b = (G, M) if swap else (M, G)
    R = a * b if op == 'mul' else a @ b
    check(x, R, r_emul(tf(x, M, s), r_bcast(x, tf(x, G, s), *shp)), dt, s,
          'scaled entries')


@harness(HARNESSES, **OPT)
def mul_scalar(x):
    shp = x.choice('shape', SHAPES)
    dyn = x.flag('dynamic')
    kind = x.choice('operand', ['float', 'zero', 'int', '1-elem', '1x1'])
    form = x.choice('form', ['G*k', 'k*G', 'G/k', 'G@k', 'k@G'])
    dt = dts(x)
    G = (siso(x, 'g', 1 if dyn else 0, 1 if dyn else 0, dt) if shp == (1, 1)
         else mimo(x, 'g', shp, 'common' if dyn else 'gain', dt))
    s = x.real('s')
    if kind == 'float':
        k = kk = x.real('k')
        x.assume(k != 0)
    elif kind == 'zero':
        k = kk = 0.
        x.assume(form != 'G/k')
    elif kind == 'int':
        k = kk = 4
    else:
        x.assume(form != 'G/k')
        k = x.array('k', (1,) if kind == '1-elem' else (1, 1))
        kk = k.reshape(-1)[0]
    R = {'G*k': lambda: G * k, 'k*G': lambda: k * G, 'G/k': lambda: G / k,
         'G@k': lambda: G @ k, 'k@G': lambda: k @ G}[form]()
    N, D = tf(x, G, s)
    check(x, R, (N, D * kk) if form == 'G/k' else (N * kk, D), dt, s, 'scaled')


@harness(HARNESSES, **OPT)
def mul_matrix(x):
    """matrix products with a conformable array, elementwise with * """
    kind = x.choice('kind', ['gain', 'common'])
    form = x.choice('form', ['G@K', 'K@G', 'G*K', 'K*G'])
    s1, s2 = x.choice('shapes', [((1, 2), (2, 1)), ((2, 1), (1, 2)),
                                 ((2, 2), (2, 2)), ((1, 2), (2, 2)),
                                 ((2, 2), (2, 1))])
    dt = dts(x)
    s = x.real('s')
    if '*' in form:
        G, K = mimo(x, 'g', s1, kind, dt), x.array('k', s1)
        R = G * K if form == 'G*K' else K * G
        ref = r_emul(tf(x, G, s), (K, x.np.ones(s1)))
    elif form == 'G@K':
        G, K = mimo(x, 'g', s1, kind, dt), x.array('k', s2)
        R = G @ K
        ref = r_mul(x, tf(x, G, s), (K, x.np.ones(s2)))
    else:
        K, G = x.array('k', s1), mimo(x, 'g', s2, kind, dt)
        R = K @ G
        ref = r_mul(x, (K, x.np.ones(s1)), tf(x, G, s))
    check(x, R, ref, dt, s, 'product with a matrix')


@harness(HARNESSES, **OPT)
def siso_times_matrix(x):
    deg = x.choice('deg', [(0, 0), (0, 1), (1, 1)])
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    form = x.choice('form', ['G*K', 'K*G', 'G@K', 'K@G'])
    dt = dts(x)
    G, K = siso(x, 'g', *deg, dt), x.array('k', shp)
    s = x.real('s')
    R = {'G*K': lambda: G * K, 'K*G': lambda: K * G, 'G@K': lambda: G @ K,
         'K@G': lambda: K @ G}[form]()
    check(x, R, r_emul(r_bcast(x, tf(x, G, s), *shp), (K, x.np.ones(shp))),
          dt, s, 'scaled matrix')


@harness(HARNESSES, **OPT)
def vec1d(x):
    """a one dimensional array acts as a row"""
    form = x.choice('form', ['G*v', 'v*G', 'v@G', 'G@v'])
    kind = x.choice('kind', ['gain', 'common'])
    dt = dts(x)
    s = x.real('s')
    v = x.array('v', 2)
    V = (v.reshape(1, 2), x.np.ones((1, 2)))
    if form in ('G*v', 'v*G'):
        G = mimo(x, 'g', (1, 2), kind, dt)
        R = G * v if form == 'G*v' else v * G
        ref = r_emul(tf(x, G, s), V)
    elif form == 'v@G':
        G = mimo(x, 'g', (2, 1), kind, dt)
        R = v @ G
        ref = r_mul(x, V, tf(x, G, s))
    else:
        G = mimo(x, 'g', (2, 1), kind, dt)
        R = G @ v
        ref = r_mul(x, tf(x, G, s), V)
    check(x, R, ref, dt, s, 'row product')


@harness(HARNESSES, path_s=40, **OPT)
def matmul_mimo(x):
    s1, s2 = x.choice('shapes', x.q([((1, 2), (2, 1)), ((2, 1), (1, 2)),
                                     ((1, 2), (2, 2))],
                                    [((1, 2), (2, 1)), ((2, 1), (1, 2)),
                                     ((1, 2), (2, 2)), ((2, 2), (2, 1)),
                                     ((2, 2), (2, 2))]))
    k1 = x.choice('first', ['gain', 'common'])
    k2 = x.choice('second', ['gain', 'common'])
    dt = dts(x)
    G, H = mimo(x, 'g', s1, k1, dt), mimo(x, 'h', s2, k2, dt)
    s = x.real('s')
    check(x, G @ H, r_mul(x, tf(x, G, s), tf(x, H, s)), dt, s, 'matrix product')


@harness(HARNESSES, **OPT)
def divide_siso(x):
    form = x.choice('form', ['1/G', 'r/G', 'H/G', 'K/G'])
    deg = x.choice('deg', [0, 1, 2])
    dt = dts(x)
    G = siso(x, 'g', deg, deg, dt)
    s = x.real('s')
    one = x.np.ones((1, 1))
    if form == '1/G':
        R, lhs = 1 / G, (one * x.const(1), one)
    elif form == 'r/G':
        r = x.real('r')
        R, lhs = r / G, (one * r, one)
    elif form == 'K/G':
        K = x.array('k', (1, 2))
        R, lhs = K / G, (K, x.np.ones((1, 2)))
    else:
        h = x.choice('hdeg', [(0, 1), (1, 1), (0, 0)])
        H = siso(x, 'h', *h, dt)
        R, lhs = H / G, tf(x, H, s)
    N, D = tf(x, G, s)
    shp = lhs[0].shape
    check(x, R, r_emul(lhs, r_bcast(x, (D, N), *shp)), dt, s, 'quotient')


@harness(HARNESSES, **OPT)
def divide_noncausal(x):
    form = x.choice('form', ['1/G', 'H/G', 'nonsquare', 'singular'])
    dt = dts(x)
    G = siso(x, 'g', *x.choice('deg', [(0, 1), (0, 2), (1, 2)]), dt)
    bad = (ValueError, x.np.linalg.LinAlgError)
    if form == '1/G':
        x.raises(bad, lambda: 1 / G, 'noncausal inverse rejected')
    elif form == 'H/G':
        H = siso(x, 'h', 1, 1, dt)
        x.raises(bad, lambda: H / G, 'noncausal quotient rejected')
    elif form == 'nonsquare':
        M = mimo(x, 'm', (1, 2), 'common', dt)
        x.raises(bad, lambda: 1 / M, 'nonsquare inverse rejected')
    else:
        M = mimo(x, 'm', (2, 2), 'common', dt)
        x.raises(bad, lambda: 1 / M, 'singular feedthrough rejected')


@harness(HARNESSES, **OPT)
def divide_mimo_gain(x):
    """inverse of a multichannel gain is the matrix inverse"""
    form = x.choice('form', ['1/G', 'r/G', 'K/G', 'H/G'])
    dt = dts(x)
    k = x.array('k', (2, 2))
    x.assume(k[0, 0] * k[1, 1] != k[0, 1] * k[1, 0])
    G = x.H.Transfer([[[k[i, j]] for j in range(2)] for i in range(2)], dt=dt)
    one = x.np.ones((2, 2))
    s = x.real('s')
    if form == '1/G':
        R, lhs = 1 / G, x.np.eye(2) * x.const(1)
    elif form == 'r/G':
        r = x.real('r')
        R, lhs = r / G, x.np.eye(2) * r
    elif form == 'K/G':
        lhs = x.array('l', (2, 2))
        R = lhs / G
    else:
        lhs = x.array('l', (2, 2))
        for e in lhs.reshape(-1):
            x.assume(e != 0)
        H = x.H.Transfer([[[lhs[i, j]] for j in range(2)] for i in range(2)], dt=dt)
        R = H / G
    x.same(type(R).__name__, 'Transfer', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    P = r_mul(x, tf(x, R, s), (k, one))
    x.eq(P[0], lhs * P[1], 'quotient times divisor')


@harness(HARNESSES, svd='echelon', eig='exact', tzeros='strict', path_s=40)
def divide_mimo_dynamic(x):
    """inverse of a multichannel model with invertible feedthrough"""
    dt = dts(x)
    k = x.array('k', (2, 2))
    x.assume(k[0, 0] * k[1, 1] != k[0, 1] * k[1, 0])
    form = x.choice('entries', ['diagonal', 'triangular'])
    q, p = x.real('q'), x.real('p')
    x.assume(q != p)
    z = x.const(0)
    # only the first entry is dynamic
    num = [[[k[0, 0], k[0, 0] * q], [z]], [[k[1, 0]], [k[1, 1]]]]
    if form == 'diagonal':
        num[1][0] = [z]
    den = [[[1., p], [1.]], [[1.], [1.]]]
    x.assume(k[0, 0] != 0)
    x.assume(k[1, 1] != 0)
    G = x.H.Transfer(num, den, dt=dt)
    s = x.real('s')
    R = 1 / G
    x.same(R.SamplingPeriod, dt, 'sampling period')
    x.same(R.shape, (2, 2), 'shape')
    P = r_mul(x, tf(x, R, s), tf(x, G, s))
    x.eq(P[0], x.np.eye(2) * P[1], 'quotient times divisor')


@harness(HARNESSES, **dict(OPT, float_consts=True))
def larger(x):
    """second order entries with zero coefficients, up to six channels"""
    op = x.choice('op', ['*', '@', 'array', 'siso'])
    shp = x.choice('shape', [(1, 3), (2, 2), (3, 2)])
    dt = dts(x)
    s = x.real('s')
    G = fixed(x, 'g', shp, dt)
    g = tf(x, G, s)
    if op == '*':
        H = fixed(x, 'h', shp, dt, 1)
        R, ref = G * H, r_emul(g, tf(x, H, s))
    elif op == '@':
        H = fixed(x, 'h', shp[::-1], dt, 1)
        R, ref = G @ H, r_mul(x, g, tf(x, H, s))
    elif op == 'siso':
        H = fixed(x, 'h', (1, 1), dt, 1)
        R, ref = G * H, r_emul(g, r_bcast(x, tf(x, H, s), *shp))
    else:
        K = x.array('m', shp, -4, 4)
        R, ref = G * K, r_emul(g, (K, x.np.ones(shp)))
    check(x, R, ref, dt, s, 'products')


@harness(HARNESSES, **OPT)
def same_object(x):
    """products of a model with itself"""
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    order = x.choice('order', [0, 1, 2])
    op = x.choice('op', ['mul', 'matmul'])
    x.assume(op == 'mul' or shp[0] == shp[1])
    dt = dts(x)
    G = fixed(x, 'g', shp, dt, order) if shp != (1, 1) else siso(x, 'g', order, order, dt)
    s = x.real('s')
    g = tf(x, G, s)
    if op == 'mul':
        check(x, G * G, r_emul(g, g), dt, s, 'product')
    else:
        check(x, G @ G, r_mul(x, g, g), dt, s, 'matrix product')
