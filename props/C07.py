"""Transfer to State conversion."""
from symx.api import *
from symx.tf import *
from props.C03 import poly, siso, mimo, dts

HARNESSES = []
FUNCTIONS = ['transfer_to_state', 'Transfer.validate_arguments',
             'haroldcompanion', 'haroldpolydiv', 'haroldpolymul', 'haroldlcm',
             'State.__init__']
BOUNDS = {
    'quick': 'single channel: degrees up to 3; multichannel: shapes up to 2x2 '
             'with first order entries (second order for 1x2/2x1), three '
             'columns or 2x2 with different poles with one free entry; '
             'coefficients and the frequency point symbolic; '
             'fixed entries of order up to 3 with up to twelve channels and '
             'a symbolic evaluation point',
    'thorough': 'single channel degrees up to 4; multichannel up to 2x2 with '
                'entries of degree 2, 2x3 with a common denominator'}
OPT = dict(svd='echelon')


def run(x, num, den, dt, what):
    """convert through one of the three call forms, compare with num/den"""
    s = x.real('s')
    form = x.choice('form', ['system', 'matrices', 'Matrices', 'tuple'])
    if form == 'tuple':
        x.assume(dt is None)
        G = x.H.Transfer(num, den)
        r = tf(x, G, s)
        A, B, C, D = x.H.transfer_to_state((num, den), output='matrices')
    else:
        G = x.H.Transfer(num, den, dt=dt)
        r = tf(x, G, s)
        if form != 'system':
            A, B, C, D = x.H.transfer_to_state(G, output=form)
        else:
            R = x.H.transfer_to_state(G)
            x.same(type(R).__name__, 'State', 'type')
            x.same(R.SamplingPeriod, dt, 'sampling period')
            x.same(R.shape, G.shape, 'shape')
            eq_tf(x, R, r, s, what)
            x.eq(tf(x, G, s)[0], r[0], 'argument unchanged')
            return
    if A is None or A.size == 0:
        N, d = D, x.const(1)
    else:
        N, d = tf_ss(x, A, B, C, D, s)
    x.same(tuple(N.shape), tuple(r[0].shape), 'shape')
    x.eq(N * r[1], r[0] * d, what)


@harness(HARNESSES, **OPT)
def siso_any_degree(x):
    nd = x.choice('num degree', x.q([0, 1, 2, 3], [0, 1, 2, 3, 4]))
    dd = x.choice('den degree', x.q([0, 1, 2, 3], [0, 1, 2, 3, 4]))
    x.assume(nd <= dd)
    dt = dts(x)
    num = x.array('n', nd + 1)           # leading zeros allowed
    run(x, num, poly(x, 'd', dd), dt, 'response')


@harness(HARNESSES, **OPT)
def siso_cancelling(x):
    """numerator proportional to the denominator"""
    dd = x.choice('den degree', [1, 2])
    dt = dts(x)
    den = poly(x, 'd', dd)
    run(x, den * x.real('k'), den, dt, 'response')


@harness(HARNESSES, **OPT)
def mimo_gain(x):
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2), (2, 3)])
    dt = dts(x)
    k, d = x.array('k', shp), x.array('d', shp)
    for e in d.reshape(-1):
        x.assume(e != 0)
    P, M = range(shp[0]), range(shp[1])
    x.assume(x.q(dt is None or shp != (2, 3), True))
    run(x, [[[k[i, j]] for j in M] for i in P],
        [[[d[i, j]] for j in M] for i in P], dt, 'gain')


@harness(HARNESSES, **OPT)
def mimo_common(x):
    """shared denominator given once or per entry; strictly proper and proper"""
    shp = x.choice('shape', x.q([(1, 2), (2, 1), (2, 2)],
                                [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]))
    dd = x.choice('den degree', x.q([1, 2] if min(shp) == 1 else [1], [1, 2]))
    proper = x.flag('proper')
    dt = dts(x)
    x.assume(x.q(dt is None or shp != (2, 2), dt is None or max(shp) < 3))
    den = poly(x, 'd', dd)
    P, M = range(shp[0]), range(shp[1])
    k = x.array('k', shp)
    num = [[[k[i, j]] for j in M] for i in P]
    if proper:
        for i in P:
            for j in M:
                num[i][j] = list(x.array('n%d%d' % (i, j), dd)) + [k[i, j]]
        # keep the case split small: the first leading entry is the free one
        for i in P:
            for j in M:
                if (i, j) != (0, 0):
                    x.assume(num[i][j][0] != 0)
                    x.assume(num[i][j][-1] * den[0] != num[i][j][0] * den[-1])
    run(x, num, list(den), dt, 'response')


@harness(HARNESSES, path_s=40, **OPT)
def mimo_three(x):
    """three columns or rows with their own denominators"""
    shp = x.choice('shape', [(3, 3), (2, 3), (3, 2), (1, 3), (3, 1)])
    by = x.choice('denominator by', ['column', 'row'])
    dt = dts(x)
    x.assume(x.q(dt is None or shp == (3, 3), True))
    P, M = range(shp[0]), range(shp[1])
    q = [x.real('q%d' % i) for i in range(3)]
    for i in range(3):
        for j in range(i):
            x.assume(q[i] != q[j])
    num = [[[x.const((2 * i + 3 * j + i * j) % 5 + 1)] for j in M] for i in P]
    num[-1][0] = [x.pos('k')]
    den = [[[x.const(1), q[j if by == 'column' else i]] for j in M] for i in P]
    run(x, num, den, dt, 'response')


@harness(HARNESSES, path_s=40, **OPT)
def mimo_distinct(x):
    """different denominators per entry: least common multiples"""
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    kind = x.choice('entries', ['first order', 'one static', 'one zero',
                                'second order', 'proper'])
    dt = dts(x)
    small = x.q(shp == (2, 2), False)
    x.assume(dt is None or not small)
    P, M = range(shp[0]), range(shp[1])
    k = x.array('k', shp)
    for e in k.reshape(-1):
        x.assume(e != 0)
    num = [[[k[i, j]] for j in M] for i in P]
    den = [[[x.const(1 + i + j), x.real('p%d%d' % (i, j))] for j in M] for i in P]
    if small:
        # one free pole and gain
        for i in P:
            for j in M:
                if (i, j) != (0, 1):
                    num[i][j] = [x.const(i + j + 1)]
                    den[i][j][1] = x.const(3 * i + j + 2)
    if kind == 'one static':
        den[-1][-1] = [x.const(2)]
    elif kind == 'one zero':
        num[-1][-1] = [0.]
    elif kind == 'second order':
        den[0][0] = [x.const(2), x.real('q0'), x.real('q1')]
    elif kind == 'proper':
        num[-1][-1] = [x.const(3), k[-1, -1]]
    run(x, num, den, dt, 'response')


@harness(HARNESSES, path_s=40, **OPT)
def mimo_shared_factors(x):
    """denominators with common factors"""
    shp = x.choice('shape', [(1, 2), (2, 1)])
    dt = dts(x)
    p, q = x.real('p'), x.real('q')
    k = x.array('k', 2)
    x.assume(k[0] != 0)
    x.assume(k[1] != 0)
    d1, d2 = [x.const(1), p], [x.const(1), p + q, p * q]
    n1, n2 = [k[0]], [k[1]]
    if shp == (1, 2):
        run(x, [[n1, n2]], [[d1, d2]], dt, 'response')
    else:
        run(x, [[n1], [n2]], [[d1], [d2]], dt, 'response')


@harness(HARNESSES, **OPT)
def mimo_full_cancellation(x):
    """an entry whose numerator is a multiple of its denominator"""
    shp = x.choice('shape', [(1, 2), (2, 1)])
    other = x.choice('other entry', ['static', 'dynamic', 'same'])
    dt = dts(x)
    k, p, q = x.real('k'), x.real('p'), x.real('q')
    x.assume(k != 0)
    n1, d1 = [k, k * p], [x.const(1), p]
    if other == 'static':
        n2, d2 = [x.real('c')], [x.const(1)]
    elif other == 'dynamic':
        n2, d2 = [x.const(2)], [x.const(1), q]
    else:
        n2, d2 = n1, d1
    if shp == (1, 2):
        run(x, [[n1, n2]], [[d1, d2]], dt, 'response')
    else:
        run(x, [[n1], [n2]], [[d1], [d2]], dt, 'response')


@harness(HARNESSES)
def state_passthrough(x):
    G = x.state('g', x.choice('n', [0, 1]), *x.choice('shape', [(1, 1), (2, 2)]),
                dt=dts(x))
    R = x.H.transfer_to_state(G)
    x.same(R.SamplingPeriod, G.SamplingPeriod, 'sampling period')
    s = x.real('s')
    eq_tf(x, R, tf(x, G, s), s, 'response')
    x.raises(ValueError, lambda: x.H.transfer_to_state(3.), 'non-model rejected')
    x.raises(ValueError, lambda: x.H.transfer_to_state(G, output='junk'),
             'bad output rejected')


@harness(HARNESSES, float_consts=True, path_s=60)
def larger(x):
    """fixed entries of order 1 to 3 without common poles, up to twelve channels"""
    p, m = x.choice('shape', [(3, 2), (2, 3), (1, 4), (2, 2), (3, 3), (3, 4), (4, 3)])
    dt = dts(x)
    kind = x.choice('entries', ['strictly proper', 'proper', 'shared poles', 'with gains',
                                'along'] if p * m <= 6 else ['along', 'with gains'])
    num, den = [], []
    for i in range(p):
        num.append([])
        den.append([])
        for j in range(m):
            e = (2 * i + 3 * j) % 4
            d = [1., 1.5 + .5 * j + i]
            if kind == 'shared poles':
                d = [1., 1.5 + (.5 * j if p <= m else i)]
            elif e == 2:
                d = [1., 1. + .25 * j, 2. + .5 * i]
            elif e == 3:
                d = list(np.convolve([1., .5 + .25 * i], [1., .5, 1. + .125 * j]))
            elif p * m > 6:
                d = [1., 1.5]
            if kind == 'along':
                # one denominator per column (row), of different degrees
                k = j if p >= m else i
                d = [[-1., -2.], [2., 1., 4.], [1., 2., 2.5, 1.], [1., 3.]][k]
            n = [1. + i - 2. * j] + [.5 * (i + j)] * (len(d) - 2)
            if kind == 'with gains' and (i + 2 * j) % 3 != 1:
                n, d = [1. + i - j], [(-2.) ** (i + 1)]
            if kind == 'proper' and (i + j) % 2 == 0:
                n = [.5 + i] + n
            num[-1].append(n)
            den[-1].append(d)
    G = x.H.Transfer(num, den, dt=dt)
    R = x.H.transfer_to_state(G)
    s = x.real('s', Fraction(-1, 2), Fraction(1, 2))
    x.same((type(R).__name__, R.SamplingPeriod, tuple(R.shape)), ('State', dt, (p, m)), 'form')
    N, d = tf_ss(x, *(x.mat([[x.const(Fraction(float(v))) for v in r] for r in M])
                      for M in (R.a, R.b, R.c, R.d)), s)
    for i in range(p):
        for j in range(m):
            a, b = (polyval(x, [Fraction(v) for v in q[i][j]], s) for q in (num, den))
            e, t = N[i, j] * b - a * d, Fraction(1, 1000) * d
            x.true((e <= t) & (-e <= t) | (e >= t) & (-e >= t), 'response')
