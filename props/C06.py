"""Feedback interconnections."""
from symx.api import *
from symx.tf import *
from props.C03 import siso, mimo, fixed

HARNESSES = []
FUNCTIONS = ['feedback', '_check_for_feedback_ic', '_check_for_int_float_array',
             '_check_equal_dts', 'matrix_slice', 'transfer_to_state',
             'state_to_transfer (static)', 'State.__init__']
BOUNDS = {
    'quick': 'orders 0..2 per model (sum <= 3), shapes up to 2x2 (1x2 against '
             '2x1); every matrix entry and the frequency point symbolic. '
             'Negative feedback with feedthrough in both models is a known '
             'finding and outside the positive claim; '
             'orders 3 and 2 with up to six channels and one free entry '
             'per matrix, also against transfers, gains, arrays and numbers',
    'thorough': 'orders 0..3 per model (sum <= 4), shapes up to 2x2'}


def closed_loop(x, R, g, h, sign, s, shp, label):
    """R (I + sign' H G) = G with rational data, sign' = +1 for negative"""
    k = 1 if sign else -1
    G, d1 = r_common(x, g)
    H, d2 = r_common(x, h)
    N, d3 = r_common(x, tf(x, R, s))
    p, m = shp
    x.same(tuple(N.shape), (p, m), label + ' shape')
    I = x.np.eye(m) * x.const(1)
    # N/d3 (I d1 d2 + k H G) / (d1 d2) = G/d1
    x.eq(N @ (I * (d1 * d2) + (H @ G) * k), G * (d2 * d3), label)


def pick(x, n, shp, name, dt, d):
    return x.state(name, n, *shp, dt=dt, d=d)


@harness(HARNESSES)
def strictly_proper_loop(x):
    """at least one of the two models has no feedthrough"""
    n1 = x.choice('n1', x.q([0, 1, 2], [0, 1, 2, 3]))
    n2 = x.choice('n2', [0, 1, 2])
    x.assume(0 < n1 + n2 <= x.q(3, 4))
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    which = x.choice('no feedthrough in', ['G', 'H'])
    x.assume((n1 if which == 'G' else n2) > 0)
    neg = x.choice('negative', [True, False])
    dt = x.choice('dt', [None, 0.5])
    G = pick(x, n1, shp, 'g', dt, False if which == 'G' else True)
    H = pick(x, n2, shp[::-1], 'h', dt, False if which == 'H' else True)
    s = x.real('s')
    R = x.H.feedback(G, H, negative=neg)
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    x.true(R.NumberOfStates <= n1 + n2, 'order')
    closed_loop(x, R, tf(x, G, s), tf(x, H, s), neg, s, shp, 'closed loop')


@harness(HARNESSES)
def positive_feedthrough_loop(x):
    n1 = x.choice('n1', [0, 1, 2])
    n2 = x.choice('n2', [0, 1])
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    dt = x.choice('dt', [None, 0.5])
    x.assume(x.q(n1 + n2 <= (1 if shp == (2, 2) else 2), True))
    G, H = x.state('g', n1, *shp, dt=dt), x.state('h', n2, *shp[::-1], dt=dt)
    m = shp[1]
    delta = x.np.eye(m) * x.const(1) - H.d @ G.d
    dd = det(x, delta.tolist()) if m > 1 else delta[0, 0]
    if x.branch(dd == 0):
        x.raises(ValueError, lambda: x.H.feedback(G, H, negative=False),
                 'ill-posed loop rejected')
        return
    s = x.real('s')
    R = x.H.feedback(G, H, negative=False)
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    closed_loop(x, R, tf(x, G, s), tf(x, H, s), False, s, shp, 'closed loop')


@harness(HARNESSES)
def static_zero_loop(x):
    """static loops in which one side is zero"""
    which = x.choice('zero', ['G', 'H', 'both'])
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 2)])
    neg = x.choice('negative', [True, False])
    dt = x.choice('dt', [None, 0.5])
    z = False
    G = x.state('g', 0, *shp, dt=dt, d=z if which != 'H' else True)
    H = x.state('h', 0, *shp[::-1], dt=dt, d=z if which != 'G' else True)
    R = x.H.feedback(G, H, negative=neg)
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    x.same(R.NumberOfStates, 0, 'static')
    x.eq(R.d, G.d, 'loop gain zero leaves the plant')


@harness(HARNESSES)
def gain_operands(x):
    """scalars and arrays as one of the two models"""
    kind = x.choice('kind', ['scalar', '1x1', 'array', 'int', 'list'])
    swap = x.flag('gain in the forward path')
    neg = x.choice('negative', [True, False])
    dt = x.choice('dt', [None, 0.5])
    n = x.choice('n', [1, 2])
    shp = (2, 2) if kind in ('array', 'list') else (1, 1)
    G = x.state('g', n, *shp, dt=dt, d=False)
    s = x.real('s')
    if kind == 'scalar':
        k = x.real('k')
        K = x.mat([[k]])
    elif kind == 'int':
        k = 3
        K = x.mat([[x.const(3)]])
    elif kind == 'list':
        k = [[1., 2.], [3., 5.]]
        K = x.mat([[x.const(v) for v in r] for r in k])
    else:
        k = K = x.array('k', shp)
    kk = (K, x.np.ones(shp))
    g = tf(x, G, s)
    if swap:
        R = x.H.feedback(k, G, negative=neg)
        closed_loop(x, R, kk, g, neg, s, shp, 'closed loop')
    else:
        R = x.H.feedback(G, k, negative=neg)
        closed_loop(x, R, g, kk, neg, s, shp, 'closed loop')
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')


@harness(HARNESSES)
def mixed_operands(x):
    """a Transfer on one side, State on the other"""
    first = x.flag('transfer in the forward path')
    neg = x.choice('negative', [True, False])
    dt = x.choice('dt', [None, 0.5])
    T = siso(x, 't', 0, x.choice('deg', [1, 2]), dt)
    G = x.state('g', x.choice('n', [0, 1]), 1, 1, dt=dt)
    s = x.real('s')
    a, b = (T, G) if first else (G, T)
    R = x.H.feedback(a, b, negative=neg)
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    closed_loop(x, R, tf(x, a, s), tf(x, b, s), neg, s, (1, 1), 'closed loop')


@harness(HARNESSES, eig='exact', tzeros='strict')
def transfer_operands(x):
    """two Transfer models give a Transfer"""
    neg = x.choice('negative', [True, False])
    dt = x.choice('dt', [None, 0.5])
    a = x.choice('kinds', ['dyn-gain', 'gain-dyn', 'dyn-scalar',
                           'scalar-dyn'])
    T = siso(x, 't', 0, 1, dt)
    K = siso(x, 'k', 0, 0, dt)
    s = x.real('s')
    if a == 'dyn-gain':
        G, H = T, K
    elif a == 'gain-dyn':
        G, H = K, T
    elif a == 'dyn-scalar':
        G, H = T, x.real('k')
    else:
        G, H = x.real('k'), T
    R = x.H.feedback(G, H, negative=neg)
    x.same(type(R).__name__, 'Transfer', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    g, h = [(x.mat([[v]]), x.np.ones((1, 1))) if 'scalar' in k
            else tf(x, v, s) for v, k in zip((G, H), a.split('-'))]
    closed_loop(x, R, g, h, neg, s, (1, 1), 'closed loop')


@harness(HARNESSES, eig='exact', tzeros='strict')
def transfer_dynamic(x):
    """two dynamic Transfer models; the closed loop has the poles r1, r2"""
    neg = x.choice('negative', [True, False])
    dt = x.choice('dt', [None, 0.5])
    r1, r2, q, h = x.real('r1'), x.real('r2'), x.real('q'), x.pos('h')
    x.assume(r1 != r2)
    p = -r1 - r2 - q
    k = (r1 * r2 - p * q) / h
    x.assume(k != 0)
    if not neg:
        k = -k
    G = x.H.Transfer([k], [x.const(1), p], dt=dt)
    H = x.H.Transfer([h], [x.const(1), q], dt=dt)
    x.hook('eigvals', lambda A, *b: x.vec([r1, r2])
           if x.sym and A.shape == (2, 2) else None)
    s = x.real('s')
    R = x.H.feedback(G, H, negative=neg)
    x.same(type(R).__name__, 'Transfer', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    closed_loop(x, R, tf(x, G, s), tf(x, H, s), neg, s, (1, 1), 'closed loop')


@harness(HARNESSES)
def transfer_static(x):
    """static Transfer loop, positive feedback"""
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    dt = x.choice('dt', [None, 0.5])
    G, H = mimo(x, 'g', shp, 'gain', dt), mimo(x, 'h', shp[::-1], 'gain', dt)
    if shp == (1, 1):
        G, H = siso(x, 'g', 0, 0, dt), siso(x, 'h', 0, 0, dt)
    s = x.real('s')
    g, h = tf(x, G, s), tf(x, H, s)
    m = shp[1]
    gg, d1 = r_common(x, g)
    hh, d2 = r_common(x, h)
    delta = x.np.eye(m) * (d1 * d2) - hh @ gg
    x.assume((det(x, delta.tolist()) if m > 1 else delta[0, 0]) != 0)
    R = x.H.feedback(G, H, negative=False)
    x.same(type(R).__name__, 'Transfer', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    closed_loop(x, R, g, h, False, s, shp, 'closed loop')


@harness(HARNESSES)
def negative_feedthrough_static(x):
    """the documented loop D/(1+DN) for two static gains"""
    R = x.H.feedback(x.H.State(5.), x.H.State(5.))
    x.eq(R.d * 26, x.mat([[x.const(5)]]), 'negative static loop')


@harness(HARNESSES)
def negative_feedthrough_dynamic(x):
    """the documented loop with feedthrough in both models"""
    G = x.H.State(-1., 1., 1., 1.)
    H = x.H.State(-2., 1., 1., 2.)
    s = x.const(3)
    R = x.H.feedback(G, H)
    closed_loop(x, R, tf(x, G, s), tf(x, H, s), True, s, (1, 1),
                'negative loop with feedthrough')


@harness(HARNESSES)
def negative_illposed(x):
    """an ill-posed negative loop: 1 + DN = 0"""
    G, H = x.H.State(-1., 1., 1., 1.), x.H.State(-1., 1., 1., -1.)
    x.raises(ValueError, lambda: x.H.feedback(G, H), 'ill-posed loop rejected')


@harness(HARNESSES)
def shape_mismatch(x):
    s1, s2 = x.choice('shapes', [((1, 2), (1, 1)), ((1, 2), (1, 2)),
                                 ((2, 2), (1, 1)), ((2, 1), (2, 1)),
                                 ((1, 1), (2, 2))])
    n1, n2 = x.choice('orders', [(0, 0), (1, 0), (0, 1), (1, 1)])
    G, H = x.state('g', n1, *s1), x.state('h', n2, *s2)
    x.raises(ValueError, lambda: x.H.feedback(G, H), 'shapes rejected')


@harness(HARNESSES)
def larger(x):
    """orders 3 and 2, up to six channels, one free entry per matrix"""
    shp = x.choice('shape', [(3, 1), (1, 3), (2, 3), (3, 2)])
    which = x.choice('no feedthrough in', ['G', 'H', 'neither'])
    neg = x.choice('negative', [True, False])
    x.assume(not (neg and which == 'neither'))
    static = x.choice('static', ['G', 'H', 'none'])
    x.assume(static != which)
    dt = x.choice('dt', [None, 0.5])
    n1 = 0 if static == 'G' else 3 if 1 in shp else 2
    n2 = 0 if static == 'H' else 2 if 1 in shp else 1
    G = larger_state(x, 'g', n1, *shp, dt, which != 'G')
    H = larger_state(x, 'h', n2, *shp[::-1], dt, which != 'H')
    if which == 'neither':
        M = x.np.eye(shp[1]) * x.const(1) - H.d @ G.d
        x.assume((det(x, M.tolist()) if shp[1] > 1 else M[0, 0]) != 0)
    s = x.real('s')
    R = x.H.feedback(G, H, negative=neg)
    x.same(R.SamplingPeriod, dt, 'sampling period')
    closed_loop(x, R, tf(x, G, s), tf(x, H, s), neg, s, shp, 'closed loop')


@harness(HARNESSES)
def larger_mixed(x):
    """a fixed multichannel Transfer against a State model or an array"""
    shp = x.choice('shape', [(2, 2), (3, 1), (1, 3), (2, 3)])
    first = x.flag('transfer in the forward path')
    neg = x.choice('negative', [True, False])
    dt = x.choice('dt', [None, 0.5])
    T = fixed(x, 't', shp if first else shp[::-1], dt, x.choice('order', [1, 2]))
    H = larger_state(x, 'h', 2, *(shp[::-1] if first else shp), dt, False)
    a, b = (T, H) if first else (H, T)
    s = x.real('s')
    R = x.H.feedback(a, b, negative=neg)
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    closed_loop(x, R, tf(x, a, s), tf(x, b, s), neg, s, shp, 'closed loop')
