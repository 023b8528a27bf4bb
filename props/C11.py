"""Rational (linear fractional) discretisation methods and their inverses."""
from symx.api import *
from symx.tf import *
from props.C03 import siso, mimo

HARNESSES = []
FUNCTIONS = ['discretize', '_discretize', 'undiscretize', '_undiscretize',
             '_simple_lft_connect', 'DiscretizedWith', 'DiscretizationMatrix',
             'PrewarpFrequency']
BOUNDS = {
    'quick': 'orders 1..3 (1..2 for the inverse conversions), shapes up to 2x2, every model entry, the sampling '
             'period, the interconnection matrix, the prewarp frequency and '
             'the evaluation point symbolic; transfer models of order 1; '
             'order 4 with up to six channels and one free entry per '
             'matrix',
    'thorough': 'also two inputs at order 3, inverses of order 3 (not lft)'}
ASSUMPTIONS = ['tan is an uninterpreted function, positive on (0, pi/2)']

TUSTIN = ['tustin', 'bilinear']
FWD = ['>>', 'forward euler', 'forward difference', 'forward rectangular']
BWD = ['<<', 'backward euler', 'backward difference', 'backward rectangular']
FAMILY = {**{k: 't' for k in TUSTIN}, **{k: 'f' for k in FWD},
          **{k: 'b' for k in BWD}}


def period(x):
    """dt = h^2, so that square roots of the period stay rational"""
    return (lambda h: h * h)(x.pos('h'))


def zmap(x, fam, s, dt):
    """numerator and denominator of z as a function of s"""
    if fam == 't':
        return 1 + s * dt / 2, 1 - s * dt / 2
    if fam == 'f':
        return 1 + s * dt, x.const(1)
    return x.const(1), 1 - s * dt


def lft_z(q, s):
    """1/s = q22 + q21 q12 / (z - q11)"""
    return (q[0, 0] * (1 - q[1, 1] * s) + q[0, 1] * q[1, 0] * s,
            1 - q[1, 1] * s)


def regular(x, A, k):
    """I - k A is invertible"""
    n = A.shape[0]
    x.assume(det(x, [[(1 if i == j else 0) - k * A[i, j] for j in range(n)]
                     for i in range(n)]) != 0)


def agree(x, Gc, Gd, zn, zd, s, label):
    """continuous response at s equals the discrete response at zn/zd"""
    x.assume(zd != 0)
    z = zn / zd
    Nc, Dc = tf(x, Gc, s)
    Nd, Dd = tf(x, Gd, z)
    x.same(tuple(Nc.shape), tuple(Nd.shape), label + ' shape')
    x.eq(Nd * Dc, Nc * Dd, label)


def q22_of(fam, dt):
    return {'t': dt / 2, 'f': 0 * dt, 'b': dt}[fam]


def orders(x, quick=3, thorough=3):
    n = x.choice('n', range(1, x.q(quick, thorough) + 1))
    shp = x.choice('shape', [(1, 1), (2, 2), (1, 2), (2, 1)] if n < 3 else
                   x.q([(1, 1)], [(1, 1), (1, 2)]))
    return n, shp


@harness(HARNESSES)
def discretize_state(x):
    n, shp = orders(x)
    names = ['tustin', '>>', '<<'] if n > 1 or shp != (1, 1) else list(FAMILY)
    method = x.choice('method', names)
    fam = FAMILY[method]
    dt = period(x)
    G = x.state('g', n, *shp)
    s = x.real('s')
    regular(x, G.a, q22_of(fam, dt))
    Gd = x.H.discretize(G, dt, method=method)
    x.same(type(Gd).__name__, 'State', 'type')
    x.eq(Gd.SamplingPeriod, dt, 'sampling period')
    x.same(Gd.SamplingSet, 'Z', 'sampling set')
    x.same(Gd.DiscretizedWith, method, 'method recorded')
    x.same(Gd.NumberOfStates, n, 'order')
    agree(x, G, Gd, *zmap(x, fam, s, dt), s, 'mapped response')


@harness(HARNESSES)
def default_method(x):
    dt = period(x)
    G = x.state('g', 1, 1, 1)
    s = x.real('s')
    regular(x, G.a, dt / 2)
    Gd = x.H.discretize(G, dt)
    x.same(Gd.DiscretizedWith, 'tustin', 'method recorded')
    agree(x, G, Gd, *zmap(x, 't', s, dt), s, 'mapped response')
    # a model that does not know its method is undiscretised by tustin
    H = x.H.State(Gd.a, Gd.b, Gd.c, Gd.d, dt)
    Gc = x.H.undiscretize(H)
    agree(x, Gc, Gd, *zmap(x, 't', s, dt), s, 'default inverse')


@harness(HARNESSES)
def discretize_lft(x):
    n, shp = orders(x)
    dt = period(x)
    G = x.state('g', n, *shp)
    q = x.array('q', (2, 2))
    s = x.real('s')
    regular(x, G.a, q[1, 1])
    Gd = x.H.discretize(G, dt, method='lft', q=q)
    x.eq(Gd.SamplingPeriod, dt, 'sampling period')
    x.eq(x.np.asarray(Gd.DiscretizationMatrix), q, 'matrix recorded')
    agree(x, G, Gd, *lft_z(q, s), s, 'mapped response')


@harness(HARNESSES)
def undiscretize_state(x):
    n, shp = orders(x, 2)
    names = ['tustin', '>>', '<<'] if n > 1 or shp != (1, 1) else list(FAMILY)
    method = x.choice('method', names)
    fam = FAMILY[method]
    dt = period(x)
    Gd = x.state('g', n, *shp, dt=dt)
    s = x.real('s')
    if fam == 't':
        regular(x, Gd.a, x.const(-1))
    if fam == 'b':
        x.assume(det(x, [list(r) for r in Gd.a]) != 0)
    if x.flag('recorded'):
        Gd.DiscretizedWith = method
        Gc = x.H.undiscretize(Gd)
    else:
        Gc = x.H.undiscretize(Gd, method=method)
    x.same(Gc.SamplingSet, 'R', 'continuous')
    x.same(Gc.SamplingPeriod, None, 'sampling period')
    x.same(Gc.NumberOfStates, n, 'order')
    agree(x, Gc, Gd, *zmap(x, fam, s, dt), s, 'mapped response')


@harness(HARNESSES)
def undiscretize_lft(x):
    """the interconnection matrix of the discretisation is inverted"""
    n, shp = orders(x, 2, 2)
    dt = period(x)
    Gd = x.state('g', n, *shp, dt=dt)
    q = x.array('q', (2, 2))
    x.assume(q[0, 1] != 0)
    x.assume(q[1, 0] != 0)
    k = q[0, 1] * q[1, 0] - q[0, 0] * q[1, 1]
    if x.flag('backward like'):
        q[0, 1] = q[0, 0] * q[1, 1] / q[1, 0]
        x.assume(q[0, 0] != 0)
        x.assume(q[1, 1] != 0)
        x.assume(det(x, [list(r) for r in Gd.a]) != 0)
    else:
        x.assume(k != 0)
        regular(x, Gd.a, -q[1, 1] / k)
    s = x.real('s')
    if x.flag('recorded'):
        Gd.DiscretizedWith = 'lft'
        Gd.DiscretizationMatrix = q
        Gc = x.H.undiscretize(Gd)
    else:
        Gc = x.H.undiscretize(Gd, method='lft', q=q)
    agree(x, Gc, Gd, *lft_z(q, s), s, 'mapped response')


@harness(HARNESSES)
def round_trip(x):
    n, shp = orders(x)
    kind = x.choice('method', ['tustin', '>>', '<<', 'lft'])
    dt = period(x)
    G = x.state('g', n, *shp)
    s = x.real('s')
    q = None
    if kind == 'lft':
        q = x.array('q', (2, 2))
        x.assume(q[0, 1] != 0)
        x.assume(q[1, 0] != 0)
        regular(x, G.a, q[1, 1])
    else:
        regular(x, G.a, q22_of(FAMILY[kind], dt))
    Gd = x.H.discretize(G, dt, method=kind, q=q)
    H = x.H.undiscretize(Gd)
    N, D = tf(x, G, s)
    eq_tf(x, H, (N, D), s, 'round trip')


@harness(HARNESSES)
def prewarp(x):
    """tan(w dt/2)/w replaces dt/2"""
    n = x.choice('n', [1, 2])
    shp = x.choice('shape', [(1, 1), (2, 2)] if n == 1 else [(1, 1)])
    dt = x.pos('dt')
    f = x.real('f', Fraction(1, 64), 4)
    x.assume(2 * dt * f < 1)
    w = 2 * np.pi * f
    t = x.np.tan(w * dt / 2)
    x.assume(t > 0)
    r = t / w                     # replaces dt/2
    s = x.real('s')
    method = x.choice('method', TUSTIN)
    way = x.choice('way', ['discretize', 'undiscretize', 'both'])
    if way == 'discretize':
        G = x.state('g', n, *shp)
        regular(x, G.a, r)
        Gd = x.H.discretize(G, dt, method=method, prewarp_at=f)
        x.eq(Gd.PrewarpFrequency, f, 'frequency recorded')
        agree(x, G, Gd, 1 + s * r, 1 - s * r, s, 'mapped response')
    elif way == 'undiscretize':
        Gd = x.state('g', n, *shp, dt=dt)
        regular(x, Gd.a, x.const(-1))
        G = x.H.undiscretize(Gd, method=method, prewarp_at=f)
        agree(x, G, Gd, 1 + s * r, 1 - s * r, s, 'mapped response')
    else:
        G = x.state('g', n, *shp)
        regular(x, G.a, r)
        Gd = x.H.discretize(G, dt, method=method, prewarp_at=f)
        H = x.H.undiscretize(Gd)
        eq_tf(x, H, tf(x, G, s), s, 'round trip')


@harness(HARNESSES)
def prewarp_limit(x):
    dt = x.pos('dt')
    f = x.real('f', Fraction(1, 64), 8)
    x.assume(2 * dt * f > 1)
    G = x.state('g', 1, 1, 1)
    x.raises(ValueError, lambda: x.H.discretize(G, dt, prewarp_at=f), 'beyond Nyquist')
    Gd = x.state('g', 1, 1, 1, dt=dt)
    x.raises(ValueError, lambda: x.H.undiscretize(Gd, method='tustin', prewarp_at=f),
             'beyond Nyquist, inverse')


@harness(HARNESSES, eig='exact', tzeros='strict')
def recorded(x):
    """what the discrete model remembers decides how it is converted back"""
    rep = x.choice('model', ['State', 'Transfer'])
    dt = period(x)
    s, a, b = x.real('s'), x.pos('a'), x.pos('b')

    def model(dt=None, a=-a):
        m1 = x.mat([[a]]), x.mat([[b]]), x.mat([[x.const(1)]]), x.mat([[x.const(2)]])
        if rep == 'State':
            return x.H.State(*m1, dt=dt)
        return x.H.Transfer(x.vec([x.const(2), b - 2 * a]), x.vec([x.const(1), -a]), dt=dt)
    case = x.choice('case', ['attributes', 'set method', 'set frequency',
                             'own frequency', 'limit', 'own matrix'])
    if case == 'attributes':
        method = x.choice('method', ['tustin', '>>', '<<', 'lft'])
        q = x.array('q', (2, 2))
        x.assume(1 + q[1, 1] * a > 0)
        Gd = x.H.discretize(model(), dt, method, q=q if method == 'lft' else None)
        x.same(Gd.DiscretizedWith, method, 'method')
        x.same(Gd.DiscretizationMatrix is None, method != 'lft', 'matrix only for lft')
        x.same(Gd.PrewarpFrequency is None, method != 'tustin', 'frequency only for Tustin')
        if method == 'lft':
            x.eq(Gd.DiscretizationMatrix, q, 'matrix')
        if method == 'tustin':
            x.eq(Gd.PrewarpFrequency, x.const(0), 'frequency')
        else:
            def put():
                Gd.PrewarpFrequency = 1 / (8 * dt)
            x.raises(ValueError, put, 'frequency refused')
        if method != 'lft':
            def put2():
                Gd.DiscretizationMatrix = q
            x.raises(ValueError, put2, 'matrix refused')
        return
    if case in ('set method', 'own matrix'):
        method = x.choice('method', ['tustin', '>>', '<<']) if case == 'set method' else 'lft'
        Gd = model(dt, a)
        Gd.DiscretizedWith = method
        if method == 'lft':
            q, q2 = x.array('q', (2, 2)), x.array('r', (2, 2))
            Gd.DiscretizationMatrix = q
            x.eq(Gd.DiscretizationMatrix, q, 'matrix')
            r = q2 if x.flag('argument') else q
            x.assume(r[0, 1] * r[1, 0] > 0)
            x.assume(r[0, 1] * r[1, 0] - r[0, 0] * r[1, 1] + r[1, 1] * a != 0)
            G = x.H.undiscretize(Gd, q=q2) if r is q2 else x.H.undiscretize(Gd)
            return agree(x, G, Gd, *lft_z(r, s), s, 'mapped response')
        G = x.H.undiscretize(Gd)
        return agree(x, G, Gd, *zmap(x, FAMILY[method], s, dt), s, 'mapped response')
    f, g = x.real('f', Fraction(1, 64), 4), x.real('g', Fraction(1, 64), 4)
    x.assume(2 * dt * g < 1)
    Gd = model(dt, a)
    Gd.DiscretizedWith = 'tustin'
    Gd.PrewarpFrequency = g
    x.eq(Gd.PrewarpFrequency, g, 'frequency')
    if case == 'limit':
        x.assume(2 * dt * f > 1)

        def put():
            Gd.PrewarpFrequency = f
        x.raises(ValueError, put, 'beyond Nyquist')
        return x.eq(Gd.PrewarpFrequency, g, 'frequency unchanged')
    x.assume(2 * dt * f < 1)
    for u in (f, g):
        x.assume(x.np.tan(2 * np.pi * u * dt / 2) > 0)
    if case == 'own frequency':
        w = 2 * np.pi * f
        G = x.H.undiscretize(Gd, prewarp_at=f)
    else:
        w = 2 * np.pi * g
        G = x.H.undiscretize(Gd)
    r = x.np.tan(w * dt / 2) / w
    agree(x, G, Gd, 1 + s * r, 1 - s * r, s, 'mapped response')


@harness(HARNESSES, eig='exact', tzeros='strict')
def transfer_models(x):
    kind = x.choice('method', ['tustin', '>>', '<<', 'lft'])
    back = x.flag('undiscretize')
    dt = period(x)
    G = siso(x, 'g', 0, 1, dt if back else None)
    a = G.den[0, 1] / G.den[0, 0]       # pole at -a
    s = x.real('s')
    q = None
    if kind == 'lft':
        q = x.array('q', (2, 2))
        x.assume(q[0, 1] != 0)
        x.assume(q[1, 0] != 0)
    if not back:
        q22 = q[1, 1] if kind == 'lft' else q22_of(FAMILY[kind], dt)
        x.assume(1 + q22 * a != 0)
        Gd = x.H.discretize(G, dt, method=kind, q=q)
        x.same(type(Gd).__name__, 'Transfer', 'type')
        x.eq(Gd.SamplingPeriod, dt, 'sampling period')
        x.same(Gd.DiscretizedWith, kind, 'method recorded')
        Gc = G
    else:
        if kind == 'tustin':
            x.assume(a != 1)
        if kind == '<<':
            x.assume(a != 0)
        if kind == 'lft':
            x.assume(q[0, 1] * q[1, 0] - q[0, 0] * q[1, 1] - q[1, 1] * a != 0)
        Gc = x.H.undiscretize(G, method=kind, q=q)
        x.same(type(Gc).__name__, 'Transfer', 'type')
        x.same(Gc.SamplingSet, 'R', 'continuous')
        Gd = G
    zn, zd = lft_z(q, s) if kind == 'lft' else zmap(x, FAMILY[kind], s, dt)
    agree(x, Gc, Gd, zn, zd, s, 'mapped response')


@harness(HARNESSES)
def static_gains(x):
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    tfm = x.flag('transfer')
    method = x.choice('method', ['tustin', 'zoh', 'foh', '>>', '<<'])
    back = x.flag('undiscretize')
    D = x.array('d', shp)
    dt = x.pos('dt')
    mk = (lambda **k: x.H.Transfer([[v for v in r] for r in D], **k)) if tfm \
        else (lambda **k: x.H.State(D, **k))
    if back:
        R = x.H.undiscretize(mk(dt=dt), method=method)
        x.same(R.SamplingSet, 'R', 'continuous')
    else:
        R = x.H.discretize(mk(), dt, method=method)
        x.eq(R.SamplingPeriod, dt, 'sampling period')
    x.same(type(R).__name__, 'Transfer' if tfm else 'State', 'type')
    x.same(tuple(R.shape), shp, 'shape')
    x.eq(R.to_array(), D, 'gain')


@harness(HARNESSES)
def rejections(x):
    G = x.state('g', 1, 1, 1)
    Gd = x.state('g', 1, 1, 1, dt=0.5)
    q3 = x.array('q', (3, 3))
    x.raises(ValueError, lambda: x.H.discretize(Gd, 0.5), 'already discrete')
    x.raises(ValueError, lambda: x.H.undiscretize(G), 'already continuous')
    x.raises(ValueError, lambda: x.H.discretize(G, 0.5, method='unknown'), 'unknown method')
    x.raises(ValueError, lambda: x.H.discretize(G, 0.5, method='lft'), 'missing matrix')
    x.raises(ValueError, lambda: x.H.discretize(G, 0.5, method='lft', q=q3), 'matrix size')
    x.raises(ValueError, lambda: x.H.undiscretize(Gd, method='lft'), 'missing matrix, inverse')
    x.raises(ValueError, lambda: x.H.undiscretize(Gd, method='lft', q=q3), 'matrix size, inverse')


@harness(HARNESSES)
def arguments_unchanged(x):
    method = x.choice('method', ['tustin', '>>', '<<', 'lft'])
    back = x.flag('undiscretize')
    q = x.array('q', (2, 2))
    dt = period(x)
    G = x.state('g', 2, 1, 2, dt=dt if back else None)
    old = [m * 1 for m in (*G.matrices, q)]
    x.assume(q[1, 0] != 0)
    try:
        if back:
            x.H.undiscretize(G, method=method, q=q)
        else:
            x.H.discretize(G, dt, method=method, q=q)
    except Exception:
        pass
    for a, b in zip(old, (*G.matrices, q)):
        x.eq(b, a, 'unchanged')


@harness(HARNESSES)
def larger(x):
    """order 4 and up to six channels, one free entry per matrix"""
    shp = x.choice('shape', [(3, 2), (1, 3), (2, 2)])
    method = x.choice('method', ['tustin', '>>', '<<'])
    fam = FAMILY[method]
    dt = x.choice('dt', [4., .25])
    G = larger_state(x, 'g', 4, *shp)
    s = x.real('s')
    regular(x, G.a, q22_of(fam, Fraction(dt)))
    Gd = x.H.discretize(G, dt, method=method)
    x.same((Gd.NumberOfStates, tuple(Gd.shape)), (4, shp), 'size')
    agree(x, G, Gd, *zmap(x, fam, s, Fraction(dt)), s, 'mapped response')
