"""Step and impulse responses."""
from symx.api import *
from symx.tf import *
from props.C03 import poly
from props.C12 import series
from props.C13 import recursion, grid, rows, shapes

HARNESSES = []
FUNCTIONS = ['simulate_step_response', 'simulate_impulse_response',
             '_compute_tfinal_and_dt', '_check_custom_time_input',
             'simulate_linear_system']
BOUNDS = {
    'quick': 'given grids: orders 0..2, shapes up to 2x2, 2..3 samples; '
             'automatic grids: order 1 with every pole position, order 2 with '
             'every complex pair (discrete), orders 0..1 (continuous); first '
             'three samples of the automatic grid; '
             'order 4 with up to nine channels and five samples',
    'thorough': 'given grids up to order 3 and 4 samples'}
ASSUMPTIONS = ['np.allclose/isclose are exact equality',
               'log and the complex argument are uninterpreted functions with '
               'the right sign; eigenvectors of a scalar are 1',
               'a grid request with symbolic limits returns its first three '
               'samples and its limits are checked']
KINDS = ['step', 'impulse']


def simulate(x, kind, *a):
    f = x.H.simulate_step_response if kind == 'step' else \
        x.H.simulate_impulse_response
    return f(*a)


def stimulus(x, kind, N, h):
    if kind == 'step':
        return [x.const(1)] * N
    if x.sym and h.is_const():
        r = x.const(1 / float(h))      # the code divides floats here
    else:
        r = 1 / h
    return [r] + [x.const(0)] * (N - 1)


def compare(x, kind, y, mats, N, h, label):
    """every channel responds to its own stimulus"""
    A, B, C, D = mats
    p, m = D.shape
    s = stimulus(x, kind, N, h)
    for k in range(m):
        U = x.mat([[v if j == k else x.const(0) for j in range(m)] for v in s])
        r = recursion(x, A, B, C, D, U) if A is not None else U @ D.T
        if m == 1:
            z = rows(x, y, y.shape[0], p, label)
        else:
            x.same(tuple(y.shape)[1:], (p, m), label + ' shape')
            z = y[:, :, k]
        x.eq(z[:N], r, label)


@harness(HARNESSES)
def discrete_grid(x):
    kind = x.choice('kind', KINDS)
    n = x.choice('n', x.q([0, 1, 2], [0, 1, 2, 3]))
    p, m = shapes(x)
    N = x.choice('samples', x.q([2, 3], [2, 4]))
    dt = x.pos('dt')
    G = x.state('g', n, p, m, dt)
    t = grid(x, N, dt)
    form = x.choice('grid form', ['array', 'list', 'row'])
    y, tout = simulate(x, kind, G, {'array': t, 'list': [v for v in t],
                                    'row': t.reshape(1, N)}[form])
    x.eq(tout, t, 'time')
    A = G.a if n else None
    compare(x, kind, y, (A, G.b, G.c, G.d), N, dt, kind)


@harness(HARNESSES, series=9, nondet=True)
def continuous_grid(x):
    kind = x.choice('kind', KINDS)
    n = x.choice('n', [0, 1, 2])
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    N, K = 3, 4
    e = x.eps('eps', K)
    h = x.pos('h', Fraction(1, 4), 2)
    D = x.array('d', (p, m))
    t = grid(x, N, h)
    if n == 0:
        y, tout = simulate(x, kind, x.H.State(D), t)
        mats = (None, None, None, D)
    else:
        A = x.array('a', (n, n), -2, 2) * e
        B = x.array('b', (n, m)) * e
        C = x.array('c', (p, n))
        y, tout = simulate(x, kind, x.H.State(A, B, C, D), t)
        mats = (series(x, A * h, K), series(x, A * h, K, 1) @ (B * h), C, D)
    x.eq(tout, t, 'time')
    compare(x, kind, y, mats, N, h, kind)


@harness(HARNESSES, svd='echelon')
def transfer_grid(x):
    kind = x.choice('kind', KINDS)
    dt = x.pos('dt')
    num, den = x.array('n', 2), poly(x, 'd', 1)
    G = x.H.Transfer(num, den, dt=dt)
    t = grid(x, 3, dt)
    y, tout = simulate(x, kind, G, t)
    y = rows(x, y, 3, 1, 'response')
    u = stimulus(x, kind, 3, dt)
    x.eq(tout, t, 'time')
    x.eq(den[0] * y[0, 0], num[0] * u[0], 'first sample')
    for k in (1, 2):
        x.eq(den[0] * y[k, 0] + den[1] * y[k - 1, 0],
             num[0] * u[k] + num[1] * u[k - 1], 'difference equation')


def auto(x):
    """record the requested grid, hand out its first three samples"""
    rec = []

    def fn(start, stop, step):
        rec.append((start, stop, step))
        return x.vec([start, start + step, start + 2 * step])
    x.hook('grid', fn)
    return rec


def check_grid(x, rec, tout, dt=None):
    """returns the step and the number of samples to compare"""
    for start, stop, step in rec:
        x.eq(start, x.const(0), 'grid starts at zero')
        x.true(stop > step, 'grid has two samples')
    x.true(len(tout) > 1, 'grid length')
    x.eq(tout[0], x.const(0), 'first time')
    h = tout[1] - tout[0]
    if dt is None:
        x.true(h > 0, 'increasing')
    else:
        x.eq(h, dt, 'step is the sampling period')
    N = min(3, len(tout))
    x.eq(tout[1:] - tout[:-1], x.vec([h] * (len(tout) - 1)), 'uniform')
    return h, N


@harness(HARNESSES, nondet=True)
def auto_static(x):
    kind = x.choice('kind', KINDS)
    disc = x.flag('discrete')
    tfm = x.flag('transfer')
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 1)])
    dt = x.pos('dt') if disc else None
    D = x.array('d', (p, m))
    G = x.H.Transfer([[v for v in r] for r in D], dt=dt) if tfm else \
        x.H.State(D, dt=dt)
    rec = auto(x)
    y, tout = simulate(x, kind, G)
    h, N = check_grid(x, rec, tout, dt)
    compare(x, kind, y, (None, None, None, D), N, h, kind)


@harness(HARNESSES, nondet=True)
def auto_discrete_real_pole(x):
    kind = x.choice('kind', KINDS)
    big = x.flag('long period')
    dt = x.pos('dt', 4, 64) if big else x.pos('dt')
    G = x.state('g', 1, 1, 1, dt)
    x.hook('eigvals', lambda A: x.vec([x.const(1j) * 0 + A[0, 0]])
           if A.shape == (1, 1) else None)
    rec = auto(x)
    y, tout = simulate(x, kind, G)
    h, N = check_grid(x, rec, tout, dt)
    compare(x, kind, y, (G.a, G.b, G.c, G.d), N, h, kind)


@harness(HARNESSES, nondet=True)
def auto_discrete_pair(x):
    kind = x.choice('kind', KINDS)
    dt = x.pos('dt')
    re, im = x.real('re'), x.real('im', Fraction(1, 64), 4)
    A = x.mat([[re, im], [-im, re]])
    G = x.state('g', 2, 1, 1, dt, a=A)
    if x.sym:
        from symx.sym import SymComplex
        x.hook('eigvals', lambda M: x.vec([SymComplex(re, im),
                                           SymComplex(re, -im)])
               if M.shape == (2, 2) else None)
    rec = auto(x)
    y, tout = simulate(x, kind, G)
    h, N = check_grid(x, rec, tout, dt)
    compare(x, kind, y, (G.a, G.b, G.c, G.d), N, h, kind)


def scalar_expm(x):
    """exponential of [[p, r], [0, 0]]"""
    def fn(M):
        from symx.linalg import _zero
        from symx.sym import unsupported
        if M.shape != (2, 2) or not (_zero(M[1, 0]) and _zero(M[1, 1])):
            unsupported('expm argument')
        p, r = M[0, 0], M[0, 1]
        one, zero = x.const(1), x.const(0)
        if x.branch(p == 0):
            return x.mat([[one, r], [zero, one]])
        E = x.np.exp(p)
        return x.mat([[E, (E - 1) / p * r], [zero, one]])
    x.hook('expm', fn)


@harness(HARNESSES, nondet=True, tol=1e-5)
def auto_continuous(x):
    kind = x.choice('kind', KINDS)
    a = x.real('a', -4, 4)
    b, c, d = x.real('b'), x.real('c'), x.real('d')
    one = lambda v: x.mat([[v]])
    G = x.H.State(one(a), one(b), one(c), one(d))
    if x.sym:
        from symx.sym import SymComplex
        I = x.mat([[x.const(1)]])
        x.hook('eig', lambda A, *k, **kw: (
            x.vec([SymComplex(A[0, 0], x.const(0))]), I, I * 1))
        scalar_expm(x)
    rec = auto(x)
    y, tout = simulate(x, kind, G)
    h, N = check_grid(x, rec, tout)
    if x.branch(a == 0):
        E, F = x.const(1), h
    else:
        E = x.np.exp(a * h)
        F = (E - 1) / a
    compare(x, kind, y, (one(E), one(F * b), one(c), one(d)), N, h, kind)


@harness(HARNESSES)
def rejected(x):
    kind = x.choice('kind', KINDS)
    n = x.choice('n', [0, 1])
    disc = x.flag('discrete')
    dt = x.pos('dt')
    G = x.state('g', n, 1, 1, dt if disc else None)
    why = x.choice('grid', ['uneven', 'late', 'decreasing', 'constant', 'period',
                            'short', 'two dimensional'])
    t = x.array('t', 3)
    if why == 'late':
        h, e = x.pos('h'), x.real('e')
        x.assume(e * e > Fraction(1, 16))
        x.assume(h < 4)
        t = x.vec([i * h for i in range(7)] + [7 * h + e])
    elif why == 'uneven':
        gap = t[2] - 2 * t[1] + t[0]
        x.assume(gap * gap > Fraction(1, 16))
    elif why == 'decreasing':
        h = x.pos('h')
        t = x.vec([t[0], t[0] - h, t[0] - 2 * h])
    elif why == 'constant':
        t = x.vec([t[0]] * 3)
    elif why == 'period':
        x.assume(disc)
        h = x.pos('h')
        x.assume(dt < 8)
        x.assume((h - dt) * (h - dt) > Fraction(1, 40000))
        t = x.vec([t[0], t[0] + h, t[0] + 2 * h])
    elif why == 'short':
        t = t[:1]
    else:
        t = x.array('w', (3, 2))
    x.raises(ValueError, lambda: simulate(x, kind, G, t), why)


@harness(HARNESSES)
def larger(x):
    """order 4, up to six channels and five samples"""
    kind = x.choice('kind', KINDS)
    p, m = x.choice('shape', [(3, 3), (1, 3), (3, 1), (2, 3)])
    N = 5
    G = larger_state(x, 'g', 4, p, m, 0.25)
    t = x.vec([x.const(Fraction(k, 4)) for k in range(N)])
    y, tout = simulate(x, kind, G, t)
    x.eq(tout, t, 'time')
    compare(x, kind, y, (G.a, G.b, G.c, G.d), N, x.const(Fraction(1, 4)), kind)


@harness(HARNESSES, float_consts=True)
def larger_continuous(x):
    """fixed continuous models of order 4 and 5 on fine and coarse grids"""
    kind = x.choice('kind', KINDS)
    n = x.choice('n', [4, 5])
    p, m = x.choice('shape', [(1, 1), (1, 3), (3, 2)])
    h = x.choice('h', [.01, .5, 10.])
    N, start = 5, x.choice('start', [0.])
    A, B, C, D = fixed_floats(n, p, m)
    k = x.pos('k', Fraction(1, 4), 4)
    w, V = np.linalg.eig(A)
    Ad = (V @ np.diag(np.exp(w * h)) @ np.linalg.inv(V)).real
    Bd = np.linalg.solve(A, (Ad - np.eye(n)) @ B)
    t = start + h * np.arange(N)
    G = x.H.State(A, B, C * k, D * k)
    y, tout = simulate(x, kind, G, t)
    x.eq(tout, t, 'time')
    for j in range(m):
        z, ref = np.zeros(n), []
        for i in range(N):
            u = np.eye(m)[j] * (1. if kind == 'step' else (i == 0) / h)
            ref.append(C @ z + D @ u)
            z = Ad @ z + Bd @ u
        near(x, y[:, :, j] if y.ndim > 2 else y, np.array(ref), k, 1e-4, 'output')


@harness(HARNESSES, float_consts=True)
def larger_gain(x):
    """every input of a gain acts on its own layer"""
    kind = x.choice('kind', KINDS)
    p, m = x.choice('shape', [(2, 3), (3, 2), (1, 4), (3, 3)])
    rep = x.choice('model', ['State', 'Transfer'])
    dt = x.choice('dt', [None, .5])
    D = np.array([[(-1.) ** (i + j) * (1 + i + 3 * j) for j in range(m)] for i in range(p)])
    k = x.pos('k', Fraction(1, 4), 4)
    G = x.H.State(D * k, dt=dt) if rep == 'State' else \
        x.H.Transfer([[D[i, j] * k for j in range(m)] for i in range(p)], dt=dt)
    t = np.arange(4) * .5
    y, _ = getattr(x.H, 'simulate_%s_response' % kind)(G, t)
    u = np.ones(4) if kind == 'step' else np.array([2., 0, 0, 0])
    near(x, y, u[:, None, None] * D, k, 1e-4, 'response')
