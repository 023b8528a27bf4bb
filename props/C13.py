"""Linear simulation follows the model equations."""
from symx.api import *
from symx.tf import *
from props.C03 import poly, mimo
from props.C12 import series, hook_expm

HARNESSES = []
FUNCTIONS = ['simulate_linear_system', '_check_u_and_t_for_simulation',
             'discretize', '_discretize', 'transfer_to_state']
BOUNDS = {
    'quick': 'orders 0..2, shapes up to 2x2, 1..4 samples, all model data, '
             'inputs, initial states and the grid symbolic; continuous models: '
             'power series of the exponential truncated after eps^4; transfer '
             'models of degree up to 2 (single channel) and 1 (1x2); '
             'order 4 with up to nine channels, six samples and one free '
             'entry per matrix',
    'thorough': 'orders 0..3, 1..5 samples, eps^5'}
ASSUMPTIONS = ['np.allclose/isclose are exact equality; grids that are almost '
               'uniform are outside the claim']


def inputs(x, N, m):
    """input samples, as an array, a list or (single input) one dimensional"""
    U = x.array('u', (N, m))
    form = x.choice('u form', ['array', 'list'] + (['flat'] if m == 1 else []))
    if form == 'array':
        return U, U
    if form == 'list':
        return U, [[v for v in r] for r in U]
    return U, U.reshape(N)


def grid(x, N, dt):
    t0 = x.real('t0')
    return x.vec([t0 + k * dt for k in range(N)])


def recursion(x, A, B, C, D, U, x0=None):
    """outputs of x+ = Ax + Bu, y = Cx + Du"""
    n = A.shape[0]
    s = x0 if x0 is not None else x.vec([x.const(0)] * n)
    Y = []
    for u in U:
        Y.append(list(C @ s + D @ u))
        s = A @ s + B @ u
    return x.mat(Y)


def rows(x, y, N, p, label):
    """(N, p) response; one dimensional for a single output is accepted"""
    x.true(tuple(y.shape) == (N, p) or (p == 1 and tuple(y.shape) == (N,)),
           label + ' shape')
    return y.reshape(N, p)


def shapes(x):
    return x.choice('shape', [(1, 1), (2, 2), (1, 2), (2, 1)])


@harness(HARNESSES)
def discrete_state(x):
    n = x.choice('n', x.q([1, 2], [1, 2, 3]))
    p, m = shapes(x)
    N = x.choice('samples', x.q([1, 2, 4], [1, 2, 3, 5]) if n < 3 else [3])
    dt = x.pos('dt')
    G = x.state('g', n, p, m, dt)
    U, u = inputs(x, N, m)
    x0 = x.array('x0', n) if x.flag('initial state') else None
    t = grid(x, N, dt) if N > 1 and x.flag('grid given') else None
    y, tout = x.H.simulate_linear_system(G, u, t=t, x0=x0)
    ref = recursion(x, G.a, G.b, G.c, G.d, U, x0)
    x.eq(rows(x, y, N, p, 'response'), ref, 'response')
    x.eq(tout, t if t is not None else x.vec([k * dt for k in range(N)]),
         'time')
    x.true(tout is not t, 'time copied')


@harness(HARNESSES)
def initial_state_forms(x):
    """lists, rows and columns are the same initial state"""
    n = x.choice('n', [1, 2])
    G = x.state('g', n, 1, 1, 0.5)
    v = x.array('x0', n)
    form = x.choice('form', ['list', 'row', 'column'])
    x0 = {'list': [k for k in v], 'row': v.reshape(1, n),
          'column': v.reshape(n, 1)}[form]
    U = x.array('u', (3, 1))
    y, _ = x.H.simulate_linear_system(G, U, x0=x0)
    x.eq(rows(x, y, 3, 1, 'response'), recursion(x, G.a, G.b, G.c, G.d, U, v),
         'response')


@harness(HARNESSES)
def per_channel(x):
    n = x.choice('n', [0, 1, 2])
    p, m = shapes(x)
    N = x.choice('samples', x.q([3], [1, 2, 4]))
    dt = x.pos('dt')
    G = x.state('g', n, p, m, dt)
    U = x.array('u', (N, m))
    x0 = x.array('x0', (n,)) if n and x.flag('initial state') else None
    y, tout = x.H.simulate_linear_system(G, U, x0=x0, per_channel=True)
    cols = []
    for k in range(m):
        V = x.mat([[r[j] if j == k else x.const(0) for j in range(m)]
                   for r in U])
        cols.append(recursion(x, G.a, G.b, G.c, G.d, V, x0) if n else V @ G.d.T)
    if m == 1:
        x.eq(rows(x, y, N, p, 'response'), cols[0], 'single input response')
        return
    x.same(tuple(y.shape), (N, p, m), 'response shape')
    for k in range(m):
        x.eq(y[:, :, k], cols[k], 'channel response')


@harness(HARNESSES)
def static_gain(x):
    p, m = shapes(x)
    N = x.choice('samples', [1, 2, 3])
    kind = x.choice('kind', ['state', 'transfer'])
    dt = x.pos('dt')
    disc = x.flag('discrete')
    D = x.array('d', (p, m))
    G = x.H.State(D, dt=dt if disc else None) if kind == 'state' else \
        x.H.Transfer([[v for v in r] for r in D], dt=dt if disc else None)
    U, u = inputs(x, N, m)
    x.assume(disc or N > 1)
    t = None if disc and x.flag('no grid') else grid(x, N, dt)
    x.assume(t is None or N > 1)
    y, tout = x.H.simulate_linear_system(G, u, t=t)
    x.eq(rows(x, y, N, p, 'response'), U @ D.T, 'response')


@harness(HARNESSES, series=9, nondet=True)
def continuous_state(x):
    """input held between the samples"""
    n = x.choice('n', [1, 2])
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 1)])
    K = x.q(4, 5)
    e = x.eps('eps', K)
    h = x.pos('h', Fraction(1, 4), 2)
    A = x.array('a', (n, n), -2, 2) * e
    B = x.array('b', (n, m)) * e
    C, D = x.array('c', (p, n)), x.array('d', (p, m))
    N = 3
    U = x.array('u', (N, m))
    x0 = x.array('x0', n) if x.flag('initial state') else None
    t = grid(x, N, h)
    y, tout = x.H.simulate_linear_system(x.H.State(A, B, C, D), U, t, x0=x0)
    Ad = series(x, A * h, K)
    Bd = series(x, A * h, K, 1) @ (B * h)
    x.eq(rows(x, y, N, p, 'response'), recursion(x, Ad, Bd, C, D, U, x0),
         'response')
    x.eq(tout, t, 'time')


@harness(HARNESSES, eig='exact', nondet=True)
def continuous_transfer(x):
    """k/(s+a) + d with held input"""
    h = x.pos('h', Fraction(1, 4), 2)
    k, a, d = x.real('k'), x.pos('a', Fraction(1, 4), 2), x.real('d')
    E = x.np.exp(-a * h)
    hook_expm(x, a, h, E)
    G = x.H.Transfer(x.vec([d, d * a + k]), x.vec([x.const(1), a]))
    N = x.choice('samples', [2, 4])
    U, u = inputs(x, N, 1)
    y, _ = x.H.simulate_linear_system(G, u, grid(x, N, h))
    one = lambda v: x.mat([[v]])
    ref = recursion(x, one(E), one((1 - E) / a), one(k), one(d), U)
    x.eq(rows(x, y, N, 1, 'response'), ref, 'response')


@harness(HARNESSES, svd='echelon')
def discrete_transfer(x):
    """difference equation with zero initial data"""
    dd = x.choice('degree', x.q([1, 2], [1, 2, 3]))
    nd = x.choice('num degree', [0, 1, 2, 3])
    x.assume(nd <= dd)
    dt = x.pos('dt')
    num, den = x.array('n', nd + 1), poly(x, 'd', dd)
    G = x.H.Transfer(num, den, dt=dt)
    N = x.choice('samples', [2, 4])
    U, u = inputs(x, N, 1)
    y, _ = x.H.simulate_linear_system(G, u)
    y = rows(x, y, N, 1, 'response')
    num = [x.const(0)] * (dd - nd) + [v for v in num]
    for k in range(N):
        l = sum((den[i] * y[k - i, 0] for i in range(min(k, dd) + 1)),
                x.const(0))
        r = sum((num[i] * U[k - i, 0] for i in range(min(k, dd) + 1)),
                x.const(0))
        x.eq(l, r, 'difference equation')


@harness(HARNESSES, svd='echelon')
def discrete_transfer_row(x):
    dt = x.pos('dt')
    e = [(x.array('n%d' % j, 2), poly(x, 'd%d' % j, 1)) for j in (0, 1)]
    tall = x.flag('column')
    wr = (lambda v: [[v[0]], [v[1]]]) if tall else (lambda v: [v])
    G = x.H.Transfer(wr([a for a, _ in e]), wr([b for _, b in e]), dt=dt)
    N = 3
    m = 1 if tall else 2
    U = x.array('u', (N, m))
    y, _ = x.H.simulate_linear_system(G, U)

    def resp(num, den, u):
        out = []
        for k in range(N):
            v = num[0] * u[k]
            if k:
                v = v + num[1] * u[k - 1] - den[1] * out[-1]
            out.append(v / den[0])
        return out
    cols = [resp(a, b, U[:, 0 if tall else j]) for j, (a, b) in enumerate(e)]
    y = rows(x, y, N, 2 if tall else 1, 'response')
    if tall:
        x.eq(y, x.mat([[cols[0][k], cols[1][k]] for k in range(N)]), 'response')
    else:
        x.eq(y[:, 0], x.vec([cols[0][k] + cols[1][k] for k in range(N)]),
             'response')


@harness(HARNESSES)
def rejected_grids(x):
    n = x.choice('n', [0, 1])
    disc = x.flag('discrete')
    dt = x.pos('dt')
    G = x.state('g', n, 1, 1, dt if disc else None)
    t = x.array('t', 3)
    why = x.choice('grid', ['uneven', 'late', 'decreasing', 'constant',
                            'period'])
    if why == 'late':
        h, e = x.pos('h'), x.real('e')
        x.assume(e * e > Fraction(1, 16))
        x.assume(h < 4)
        t = x.vec([i * h for i in range(7)] + [7 * h + e])
    elif why == 'uneven':
        gap = t[2] - 2 * t[1] + t[0]
        x.assume(gap * gap > Fraction(1, 16))
    elif why == 'decreasing':
        h = x.pos('h')
        t = x.vec([t[0], t[0] - h, t[0] - 2 * h])
    elif why == 'constant':
        t = x.vec([t[0]] * 3)
    else:
        x.assume(disc)
        h = x.pos('h')
        x.assume(dt < 8)
        x.assume((h - dt) * (h - dt) > Fraction(1, 40000))
        t = x.vec([t[0], t[0] + h, t[0] + 2 * h])
    U = x.array('u', (len(t), 1))
    x.raises(ValueError, lambda: x.H.simulate_linear_system(G, U, t), 'grid')


@harness(HARNESSES)
def rejected_sizes(x):
    n = x.choice('n', [0, 1, 2])
    disc = x.flag('discrete')
    p, m = shapes(x)
    dt = x.pos('dt')
    G = x.state('g', n, p, m, dt if disc else None)
    if x.flag('transfer'):
        x.assume(n == 0)
        G = x.H.Transfer([[v for v in r] for r in G.d], dt=dt if disc else None)
    sim = x.H.simulate_linear_system
    why = x.choice('why', ['length', 'columns', 'initial size', 'no grid',
                           'empty', 'two dimensional grid'])
    t = grid(x, 4, dt)
    U = x.array('u', (4, m))
    if why == 'length':
        x.raises(ValueError, lambda: sim(G, U[:3], t), why)
    elif why == 'columns':
        x.raises(ValueError, lambda: sim(G, x.array('w', (4, m + 1)), t), why)
    elif why == 'initial size':
        # static models have no initial state at all
        x.raises(ValueError, lambda: sim(G, U, t, x0=x.array('x0', n + 1)), why)
    elif why == 'no grid':
        x.assume(not disc)
        x.raises(ValueError, lambda: sim(G, U), why)
    elif why == 'empty':
        x.raises(ValueError, lambda: sim(G, [], t), why)
    else:
        x.raises(ValueError, lambda: sim(G, U, x.array('t', (4, 2))), why)


@harness(HARNESSES)
def transfer_initial_state(x):
    G = x.H.Transfer(x.array('n', 2), poly(x, 'd', 1), dt=0.5)
    x.raises(ValueError, lambda: x.H.simulate_linear_system(
        G, x.array('u', 3), x0=x.array('x0', 1)), 'initial state of a transfer')


@harness(HARNESSES)
def arguments_unchanged(x):
    n = x.choice('n', [0, 1, 2])
    G = x.state('g', n, 2, 2, 0.5)
    U = x.array('u', (3, 2))
    x0 = x.array('x0', n) if n else None
    old = [k * 1 for k in (G.a, G.b, G.c, G.d, U)] + ([x0 * 1] if n else [])
    x.H.simulate_linear_system(G, U, x0=x0, per_channel=x.flag('per channel'))
    for a, b in zip(old, [G.a, G.b, G.c, G.d, U] + ([x0] if n else [])):
        x.eq(b, a, 'unchanged')


@harness(HARNESSES)
def larger(x):
    """order 4, up to six channels and six samples"""
    p, m = x.choice('shape', [(3, 3), (1, 3), (3, 1), (2, 3)])
    N = 6
    G = larger_state(x, 'g', 4, p, m, 0.5)
    U = fixed_matrix(x, (N, m), 4, x.real('u'))
    U[0, 0] = x.real('v')
    x0 = x.array('x0', 4) if x.flag('initial state') else None
    chan = x.flag('per channel')
    y, tout = x.H.simulate_linear_system(G, U, x0=x0, per_channel=chan)
    x.eq(tout, x.vec([x.const(Fraction(k, 2)) for k in range(N)]), 'time')
    if not chan or m == 1:
        x.eq(rows(x, y, N, p, 'response'), recursion(x, G.a, G.b, G.c, G.d, U, x0), 'response')
        return
    x.same(tuple(y.shape), (N, p, m), 'response shape')
    for k in range(m):
        V = x.mat([[r[j] if j == k else x.const(0) for j in range(m)] for r in U])
        x.eq(y[:, :, k], recursion(x, G.a, G.b, G.c, G.d, V, x0), 'channel response')


@harness(HARNESSES, float_consts=True)
def larger_continuous(x):
    """fixed continuous models of order 4 and 5 on fine and coarse grids"""
    chan = x.flag('per channel')
    n = x.choice('n', [4, 5])
    p, m = x.choice('shape', [(1, 1), (1, 3), (3, 2)])
    h = x.choice('h', [.01, .5, 10.])
    N, start = 5, x.choice('start', [0., 3.])
    A, B, C, D = fixed_floats(n, p, m)
    k = x.pos('k', Fraction(1, 4), 4)
    w, V = np.linalg.eig(A)
    Ad = (V @ np.diag(np.exp(w * h)) @ np.linalg.inv(V)).real
    Bd = np.linalg.solve(A, (Ad - np.eye(n)) @ B)
    t = start + h * np.arange(N)
    G = x.H.State(A, B, C * k, D * k)
    U = np.array([[(3 * i + 2 * j) % 5 - 2. for j in range(m)] for i in range(N)])
    x0 = np.arange(1., n + 1) / 2 if x.flag('initial state') and not chan else None
    if x.flag('integers'):
        U = (U * 1000).astype(int)
        x0 = x0 if x0 is None else (x0 * 2).astype(int)
    y, tout = x.H.simulate_linear_system(G, U, t, x0=x0, per_channel=chan)
    x.eq(tout, t, 'time')
    for j in range(m if chan else 1):
        u = U * (np.arange(m) == j) if chan else U
        z, ref = np.zeros(n) if x0 is None else x0, []
        for i in range(N):
            ref.append(C @ z + D @ u[i])
            z = Ad @ z + Bd @ u[i]
        near(x, y[:, :, j] if chan and m > 1 else y, np.array(ref), k, 1e-4, 'output')


@harness(HARNESSES, float_consts=True)
def nearly_right_grids(x):
    """grids that are off by a few percent are refused as well"""
    dt = x.choice('dt', [.01, .25, 4.])
    off = x.choice('off', [.98, 1.01, 1.05])
    why = x.choice('grid', ['period', 'last step', 'first step'])
    m = x.choice('inputs', [1, 2])
    A, B, C, D = fixed_floats(2, 1, m, dt)
    disc = why == 'period' or x.flag('discrete')
    G = x.H.State(A, B, C, D * x.pos('k', Fraction(1, 4), 4), dt=dt if disc else None)
    h = np.full(9, dt)
    if why == 'period':
        h *= off
    else:
        h[-1 if why == 'last step' else 0] *= off
    t = np.r_[0., np.cumsum(h)]
    x.raises(ValueError, lambda: x.H.simulate_linear_system(G, np.ones((10, m)), t), 'grid')
    if why != 'period' or m == 1:
        for f in (x.H.simulate_step_response, x.H.simulate_impulse_response):
            x.raises(ValueError, lambda: f(G, t), 'grid')
