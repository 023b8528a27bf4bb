"""H2 and Hinf norms."""
from symx.api import *
from symx.tf import fixed_floats, near
from props.C03 import poly, siso

HARNESSES = []
FUNCTIONS = ['system_norm']
BOUNDS = {
    'quick': 'H2: order 0..2, shapes up to 2x2; Hinf: order 0 and 1 with '
             'shapes 1x1, 1x2 and 2x1, oscillators of order 2 with at most '
             'one refinement step, eight fixed models of order 2 to 4 with '
             'shapes up to 2x2 in both time domains with a symbolic gain; '
             'H2 norm of fixed models of order 3 and 5 with a symbolic '
             'gain',
    'thorough': 'as quick'}
ASSUMPTIONS = [
    'for order 2 Hinf norms the eigenvalues of the Hamiltonian are those of '
    'the chosen scenario; that they are the right ones is established from '
    'the matrix handed to the eigenvalue routine',
    'for the fixed models the Hamiltonian eigenvalues and singular values '
    'are computed in floating point for a unit gain, after the scaling with '
    'the gain has been established; the norm is compared to a relative 1e-4',
    'feedthrough and eigenvalue tolerances are exact-zero tests']
INF = float('inf')


def isinf(v):
    return isinstance(v, float) and v == INF


def dynamics(x, a, disc, kind):
    """stability class of a first order model"""
    if kind == 'stable':
        x.assume(a * a < 1 if disc else a < 0)
    elif kind == 'unstable':
        x.assume(a * a > 1 if disc else a > 0)
    else:
        x.assume(a == (1 if disc else 0))


@harness(HARNESSES, eig='exact')
def h2_first_order(x):
    dt = x.pos('dt') if x.flag('discrete') else None
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    kind = x.choice('stability', ['stable', 'unstable'])
    a, b, c = x.real('a'), x.array('b', (1, m)), x.array('c', (p, 1))
    dynamics(x, a, dt is not None, kind)
    d = x.array('d', (p, m)) if x.flag('feedthrough') else x.np.zeros((p, m)) * x.const(1)
    nz = sum((v * v for v in d.ravel()), x.const(0))
    if x.picked['feedthrough']:
        x.assume(nz > Fraction(1, 64))
    G = x.H.State(x.mat([[a]]), b, c, d, dt=dt)
    r = x.H.system_norm(G, p=2)
    if kind != 'stable' or (dt is None and x.picked['feedthrough']):
        x.true(isinf(r), 'infinite')
        return
    s = sum((v * v for v in (c @ b).ravel()), x.const(0))
    x.true(r >= 0, 'sign')
    if dt is None:
        x.eq(r * r * (-2 * a), s, 'norm')
    else:
        x.eq((r * r - nz) * (1 - a * a), s, 'norm')


@harness(HARNESSES, eig='exact')
def h2_second_order(x):
    """models whose Gramian is T T'"""
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 1)])
    T = x.mat([[x.pos('t1'), x.real('t2')], [x.const(0), x.pos('t3')]])
    s = x.pos('s')
    b = x.array('b', (2, m))
    if m == 2:
        b[0, 1] = b[1, 0] = x.const(0)
    x.assume(sum((v * v for v in b.ravel()), x.const(0)) > Fraction(1, 64))
    A0 = x.mat([[0, s], [-s, 0]]) - b @ b.T / 2
    Ti = x.mat([[1 / T[0, 0], -T[0, 1] / T[0, 0] / T[1, 1]],
                [x.const(0), 1 / T[1, 1]]])
    C = x.array('c', (p, 2))
    # facts that follow, to spare the solver
    x.assume(A0[0, 0] + A0[1, 1] < 0)
    x.assume(A0[0, 0] * A0[1, 1] - A0[0, 1] * A0[1, 0] > 0)
    G = x.H.State(T @ A0 @ Ti, T @ b, C)
    r = x.H.system_norm(G, p=2)
    x.true(r >= 0, 'sign')
    x.eq(r * r, sum((v * v for v in (C @ T).ravel()), x.const(0)), 'norm')


@harness(HARNESSES, eig='exact')
def h2_second_order_discrete(x):
    """models whose Gramian is the identity: [A B] has orthonormal rows"""
    p = x.choice('outputs', [1, 2])
    t, u = x.real('t', -1, 1), x.real('u', Fraction(1, 8), Fraction(7, 8))
    c, s = 1 - t * t, 2 * t
    h = 1 + t * t
    g, k = (1 - u * u) / (1 + u * u), 2 * u / (1 + u * u)
    A = x.mat([[c / h * g, -s / h], [s / h * g, c / h]]).T
    B = x.mat([[k], [x.const(0)]])
    C, D = x.array('c', (p, 2)), x.array('d', (p, 1))
    G = x.H.State(A, B, C, D, dt=x.pos('dt'))
    if not x.sym:
        x.assume(np.abs(np.linalg.eigvals(A)).max() < 1 - 1e-6)
    r = x.H.system_norm(G, p=2)
    if isinf(r):
        # only a boundary case
        x.true(t == 0, 'stable')
        return
    x.eq(r * r, sum((v * v for v in list(C.ravel()) + list(D.ravel())),
                    x.const(0)), 'norm')


@harness(HARNESSES, eig='exact')
def h2_transfer(x):
    disc = x.flag('discrete')
    a, n = x.real('a'), x.real('n')
    dynamics(x, a, disc, 'stable')
    G = x.H.Transfer(x.vec([n]), x.vec([x.const(1), -a]), dt=x.pos('dt') if disc else None)
    r = x.H.system_norm(G, p=2)
    x.eq(r * r * (1 - a * a if disc else -2 * a), n * n, 'norm')


@harness(HARNESSES)
def gains(x):
    p = x.choice('norm', [2, INF])
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1)])
    disc = x.flag('discrete')
    D = x.array('d', shp)
    zero = x.flag('zero')
    if zero:
        D = D * 0
    s = sum((v * v for v in D.ravel()), x.const(0))
    if not zero:
        x.assume(s > Fraction(1, 64))
    dt = x.pos('dt') if disc else None
    if x.flag('transfer'):
        G = x.H.Transfer([[v for v in r] for r in D], dt=dt)
    else:
        G = x.H.State(D, dt=dt)
    r = x.H.system_norm(G, p=p)
    if p == 2 and not disc and not zero:
        x.true(isinf(r), 'infinite')
    else:
        x.true(r >= 0, 'sign')
        x.eq(r * r, s, 'norm')


TOL = Fraction(1, 10 ** 6)


def within(x, r, v2, label):
    """r is the root of v2 up to the relative tolerance, never below"""
    x.true(r >= 0, label)
    if x.sym:
        x.true(r * r >= v2, label)
        x.true(r * r <= v2 * (1 + TOL), label)
    else:
        x.true(r * r >= v2 * (1 - 1e-9), label)
        x.true(r * r <= v2 * (1 + 1e-5), label)


@harness(HARNESSES, eig='exact')
def hinf_first_order(x):
    disc = x.flag('discrete')
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1)])
    kind = x.choice('stability', ['stable', 'unstable', 'boundary'])
    a = x.real('a')
    dynamics(x, a, disc, kind)
    b, c = x.array('b', (1, shp[1])), x.array('c', (shp[0], 1))
    d = x.array('d', shp) if shp == (1, 1) else x.np.zeros(shp) * x.const(1)
    G = x.H.State(x.mat([[a]]), b, c, d, dt=x.pos('dt') if disc else None)
    r = x.H.system_norm(G)
    if kind != 'stable':
        x.true(isinf(r), 'infinite')
        return
    lo, hi = (d + c @ b / (1 - a), d + c @ b / (-1 - a)) if disc else (d - c @ b / a, d)
    q = [sum((v * v for v in M.ravel()), x.const(0)) for M in (lo, hi)]
    within(x, r, q[0] if x.branch(q[0] >= q[1]) else q[1], 'norm')


@harness(HARNESSES, eig='exact')
def hinf_oscillator(x):
    """second order, the peak inside the band"""
    k, g, b = x.const(1), x.real('g', Fraction(1, 8), Fraction(15, 8)), x.pos('b')
    steps, d = x.choice('refinements and feedthrough', [(0, 0), (0, 1), (1, 0)])
    A = x.mat([[0, x.const(1)], [-k, -g]])
    G = x.H.State(A, x.mat([[x.const(0)], [b]]), x.mat([[1, x.const(0)]]),
                  x.mat([[x.const(d)]]))
    w1 = x.pos('w1')
    w2 = w1 + x.pos('dw')
    mats = []

    def eigvals(M, *r, **kw):
        if M.shape[0] != 4:
            return None
        mats.append(M)
        if len(mats) > steps:
            return x.vec([x.const(v) for v in (-1, 1, -2, 2)])
        return x.np.array([S_complex(x, 0, w) for w in (w1, -w1, w2, -w2)])
    x.hook('eigvals', eigvals)
    x.hook('norm', lambda M, o: x.const(1) if M.shape == (4, 4) else None)
    r = x.H.system_norm(G)
    if not x.sym:
        w = np.concatenate([np.linspace(0, 10, 20001), [1e4]])
        f = np.abs(d + b / (k - w * w + 1j * g * w))
        x.true(r >= f.max() * (1 - 1e-6), 'upper bound')
        x.true(r <= f.max() * (1 + 1e-2), 'attained')
        return
    eps = lift_eps(x)
    test = r * (2 * (1 + eps)) / (2 + eps)
    W = x.real('W', 0, 8)
    den = (k - W * W) ** 2 + (g * W) ** 2
    num = (d * (k - W * W) + b) ** 2 + (d * g * W) ** 2
    x.eq(detjw(x, mats[-1], W) * (test * test - d * d),
         den * test * test - num, 'Hamiltonian')
    low = test / (1 + eps)

    def gain2(w):
        return (((d * (k - w * w) + b) ** 2 + (d * g * w) ** 2)
                / ((k - w * w) ** 2 + (g * w) ** 2))
    cands = [gain2(x.const(0)), gain2(x.const(1)), x.const(d * d)]
    if steps:
        cands.append(gain2((w1 + w2) / 2))
    for q in cands:
        x.true(low * low * (1 + 3 * eps) >= q, 'bound')
    x.true(any_eq(x, low * low, cands), 'attained')


def S_complex(x, re, im):
    from symx.sym import SymComplex, lift
    return SymComplex(lift(re), lift(im)) if x.sym else complex(re, im)


def lift_eps(x):
    return x.const(Fraction(float(2 * np.sqrt(np.spacing(1.)))))


def any_eq(x, v, cands):
    for c in cands:
        if bool(v == c):
            return True
    return False


def detjw(x, M, W):
    """det(jW - M) for a real 4x4 matrix with a real result"""
    n = 4
    I = x.np.eye(n) * x.const(1)
    c, N = [x.const(1)], I
    for k in range(1, n + 1):
        MN = M @ N
        ck = -sum((MN[i, i] for i in range(n)), x.const(0)) / k
        c.append(ck)
        N = MN + I * ck
    x.eq(c[1], 0, 'even')
    x.eq(c[3], 0, 'even')
    return W ** 4 - c[2] * W * W + c[4]


# stable models with peaks inside the band and a feedthrough that is not normal
R2 = [[-0.2, 2.], [-2., -0.2]]
MODELS = [
    (R2, [[2., 0], [1, 2]], [[-1., -1], [0, 1]], [[1., 0], [-2, -3]]),
    (R2, [[-1., 2], [0, 1]], [[-1., -2], [0, 0]], [[1., 3], [1, 0]]),
    (R2, [[0., 2], [0, -1]], [[0., -1], [1, -2]], [[-1., 1], [-2, 3]]),
    (R2, [[0., 1]], [[1., 0], [2, 1]], [[1.], [-3.]]),
    (R2, [[1., 0], [0, 2]], [[1., 1]], [[2., -1]]),
    ([[-1., 1, 0], [-1, -1, 1], [0, 0, -3]], [[0., 1], [1, 0], [2, 1]],
     [[1., 0, 1], [0, 3, 0]], [[0., 1], [0, 0]]),
    ([[-0.5, 1, 0, 0], [-1, -0.5, 0, 0], [0, 0, -0.1, 4], [0, 0, -4, -0.1]],
     [[0.], [1], [0], [0.25]], [[1., 0, 1, 0]], [[0.5]]),
    ([[-1., 0, 0], [0, -0.05, 3], [0, -3, -0.05]], [[8.], [0], [0.5]],
     [[1., 1, 0]], [[0.]]),
    ([[-1., 0], [0, -1]], [[1., 0], [0, 1]], [[2., 0], [0, 2]], [[0., 0], [0, 0]]),
    ([[-0.1, 1, 0, 0], [-1, -0.1, 0, 0], [0, 0, -0.2, 3], [0, 0, -3, -0.2]],
     [[0., 0], [1, 0], [0, 0], [0, 2.5]], [[1., 0, 0, 0], [0, 0, 1, 0]],
     [[0., 0], [0, 0]]),
    ([[-0.1, 1, 0, 0], [-1, -0.1, 0, 0], [0, 0, -0.2, 3], [0, 0, -3, -0.2]],
     [[0., 0], [1, 0.5], [0, 0], [-1, 2]], [[1., 0, 1, 0], [0, 0, 1, 0]],
     [[1., 0], [0, -1]]),
    ([[-1., 0.5], [0, -2]], [[0.25, 0], [0, 0.5]], [[0.5, 0], [0, 0.25]], [[1., 0], [0, 1]]),
    ([[-0.3, 1, 0, 0, 0, 0], [-1, -0.3, 0, 0, 0, 0], [0, 0, -0.2, 3, 0, 0],
      [0, 0, -3, -0.2, 0, 0], [0, 0, 0, 0, -0.5, 7], [0, 0, 0, 0, -7, -0.5]],
     [[0.], [1], [0], [1], [0], [3]], [[1., 0, 1, 0, 1, 0]], [[0.25]])]


def peak(A, B, C, D, dt):
    """largest singular value over a dense grid, refined around the top"""
    I = np.eye(len(A))

    def gain(w):
        z = 1j * w if dt is None else np.exp(1j * w * dt)
        return np.linalg.norm(C @ np.linalg.solve(z * I - A, B) + D, 2)
    w = np.r_[0, np.geomspace(1e-3, 1e3 if dt is None else np.pi / dt, 4000)]
    for _ in range(4):
        g = [gain(v) for v in w]
        k = int(np.argmax(g))
        w = np.linspace(w[max(k - 1, 0)], w[min(k + 1, len(w) - 1)], 50)
    return max(g)


@harness(HARNESSES, eig='exact', float_consts=True, path_s=60)
def hinf_scaled(x):
    """fixed models scaled with a symbolic gain"""
    A, B, C, D = (np.array(v) for v in MODELS[x.choice('model', list(range(len(MODELS))))])
    if B.shape[0] != A.shape[0]:
        B = B.T
    dt = x.choice('dt', [None, 0.5])
    if dt is not None:
        A = np.round(np.linalg.solve(np.eye(len(A)) - A * dt / 2,
                                     np.eye(len(A)) + A * dt / 2), 6)
    k = x.pos('k')
    n = len(A)

    def at(v):
        """value of a result for a unit gain"""
        if not x.sym:
            return v
        from symx import sym
        one = dict.fromkeys(range(len(sym.PATH.space.names)), 1.)

        def ev(u):
            if isinstance(u, sym.SymComplex):
                return complex(ev(u.re), ev(u.im))
            return sym.PATH._reval(sym.lift(u))(one)
        a = np.asarray(v)
        return np.array([ev(u) for u in a.ravel()]).reshape(a.shape)

    def near(M, N):
        """equal up to rounding"""
        t = k * Fraction(1, 10 ** 5)
        for u, v in zip(np.asarray(M).ravel(), np.asarray(N).ravel()):
            e = u - v
            for w in (e.real, e.imag) if hasattr(e, 'imag') else (e,):
                if bool(w > t) or bool(-w > t):
                    x.fail('scaling')

    def eigvals(M, *r, **kw):
        if M.shape[0] != 2 * n:
            return None
        M1 = at(M)
        f = np.ones((2 * n, 2 * n)) * x.const(1)
        f[:n, n:] = k
        f[n:, :n] = 1 / k
        near(M, M1 * f)
        return x.np.array([S_complex(x, v.real, v.imag) for v in np.linalg.eigvals(M1)])

    def norm(M, o):
        if M.shape == (2 * n, 2 * n):
            return x.const(Fraction(float(np.linalg.norm(at(M)))))
        M1 = at(M)
        if o is None:
            return None
        near(M, M1 * k)
        if M1.ndim == 3:
            return x.vec([k * x.const(Fraction(float(np.linalg.norm(M1[:, :, i], o))))
                          for i in range(M1.shape[2])])
        return k * x.const(Fraction(float(np.linalg.norm(M1, o))))
    x.hook('eigvals', eigvals)
    x.hook('norm', norm)
    G = x.H.State(A, B * k, C, D * k, dt=dt)
    if dt is not None and x.flag('sampled'):
        G.DiscretizedWith = 'zoh'
    r = x.H.system_norm(G)
    v = float(peak(A, B, C, D, dt))
    x.true((r >= k * (v * (1 - 1e-4))) & (r <= k * (v * (1 + 1e-4))), 'peak gain')


@harness(HARNESSES)
def rejected(x):
    G = x.H.Transfer(x.vec([x.real('n')]), x.vec([x.const(1), x.pos('d')]))
    for p in (1, 3, 'a', 'inf', 2j, None):
        x.raises(ValueError, lambda: x.H.system_norm(G, p=p), 'norm kind')


@harness(HARNESSES, float_consts=True)
def h2_scaled(x):
    """fixed models of order 3 to 5 with a symbolic output gain"""
    n = x.choice('n', [3, 5])
    p, m = x.choice('shape', [(1, 1), (3, 2), (2, 3)])
    dt = x.choice('dt', [None, 0.5])
    A, B, C, D = fixed_floats(n, p, m, dt)
    k = x.pos('k', Fraction(1, 4), 4)
    D = D * (dt is not None)
    r = x.H.system_norm(x.H.State(A, B, C * k, D * k, dt=dt), p=2)
    I = np.eye(n)
    M = np.kron(A, I) + np.kron(I, A) if dt is None else np.kron(A, A) - np.eye(n * n)
    X = np.linalg.solve(M, -(B @ B.T).reshape(-1)).reshape(n, n)
    v = float(np.sqrt(np.trace(C @ X @ C.T + D @ D.T)))
    x.true((r >= k * (v * (1 - 1e-4))) & (r <= k * (v * (1 + 1e-4))), 'energy')
