"""DC gain and pole properties."""
from symx.api import *
from symx.tf import fixed_floats, near
from symx.linalg import _zero
from symx.tf import det, rotation
from props.C19 import ident, basis, same
from props.C20 import kalman, contracts
from props.C23 import conv
from props.C26 import cplx, away

HARNESSES = []
FUNCTIONS = ['Transfer.dcgain', 'State.dcgain', 'Transfer.pole_properties',
             'State.pole_properties', '_pole_properties',
             '_minimal_realization_state']
BOUNDS = {
    'quick': 'transfer models up to degree 2 with up to two cancelling '
             'integrators per channel, shapes up to 2x2; state models up to '
             'order 3 with every Kalman structure, shapes up to 2x2, integrators '
             'also with nonsquare shapes; up to '
             'three real or complex poles; both time domains; '
             'fixed models of order 4 and 5 with up to six channels',
    'thorough': 'as quick with degree 3'}
ASSUMPTIONS = ['contracts of staircase and cancellation_distance as in C20',
               'logarithm and angle are the mathematical functions']


def poly_at(c, s):
    v = c[0] * 0
    for k in c:
        v = v * s + k
    return v


def entry(x, name, nd, dd, cancel, dt):
    """numerator, denominator and value at the evaluation point"""
    num = [x.real('%sn%d' % (name, i)) for i in range(nd + 1)]
    den = [x.pos(name + 'd0') * (-1 if len(name) > 1 and name[-1] == '1' else 1)] + [x.real('%sd%d' % (name, i + 1)) for i in range(dd)]
    s = x.const(0 if dt is None else 1)
    dv, nv = poly_at(den, s), poly_at(num, s)
    away(x, dv)
    if nd:
        away(x, num[0])
    for _ in range(cancel):
        num, den = conv(num, [x.const(1), -s]), conv(den, [x.const(1), -s])
    return num, den, nv / dv


DEG = [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2)]


@harness(HARNESSES)
def transfer_siso(x):
    nd, dd = x.choice('deg', x.q(DEG, DEG + [(0, 3), (1, 3), (2, 3), (3, 3)]))
    cancel = x.choice('integrators', [0, 1, 2])
    dt = x.choice('dt', [None, Fraction(1, 2)])
    num, den, want = entry(x, 'g', nd, dd, cancel, dt)
    if not x.sym and dt is not None and cancel:
        # cancellation at one is decided by rounding
        x.assume(abs(sum(num)) < 1e-15 and abs(sum(den)) < 1e-15)
    G = x.H.Transfer(num, den, dt=None if dt is None else float(dt))
    g = x.np.asarray(G.dcgain)
    x.same(g.size, 1, 'size')
    x.eq(g.reshape(-1)[0], want, 'gain')


@harness(HARNESSES)
def transfer_zero(x):
    """zeros at the evaluation point"""
    dt = x.choice('dt', [None, 0.25])
    s = x.const(0 if dt is None else 1)
    k, d = x.pos('k'), x.real('d')
    away(x, 1 + d if dt else d)
    G = x.H.Transfer([k, -k * s], conv([x.const(1), d], [x.const(1), x.const(3)]), dt=dt)
    g = x.np.asarray(G.dcgain).reshape(-1)
    x.eq(g[0], x.const(0), 'zero')


@harness(HARNESSES, ieee_div=True)
def transfer_integrator(x):
    """poles left at the evaluation point give an infinite value"""
    dt = x.choice('dt', [None, 0.25])
    more, less = x.choice('orders', [(1, 0), (2, 0), (2, 1)])
    wide = x.flag('1x2')
    s = 0 if dt is None else 1
    k, e = x.real('k'), x.pos('e')
    away(x, k)
    num, den = [k], [x.const(1), x.const(3)] if x.flag('lag') else [x.const(1)]
    for _ in range(more):
        den = conv(den, [x.const(1), x.const(-s)])
    for _ in range(less):
        num = conv(num, [x.const(1), x.const(-s)])
    if wide:
        num, den = [[num, [e]]], [[den, [x.const(1), x.const(2)]]]
    G = x.H.Transfer(num, den, dt=dt)
    g = x.np.asarray(G.dcgain).reshape(-1)
    x.same(g.size, 2 if wide else 1, 'size')
    v = g[0]
    x.same(str(v) if x.sym else str(float(v)), 'inf' if k > 0 else '-inf', 'infinite')
    if wide:
        x.eq(g[1], e / (s + 2), 'gain')


@harness(HARNESSES)
def transfer_mimo(x):
    p, m = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    kind = x.choice('kind', ['common', 'mixed', 'gain'])
    dt = x.choice('dt', [None, 0.25])
    num, den = [], []
    want = x.np.zeros((p, m)) * x.const(1)
    s = x.const(0 if dt is None else 1)
    shared = [x.const(1), x.real('r')]
    away(x, poly_at(shared, s))
    for i in range(p):
        num.append([]), den.append([])
        for j in range(m):
            nm = 'g%d%d' % (i, j)
            if kind == 'common':
                n = [x.pos(nm)]
                d = shared
            elif kind == 'gain':
                n, d = [x.real(nm)], [x.const(1)]
            else:
                n, d, _ = entry(x, nm, 0, (i + j) % 2, 0, dt)
            want[i, j] = poly_at(n, s) / poly_at(d, s)
            num[-1].append(n)
            den[-1].append(d)
    G = x.H.Transfer(num, den, dt=dt)
    g = G.dcgain
    x.same(tuple(g.shape), (p, m), 'shape')
    x.eq(g, want, 'gain')


DIMS = [(1, 0, 0, 0), (2, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1),
        (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (1, 1, 1, 0), (2, 1, 0, 0),
        (2, 0, 1, 0)]


@harness(HARNESSES)
def state(x):
    """regular models in a rotated basis"""
    dims = x.choice('dims', DIMS)
    n = sum(dims)
    m, p = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)] if n < 3 else [(1, 1)])
    dt = x.choice('dt', [None, Fraction(1, 2)] if n == 1 else [None, Fraction(1, 2)])
    a, X, c, ctr, unobs, obs = kalman(x, dims, m, p)
    for v in list(X.reshape(-1)) + list(c.reshape(-1)):
        x.assume(v <= 4)
        x.assume(v >= -4)
    # input matrix with a known solution of the steady state equations
    N = (ident(x, n) if dt is not None else ident(x, n) * 0) - a
    b = N @ X
    away(x, det(x, N))
    Q = basis(x, n, 0)
    A, B, C = Q @ a @ Q.T, Q @ b, c @ Q.T
    unreach = [i for i in range(n) if i not in ctr]
    k = len(ctr)
    contracts(x, [(A, Q, unreach, unobs),
                  (a[:k, :k], ident(x, k), [], [i for i in unobs if i < k])])
    x.hook('balance', lambda M: (A, ident(x, n)) if same(M, A) else None)
    keep = [i for i in ctr if i in obs]
    known = [(Q @ N @ Q.T, B, Q @ X)]
    for idx in (keep, keep[::-1], ctr):
        known.append((N[np.ix_(idx, idx)], b[idx, :], X[idx, :]))

    def solve(F, K):
        for f, g, h in known:
            if tuple(f.shape) == tuple(F.shape) and tuple(g.shape) == tuple(K.shape) \
                    and same(f, F) and same(g, K):
                return h
        return None
    x.hook('solve', solve)
    D = x.array('d', (p, m))
    G = x.H.State(A, B, C, D, None if dt is None else float(dt))
    g = x.np.asarray(G.dcgain)
    x.same(tuple(g.shape) if g.ndim == 2 else (1, 1), (p, m), 'shape')
    x.eq(g.reshape(p, m), c @ X + D, 'gain')
    x.eq(G.a, A, 'model unchanged')
    x.eq(G.d, D, 'model unchanged')


@harness(HARNESSES)
def state_integrator(x):
    """cancelled integrators, and integrators in some channels only"""
    dt = x.choice('dt', [None, 0.25, 1.])
    s = x.const(0 if dt is None else 1)
    case = x.choice('case', ['uncontrollable', 'unobservable', 'one channel'])
    a, b, c, d = x.real('a'), x.pos('b'), x.pos('c'), x.real('d')
    x.assume((a - s) * (a - s) > Fraction(1, 100))
    z, e = x.const(0), x.pos('e')
    A = x.mat([[a, z], [z, s]])
    if case != 'one channel':
        B = x.mat([[b], [z if case == 'uncontrollable' else e]])
        C = x.mat([[c, e if case == 'uncontrollable' else z]])
        D = x.mat([[d]])
        un, ob = ([1], []) if case == 'uncontrollable' else ([], [1])
        contracts(x, [(A, ident(x, 2), un, ob), (A[:1, :1], ident(x, 1), [], [])])
        x.hook('balance', lambda M: (A, ident(x, 2)) if same(M, A) else None)
        G = x.H.State(A, B, C, D, dt)
        g = x.np.asarray(G.dcgain).reshape(-1)
        return x.eq(g[0], c * b / (s - a) + d, 'gain')
    p, m = x.choice('shape', [(2, 2), (2, 3), (3, 2)])
    bb, cc = [b, x.const(0), x.pos('b2')][:m], [c, x.const(0), x.pos('c2')][:p]
    B = x.mat([bb, [z, e, z][:m]])
    C = x.mat([list(r) for r in zip(cc, [z, x.pos('f'), z])])
    D = x.array('d', (p, m))

    def staircase(F, K, L, form='c', invert=False):
        n = F.shape[0]
        T = ident(x, n)
        if n == 2:
            bad = K if form == 'c' else L.T
            dead = [i for i in range(2) if all(_zero(v) for v in bad[i])]
            order = [i for i in range(2) if i not in dead] + dead
            T = T[:, order]
        if invert:
            T = T[:, ::-1]
        return T.T @ F @ T, T.T @ K, L @ T, T
    contracts(x, [])
    x.hook('lib:staircase', staircase)
    x.hook('balance', lambda M: (M, ident(x, M.shape[0])))
    G = x.H.State(A, B, C, D, dt)
    g = G.dcgain
    for i in range(p):
        for j in range(m):
            if (i, j) != (1, 1):
                x.eq(g[i, j], cc[i] * bb[j] / (s - a) + D[i, j], 'gain')
    v = g[1, 1]
    x.same(str(v) if x.sym else str(float(v)), 'inf', 'infinite')
    x.eq(G.a, A, 'model unchanged')


@harness(HARNESSES)
def state_gain(x):
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 2)])
    D = x.array('d', (p, m))
    kind = x.choice('kind', ['State', 'Transfer'])
    G = getattr(x.H, kind)(D.tolist(), dt=x.choice('dt', [None, 0.25]))
    x.eq(x.np.asarray(G.dcgain).reshape(p, m), D, 'gain')
    x.same(G.pole_properties(), None, 'poles')


@harness(HARNESSES)
def properties(x):
    kind = x.choice('kind', ['State', 'Transfer'])
    what = x.choice('poles', ['r', 'c', 'rr', 'rc', 'cr'])
    dt = x.choice('dt', [None, Fraction(1, 4), Fraction(4)])
    n = sum(1 if k == 'r' else 2 for k in what)
    A, den, loc, i = x.np.zeros((n, n)) * x.const(1), [x.const(1)], [], 0
    for j, k in enumerate(what):
        re = x.real('re%d' % j)
        im = x.pos('im%d' % j) if k == 'c' else x.const(0)
        mag = re * re + im * im
        x.assume(mag > Fraction(1, 100))
        if dt is not None:
            x.assume((re - 1) * (re - 1) + im * im > Fraction(1, 100))
        if k == 'r':
            A[i, i] = re
            q = [x.const(1), -re]
            loc.append((re, im))
        else:
            A[i, i], A[i, i + 1], A[i + 1, i], A[i + 1, i + 1] = re, im, -im, re
            q = [x.const(1), -2 * re, mag]
            loc += [(re, im), (re, -im)]
        i += len(q) - 1
        den = conv(den, q)
    x.hook('eigvals', lambda M: x.vec([cplx(x, *v) for v in loc]) if M.shape[0] == n else None)
    if kind == 'State':
        b = x.np.ones((n, 1))
        G = x.H.State(A, b, b.T, x.np.zeros((1, 1)), dt=None if dt is None else float(dt))
    else:
        G = x.H.Transfer([x.pos('k')], den, dt=None if dt is None else float(dt))
    P = G.pole_properties()
    x.same(tuple(P.shape), (n, 3), 'shape')
    for i in range(n):
        p = P[i, 0]
        x.eq(p - G.poles[i], x.const(0), 'pole')
        p = G.poles[i]
        if dt is None:
            lr, li = p.real, p.imag
        else:
            T = x.const(dt)
            mag = p.real * p.real + p.imag * p.imag
            lr, li = x.np.log(mag) / 2 / T, x.np.angle(p) / T
        w, z = P[i, 1].real, P[i, 2].real
        x.eq(w * w - lr * lr - li * li, x.const(0), 'natural frequency')
        x.true(w >= 0, 'natural frequency')
        x.eq(z * w + lr, x.const(0), 'damping')


@harness(HARNESSES)
def integrators(x):
    """poles at the origin or at one: zero frequency, undefined damping"""
    dt = x.choice('dt', [None, 0.25])
    s = x.const(0 if dt is None else 1)
    a = x.real('a', -3, Fraction(-1, 4))
    A = x.mat([[s, x.const(0)], [x.const(0), a]])
    x.hook('eigvals', lambda M: x.vec([cplx(x, s, x.const(0)), cplx(x, a, x.const(0))]))
    b = x.np.ones((2, 1))
    P = x.H.State(A, b, b.T, dt=dt).pole_properties()
    x.eq(P[0, 1].real, x.const(0), 'frequency')
    x.same(str(P[0, 2].real), 'nan', 'damping')
    if dt is None:
        x.eq(P[1, 1].real, -a, 'frequency')
        x.eq(P[1, 2].real, x.const(1), 'damping')


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed models of order 4 and 5 with up to six channels, symbolic
    feedthrough"""
    n = x.choice('n', [4, 5])
    p, m = x.choice('shape', [(1, 1), (3, 2), (2, 3)])
    dt = x.choice('dt', [None, 0.5, 1., 8.])
    A, B, C, D = fixed_floats(n, p, m, dt)
    k = x.pos('k', Fraction(1, 4), 4)
    g = x.H.State(A, B, C, D * k, dt=dt).dcgain
    z = 0. if dt is None else 1.
    ref = C @ np.linalg.solve(z * np.eye(n) - A, B)
    near(x, x.np.asarray(g).reshape(p, m) - D * k, ref, x.const(1), 1e-4, 'static gain')
