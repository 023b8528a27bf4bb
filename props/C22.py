"""Linear quadratic regulator.

The Riccati solver is replaced by its contract: it gets some data and returns
an arbitrary symmetric matrix.  The solver run checks the data that reach it
and the gain built from its answer; the real run checks the Riccati equation
and the gain formula for the weights the caller gave."""
from symx.api import *
from symx.tf import det, exact, fixed_floats
from props.C03 import siso
from props.C16 import sym
from props.C15 import charpolys

HARNESSES = []
FUNCTIONS = ['lqr']
BOUNDS = {
    'quick': 'order 1 and 2, up to 2 inputs and 2 outputs, every combination '
             'of default and given weights, containers and spellings; '
             'transfer models of order 1 and 2; '
             'order 3 with three inputs and fixed data apart from one '
             'weight',
    'thorough': 'order 3'}
ASSUMPTIONS = ['the Riccati solver returns a symmetric solution for the data '
               'it is given and rejects data of the wrong shape',
               'weights are positive definite and the model is controllable']


def positive(x, M):
    """leading minors are positive"""
    for k in range(1, M.shape[0] + 1):
        d = det(x, M[:k, :k])
        x.assume(d > 0 if x.sym else d > 1e-2)


def solver(x, X, seen):
    def run(a, b, q, r, e=None, s=None, balanced=True):
        two = lambda M: x.np.atleast_2d(M)
        q, r = two(q), two(r)
        n, m = b.shape
        if tuple(q.shape) != (n, n) or tuple(r.shape) != (m, m):
            raise ValueError('shape of the weights')
        if s is not None:
            s = two(s)
            if tuple(s.shape) != (n, m):
                raise ValueError('shape of the cross weight')
        seen.append((a, b, q, r, s))
        return X
    return run


def weights(x, nq, m, r, s):
    """weights with their defaults"""
    Q = sym(x, 'q', nq)
    R = sym(x, 'r', m) if r else None
    S = x.array('s', (nq, m)) if s else None
    Rf = R if r else x.np.eye(m) * x.const(1)
    Sf = S if s else x.np.zeros((nq, m)) * x.const(1)
    positive(x, x.np.vstack([x.np.hstack([Q, Sf]), x.np.hstack([Sf.T, Rf])]))
    return Q, R, S, Rf, Sf


def given(x, M, how):
    if M is None:
        return None
    if how == 'list':
        return [[v for v in row] for row in M]
    return M


def check(x, G, T, Q, R, S, kw, args):
    """G: model passed, T: its state form, Q R S: full weights"""
    n, m = T.b.shape
    A, B = T.a, T.b
    disc = T.SamplingPeriod is not None
    K0 = x.np.hstack([B] + ([A @ B] if n > 1 else []) + ([A @ A @ B] if n > 2 else []))
    d = det(x, K0[:, :n])
    if m == 1:
        x.assume(d != 0 if x.sym else abs(d) > 1e-2)
    X0, seen, polys = sym(x, 'x', n), [], []
    if x.sym:
        # follows from positive weights and a semidefinite solution
        x.assume(det(x, R + B.T @ X0 @ B if disc else R) != 0)
    used = 'dare' if disc else 'care'
    x.hook(used, solver(x, X0, seen))
    other = []
    x.hook('care' if disc else 'dare', solver(x, X0, other))

    def eigvals(M, *a, **k):
        polys.append(M)
        return x.vec([x.real('e%d' % i) for i in range(M.shape[0])])
    x.hook('eigvals', eigvals)
    if x.sym:
        K, X, e = x.H.lqr(G, *args, **kw)
    else:
        try:
            K, X, e = x.H.lqr(G, *args, **kw)
        except np.linalg.LinAlgError:
            return x.assume(False)
    x.same([tuple(K.shape), tuple(X.shape), len(e)], [(m, n), (n, n), n], 'shapes')
    XB = X @ B
    if disc:
        x.eq((R + B.T @ XB) @ K - XB.T @ A - S.T, S.T * 0, 'gain')
    else:
        x.eq(R @ K - XB.T - S.T, S.T * 0, 'gain')
    if x.sym:
        x.same((len(seen), len(other)), (1, 0), 'equation')
        if len(seen) == 1:
            a, b, q, r, s = seen[0]
            x.eq(a, A, 'equation')
            x.eq(b, B, 'equation')
            x.eq(q, Q, 'equation')
            x.eq(r, R, 'equation')
            x.eq(S * 0 if s is None else s, S, 'equation')
        x.eq(X, X0, 'equation')
        M = polys[-1] if polys else A * 0
        x.eq(M, A - B @ K, 'closed-loop poles')
        for i, v in enumerate(e):
            x.eq(v, x.real('e%d' % i), 'closed-loop poles')
    else:
        if disc:
            res = A.T @ X @ A - X - (A.T @ XB + S) @ K + Q
        else:
            res = A.T @ X + X @ A - (XB + S) @ K + Q
        good = np.max(np.abs(res)) < 1e-5 * (1 + np.max(np.abs(X)) ** 2)
        x.true(good, 'equation')
        want = np.linalg.eigvals(A - B @ K)
        x.true(np.allclose(np.poly(e), np.poly(want), rtol=1e-6, atol=1e-6),
               'closed-loop poles')


@harness(HARNESSES)
def state_weighting(x):
    n, m = x.choice('size', x.q([(1, 1), (2, 1), (1, 2), (2, 2)],
                                [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)]))
    dt = x.choice('dt', [None, 0.25])
    r, s = x.flag('R'), x.flag('S')
    how = x.choice('container', ['array', 'list'])
    G = x.state('g', n, 1, m, dt)
    Q, R, S, Rf, Sf = weights(x, n, m, r, s)
    kw = {}
    if r:
        kw['R'] = given(x, R, how)
    if s:
        kw['S'] = given(x, S, how)
    word = x.choice('word', [None, 'state', 'State']) if n == 1 else None
    if word:
        kw['weight_on'] = word
    check(x, G, G, Q, Rf, Sf, kw, (given(x, Q, how),))


@harness(HARNESSES)
def output_weighting(x):
    n, p, m = x.choice('size', [(1, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 1), (2, 2, 1)])
    dt = x.choice('dt', [None, 0.25])
    r, s = x.flag('R'), x.flag('S')
    how = x.choice('container', ['array', 'list']) if n == 1 else 'array'
    G = x.state('g', n, p, m, dt)
    Q, R, S, Rf, Sf = weights(x, p, m, r, s)
    kw = {'weight_on': x.choice('word', ['output', 'Output']) if n == 1 else 'output'}
    if r:
        kw['R'] = given(x, R, how)
    if s:
        kw['S'] = given(x, S, how)
    C, D = G.c, G.d
    Qx = C.T @ Q @ C
    Sx = C.T @ Q @ D + C.T @ Sf
    Rx = Rf + D.T @ Q @ D + D.T @ Sf + Sf.T @ D
    check(x, G, G, Qx, Rx, Sx, kw, (given(x, Q, how),))


@harness(HARNESSES)
def scalar_weights(x):
    dt = x.choice('dt', [None, 0.25])
    G = x.state('g', 1, 1, 1, dt)
    q, r = x.pos('q'), x.pos('r')
    on = x.choice('on', ['state', 'output'])
    one = lambda v: x.mat([[v]])
    Q, R, S = one(q), one(r), one(x.const(0))
    if on == 'output':
        C, D = G.c, G.d
        Q, R, S = C.T @ Q @ C, R + D.T @ Q @ D, C.T @ Q @ D
    check(x, G, G, Q, R, S, {'R': r, 'weight_on': on}, (q,))


@harness(HARNESSES)
def transfer(x):
    n = x.choice('n', [1, 2])
    dt = x.choice('dt', [None, 0.25])
    den = [x.const(1)] + [x.real('d%d' % i) for i in range(n)]
    G = x.H.Transfer([x.pos('k')], den, dt=dt)
    T = x.H.transfer_to_state(G)
    on = x.choice('on', ['state', 'output'])
    nq = n if on == 'state' else 1
    Q, R, S, Rf, Sf = weights(x, nq, 1, True, False)
    if on == 'output':
        C, D = T.c, T.d
        Q1, R1, S1 = C.T @ Q @ C, Rf + D.T @ Q @ D, C.T @ Q @ D
    else:
        Q1, R1, S1 = Q, Rf, Sf
    check(x, G, T, Q1, R1, S1, {'R': R, 'weight_on': on}, (Q,))


@harness(HARNESSES)
def rejected(x):
    v = x.pos('v')
    I, J, L = x.np.eye(1) * v, x.np.eye(2) * v, x.np.eye(3) * v
    kind = x.choice('kind', ['State', 'Transfer'])
    gain = getattr(x.H, kind)(v)
    x.raises(ValueError, lambda: x.H.lqr(gain, I), 'gain')
    x.raises(ValueError, lambda: x.H.lqr(v, I), 'not a model')
    dt = x.choice('dt', [None, 0.25])
    G = x.state('g', 2, 2, 1, dt)
    seen = []
    for f in ('care', 'dare'):
        x.hook(f, solver(x, J, seen))
    x.hook('eigvals', lambda M, *a: x.vec([v] * M.shape[0]))
    for w in ('', 's', 'st', 'out', 'states', 'outputs', 'state, output', 'input'):
        x.raises(ValueError, lambda: x.H.lqr(G, J, weight_on=w), 'keyword')
    row = x.np.ones((2, 1)) * v
    for w in ('state', 'output'):
        for q, kw in ((L, {}), (I, {}), (row, {}), (J, {'R': J}), (J, {'R': row}),
                      (J, {'S': row.T}), (J, {'S': J})):
            x.raises(ValueError, lambda: x.H.lqr(G, q, weight_on=w, **kw), 'weights')


@harness(HARNESSES)
def arguments_unchanged(x):
    on = x.choice('on', ['state', 'output'])
    G = x.state('g', 1, 1, 1)
    old = [M * 1 for M in (G.a, G.b, G.c, G.d)]
    Q, R, S, Rf, Sf = weights(x, 1, 1, True, True)
    was = Q * 1, R * 1, S * 1
    seen = []
    x.hook('care', solver(x, x.mat([[x.real('x')]]), seen))
    x.hook('eigvals', lambda M, *a: x.vec([x.real('e')]))
    x.H.lqr(G, Q, R, S, weight_on=on)
    for M, N in zip((Q, R, S, G.a, G.b, G.c, G.d), list(was) + old):
        x.eq(M, N, 'arguments')


@harness(HARNESSES)
def larger(x):
    """order 3, up to three inputs and outputs, fixed data"""
    n, (p, m) = 3, x.choice('shape', [(1, 3), (3, 2), (2, 3), (2, 2), (3, 3)])
    dt = x.choice('dt', [None, 0.25])
    on = x.choice('weight_on', ['state', 'output'])
    cross = x.flag('S')
    A, B, C, D = (exact(x, M) for M in fixed_floats(n, p, m, dt))
    q = n if on == 'state' else p
    W = lambda k, t: x.mat([[x.const(t + i if i == j else Fraction(1, 2)) for j in range(k)]
                            for i in range(k)])
    Q, R = W(q, 2), W(m, 3)
    Q[0, 0] = x.real('q', 2, 3)
    S = x.mat([[x.const(Fraction((i + 2 * j) % 3 - 1, 4)) for j in range(m)] for i in range(q)])
    kw = dict(R=R, weight_on=on)
    if cross:
        kw['S'] = S
    else:
        S = S * 0
    G = x.H.State(A, B, C, D, dt)
    if on == 'output':
        # [y; u] = [C D; 0 I] [x; u]
        Qf = C.T @ Q @ C
        Sf = C.T @ Q @ D + C.T @ S
        Rf = D.T @ Q @ D + D.T @ S + S.T @ D + R
    else:
        Qf, Rf, Sf = Q, R, S
    check(x, G, G, Qf, Rf, Sf, kw, (Q,))
