"""Staircase and Hessenberg forms.

The data are generated from the reduced form in a rotated basis, which reaches
every triplet; the factorisations return the bases used."""
from symx.api import *
from symx.tf import tf, eq_tf, hidden_modes, near
from symx.linalg import _zero
from props.C03 import siso
from props.C16 import orthogonal

HARNESSES = []
FUNCTIONS = ['staircase', 'hessenberg_realization']
BOUNDS = {
    'quick': 'order up to 4, up to 3 inputs or outputs, every sequence of '
             'block ranks of that size, in one orthogonal basis per block; '
             'Hessenberg form up to order 4 and 2 inputs; transfer models of '
             'order up to 2; '
             'fixed models of order up to 6 with hidden modes and a '
             'symbolic gain',
    'thorough': 'as quick'}
ASSUMPTIONS = ['svd, qr and hessenberg return exact factors with the basis '
               'the data were built from',
               'singular values of the blocks lie between 1/8 and 4, far from '
               'the rank tolerance']


def ident(x, n):
    return x.np.eye(n) * x.const(1)


def basis(x, n, k):
    if n < 1:
        return ident(x, 0)
    return orthogonal(x, n, k % max(1, 5 - n)) if n > 1 else ident(x, 1)


def grow(x, k, U):
    """block diagonal of an identity of order k and U"""
    n = k + U.shape[0]
    M = ident(x, n)
    M[k:, k:] = U
    return M


def same(A, B):
    return tuple(A.shape) == tuple(B.shape) and all(
        _zero(a - b) for a, b in zip(np.asarray(A).reshape(-1),
                                     np.asarray(B).reshape(-1)))


def known_svd(x, known):
    def svd(M, full):
        for K, U, s, V in known:
            if same(M, K):
                return U, x.vec(s), V
        if min(M.shape) == 1:
            return None
        # not one of the blocks of the recursion: judged by the real run
        return (x.array('wu', (M.shape[0],) * 2), x.array('ws', (min(M.shape),)),
                x.array('wv', (M.shape[1],) * 2))
    x.hook('svd', svd)
    x.hook('norm', lambda A, ord=None: x.const(1))


def block(x, name, rows, cols, r, k):
    """rows x cols of rank r with its factors"""
    U, V = basis(x, rows, k), basis(x, cols, k + 1).T
    s = []
    for i in range(min(rows, cols)):
        s.append(x.pos('%s%d' % (name, i)) if i < r else x.const(0))
        if 0 < i < r:
            x.assume(s[i] <= s[i - 1])
    S = x.np.zeros((rows, cols)) * x.const(1)
    for i, v in enumerate(s):
        S[i, i] = v
    return U, s, V, S @ V


# order, inputs, ranks of the successive blocks
CASES = [(1, 1, (1,)), (1, 2, (1,)), (2, 1, (1, 1)), (2, 1, (1, 0)),
         (2, 2, (2,)), (2, 2, (1, 1)), (2, 2, (1, 0)), (2, 3, (2,)),
         (3, 1, (1, 1, 1)), (3, 1, (1, 1, 0)), (3, 1, (1, 0)),
         (3, 2, (2, 1)), (3, 2, (2, 0)), (3, 2, (1, 1, 1)), (3, 2, (1, 1, 0)),
         (3, 2, (1, 0)), (3, 3, (3,)), (3, 3, (2, 1)),
         (4, 1, (1, 1, 1, 1)), (4, 1, (1, 1, 1, 0)), (4, 1, (1, 1, 0)),
         (4, 2, (2, 1, 1)), (4, 2, (2, 2)), (4, 2, (2, 1, 0)), (4, 2, (2, 0)),
         (4, 2, (1, 1, 1, 1))]


def staircased(x, n, m, ranks):
    """pair reduced by the recursion with the given ranks"""
    U, s, V, B = block(x, 's0', n, m, ranks[0], 0)
    steps = []           # (start, size, U, s, V, reduced block)
    at, prev = 0, ranks[0]
    for k, r in enumerate(ranks[1:], 1):
        rows = n - at - prev
        if r == 0 or rows == 0:
            break
        steps.append((at, prev) + block(x, 's%d' % k, rows, prev, r, k))
        at, prev = at + prev, r
        if r == rows:
            break
    a = x.array('a', (n, n))
    done = at + prev
    for i in range(done, n):
        for j in range(done):
            a[i, j] = x.const(0)
    for st, size, u, sv, v, R in steps:
        a[st + size:, st:st + size] = R
    known = [(U @ B, U, s, V)]
    # undo the transformations, innermost first
    A = a
    for st, size, u, sv, v, R in steps[::-1]:
        r, rows = sum(1 for q in sv if not (_zero(q) if x.sym else q == 0)), R.shape[0]
        if r < rows:
            W = grow(x, st + size, u)
        else:
            # of full row rank: left as it is
            W = ident(x, n)
            A = A * 1
            A[st + size:, st:st + size] = u @ R
        A = W @ A @ W.T
        known.append((u @ R, u, sv, v))
    if x.sym:
        known_svd(x, known)
    return U @ A @ U.T, U @ B


@harness(HARNESSES)
def staircase_form(x):
    n, m, ranks = x.choice('case', CASES)
    p = x.choice('other', [1, 2]) if n < 3 else 1
    form, inv = x.choice('form', 'co'), x.flag('invert')
    A, B = staircased(x, n, m, ranks)
    C = x.array('c', (p, n))
    if form == 'o':
        A, B, C = A.T, C.T, B.T
    old = A * 1, B * 1, C * 1
    a, b, c, T = x.H.staircase(A, B, C, form=form, invert=inv)
    for M, N in zip((A, B, C), old):
        x.eq(M, N, 'arguments unchanged')
    x.same([tuple(M.shape) for M in (a, b, c, T)],
           [tuple(M.shape) for M in (A, B, C)] + [(n, n)], 'shapes')
    x.eq(T.T @ T, ident(x, n), 'orthogonal')
    x.eq(T @ a @ T.T, A, 'similar')
    x.eq(T @ b, B, 'input')
    x.eq(c @ T.T, C, 'output')
    if form == 'o':
        a, b = a.T, c.T
    if inv:
        a, b = a[::-1, ::-1], b[::-1, :]
    r0 = ranks[0]
    if r0 < n:
        x.eq(b[r0:, :], b[r0:, :] * 0, 'compressed')
    at = 0
    for k, r in enumerate(ranks):
        low = at + r + (ranks[k + 1] if k + 1 < len(ranks) else 0)
        if low < n:
            z = a[low:, at:at + r]
            x.eq(z, z * 0, 'staircase')
        at += r


@harness(HARNESSES)
def staircase_zero(x):
    """no input at all"""
    n = x.choice('n', [1, 2])
    form, inv = x.choice('form', 'co'), x.flag('invert')
    A, B, C = x.array('a', (n, n)), x.np.zeros((n, 1)), x.array('c', (1, n))
    if form == 'o':
        A, B, C = A.T, C.T, B.T
    a, b, c, T = x.H.staircase(A, B, C, form=form, invert=inv)
    x.eq(T @ a @ T.T, A, 'similar')
    x.eq(T @ b, B, 'input')
    x.eq(c @ T.T, C, 'output')
    for f in ('', 'C', 'cc', None):
        x.raises(ValueError, lambda: x.H.staircase(A, B, C, form=f), 'form')


def reduced(x, n, m):
    """pair reduced to Hessenberg form"""
    Q = basis(x, n, 0)
    W = grow(x, 1, basis(x, n - 1, 1))
    h = x.array('h', (n, n))
    for i in range(n):
        for j in range(i - 1):
            h[i, j] = x.const(0)
    R = x.array('r', (n, m))
    for i in range(n):
        for j in range(min(i, m)):
            R[i, j] = x.const(0)
    ab = W @ h @ W.T
    A, B = Q @ ab @ Q.T, Q @ R

    def qr(M, mode, pivoting):
        if same(M, B):
            return Q, R
        return x.array('wq', (M.shape[0],) * 2), x.array('wr', M.shape)

    def hess(M, q=True):
        H, V = (h, W) if same(M, ab) else (x.array('wh', M.shape),
                                           x.array('wv', M.shape))
        return (H, V) if q else H
    if n > 1:
        x.hook('qr', qr)
        x.hook('hessenberg', hess)
    return A, B


def check_hessenberg(x, A, B, C, a, b, c, T, form, inv):
    n = A.shape[0]
    if T is not None:
        x.eq(T.T @ T, ident(x, n), 'orthogonal')
        x.eq(T @ a @ T.T, A, 'similar')
        x.eq(T @ b, B, 'input')
        x.eq(c @ T.T, C, 'output')
    if form == 'o':
        a, b = a.T, c.T
    if inv:
        a, b = a[::-1, ::-1], b[::-1, :]
    for j in range(n - 2):
        x.eq(a[j + 2:, j], a[j + 2:, j] * 0, 'Hessenberg')
    if n > 1:
        x.eq(b[1:, 0], b[1:, 0] * 0, 'compressed')


@harness(HARNESSES)
def hessenberg_state(x):
    n, m = x.choice('size', [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (4, 2)])
    p = x.choice('other', [1, 2])
    form, inv = x.choice('form', 'co'), x.flag('invert')
    A, B = reduced(x, n, m)
    C = x.array('c', (p, n))
    if form == 'o':
        A, B, C = A.T, C.T, B.T
    how = x.choice('call', ['system', 'triple', 'matrices'])
    D = x.array('d', (C.shape[0], B.shape[1]))
    dt = x.choice('dt', [None, 0.25]) if n == 2 else None
    opt = dict(form=form, invert=inv)
    if how == 'triple':
        arg = (A, B, C)
    else:
        arg = x.H.State(A, B, C, D, dt)
    if how == 'matrices':
        opt['output'] = 'matrices'
    old = A * 1, B * 1, C * 1
    G = x.H.hessenberg_realization(arg, **opt)
    R = x.H.hessenberg_realization(arg, compute_T=True, **opt)
    for M, N in zip((A, B, C), old):
        x.eq(M, N, 'arguments unchanged')
    if how == 'matrices':
        g, f, T = G, R[:3], R[3]
    else:
        F, T = R
        for H in (F, G):
            x.same(H.SamplingPeriod, dt if how == 'system' else None, 'sampling period')
            x.eq(H.d, D if how == 'system' else D * 0, 'feedthrough')
        f, g = (F.a, F.b, F.c), (G.a, G.b, G.c)
    check_hessenberg(x, A, B, C, *f, T, form, inv)
    for M, N in zip(f, g):
        x.eq(M - N, M * 0, 'same result without the transformation')


@harness(HARNESSES)
def hessenberg_transfer(x):
    n = x.choice('order', [1, 2])
    dt = x.choice('dt', [None, 0.25])
    G = siso(x, 'g', n, n, dt)
    form, inv = x.choice('form', 'co'), x.flag('invert')
    F = x.H.hessenberg_realization(G, form=form, invert=inv)
    x.same(F.SamplingPeriod, dt, 'sampling period')
    s = x.real('s')
    eq_tf(x, F, tf(x, G, s), s, 'transfer matrix')


@harness(HARNESSES)
def hessenberg_gain(x):
    d = x.array('d', (2, 1))
    dt = x.choice('dt', [None, 0.25])
    state = x.flag('state')
    G = x.H.State(d, dt=dt) if state else x.H.Transfer(d.tolist(), dt=dt)
    form = x.choice('form', 'co')
    F = x.H.hessenberg_realization(G, form=form)
    x.eq(F.to_array(), d, 'gain')
    x.same(F.SamplingPeriod, dt, 'sampling period')
    F, T = x.H.hessenberg_realization(G, compute_T=True, form=form)
    x.eq(F.to_array(), d, 'gain')


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed models of order up to 6 with hidden modes, symbolic output gain"""
    p, m = x.choice('shape', [(1, 1), (3, 2), (2, 3)])
    unc, uno = x.choice('hidden', [(0, 0), (2, 1), (1, 2)])
    A, B, C, D, _ = hidden_modes(p, m, unc, uno)
    form = x.choice('form', ['c', 'o'])
    inv = x.flag('invert')
    k = x.pos('k', Fraction(1, 4), 4)
    b, c = (B, C * k) if form == 'c' else (B * k, C)
    a, b, c, T = x.H.staircase(A, b, c, form=form, invert=inv)
    one, n = x.const(1), len(A)
    T = np.array([[float(v) for v in r] for r in T])
    near(x, x.np.asarray(T.T @ T), np.eye(n), one, 1e-5, 'orthogonal')
    near(x, a, T.T @ A @ T, one, 1e-5, 'state matrix')
    near(x, b, T.T @ B, one if form == 'c' else k, 1e-5, 'input matrix')
    near(x, c, C @ T, k if form == 'c' else one, 1e-5, 'output matrix')
