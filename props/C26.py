"""Poles, zeros, stability and sampling attributes."""
from symx.api import *
from symx.linalg import _zero
from symx.tf import det, rotation, polyval, exact, fixed_floats
from props.C23 import conv

HARNESSES = []
FUNCTIONS = ['transmission_zeros', '_tzeros_reduce', 'State.__init__',
             'State setters', 'State._recalc', 'State._set_stability',
             'Transfer.__init__', 'Transfer setters', 'Transfer._recalc',
             'Transfer._set_stability', 'to_array']
BOUNDS = {
    'quick': 'zeros: order up to 3 single channel with every relative degree, '
             'order up to 3 and 2x2 with full, rank one and zero feedthrough, '
             '1x2 and 2x1 of order up to 2; histories: construction followed '
             'by up to two assignments, order 1 single channel; real and '
             'complex pole pairs, order up to 3; '
             'fixed models of order 4 and 5 with up to three channels',
    'thorough': 'three assignments'}
ASSUMPTIONS = ['rank tolerances relative to the size of the data are zero',
               'the generalised Schur form of a matrix pencil is exact',
               'singular value decompositions are exact']


def eye(x, n):
    return x.np.eye(n) * x.const(1)


def rosenbrock(x, A, B, C, D, s):
    top = x.np.hstack([A - eye(x, A.shape[0]) * s, B])
    return det(x, x.np.vstack([top, x.np.hstack([C, D])]))


def axis(x):
    """svd of matrices with at most one entry per row and column"""
    def svd(M, full):
        p, m = M.shape
        at = [(i, j) for i in range(p) for j in range(m) if not _zero(M[i, j])]
        if len(set(i for i, _ in at)) < len(at) or len(set(j for _, j in at)) < len(at):
            return None
        at = [(i, j) for i, j in at if not bool(M[i, j] == 0)]
        rows = [i for i, _ in at] + [i for i in range(p) if i not in dict(at)]
        used = [j for _, j in at]
        cols = used + [j for j in range(m) if j not in used]
        U = x.np.zeros((p, p)) * x.const(1)
        V = x.np.zeros((m, m)) * x.const(1)
        s = []
        for k, i in enumerate(rows):
            U[i, k] = x.const(1)
        for k, j in enumerate(cols):
            V[k, j] = x.const(1)
        for k, (i, j) in enumerate(at):
            neg = bool(M[i, j] < 0)
            V[k, j] = x.const(-1 if neg else 1)
            s.append(-M[i, j] if neg else M[i, j])
        s += [x.const(0)] * (min(p, m) - len(s))
        return U, x.vec(s), V
    return svd


def rank_one(M):
    p, m = M.shape
    return all(_zero(M[i, j] * M[k, l] - M[i, l] * M[k, j])
               for i in range(p) for k in range(i) for j in range(m) for l in range(j))


def null_svd(x):
    """wide matrix: right factor with a basis of the null space last"""
    first = axis(x)

    def svd(M, full):
        r = first(M, full)
        if r is not None:
            return r
        p, m = M.shape
        if min(p, m) > 1 and rank_one(M):
            i, j = next((i, j) for i in range(p) for j in range(m)
                        if not _zero(M[i, j]))
            away(x, M[i, j])
            U, s, _ = x.np.linalg.svd(M[:, j:j + 1])
            _, t, V = x.np.linalg.svd(M[i:i + 1, :])
            neg = bool(M[i, j] < 0)
            V[0, :] = V[0, :] * (-1 if neg else 1)
            top = s[0] * t[0] / (-M[i, j] if neg else M[i, j])
            return U, x.vec([top] + [x.const(0)] * (min(p, m) - 1)), V
        if p == m and full and p > 1 and bool(det(x, M) != 0):
            # invertible: only the rank is used
            return M, x.vec([x.const(1)] * p), eye(x, p)
        if p >= m or p == 1 or not full:
            return None
        L, R = M[:, :p], M[:, p:]
        d = det(x, L)
        if bool(d == 0):
            return None
        X = x.np.linalg.solve(L, R)
        V = x.np.zeros((m, m)) * x.const(1)
        V[:p, :p] = eye(x, p)
        V[p:, :p] = -X.T
        V[p:, p:] = eye(x, m - p)
        return eye(x, p), x.vec([x.const(1)] * p), V
    return svd


def schur(x, seen):
    def qz(E, F, output='real', **k):
        seen.append((E, F))
        n = E.shape[0]
        if n == 1:
            return E, F, eye(x, 1), eye(x, 1)
        z = x.np.diag(x.vec([x.real('zero%d' % i) for i in range(n)]))
        return eye(x, n), z, eye(x, n), eye(x, n)
    return qz


def check_zeros(x, M, want, label='zeros'):
    """want(s): polynomial whose roots are the zeros"""
    seen = []
    x.hook('qz', schur(x, seen))
    x.hook('norm', lambda a, k: x.const(1) if k == 'fro' else None)
    if not x.sym:
        x.assume(all(np.max(np.abs(m)) < 20 for m in M))
    z = x.H.transmission_zeros(*M)
    s, s0 = x.real('s'), x.real('s0')
    if not x.sym:
        z = np.asarray(z).reshape(-1)
        f = lambda t: np.prod(t - z)
        x.true(np.all(np.isfinite(z)), 'finite')
        a, b = f(s) * want(s0), f(s0) * want(s)
        scale = 1 + sum(abs(want(t)) for t in (s, s0)) * np.prod(1 + abs(s) + abs(s0) + np.abs(z))
        return x.true(abs(a - b) < 1e-5 * scale, label)
    z = list(x.np.asarray(z).reshape(-1))
    if not z:
        return x.eq(want(s), want(s0), label)
    x.same(len(seen), 1, label)
    E, F = seen[-1]
    x.same(len(z), E.shape[0], label)
    x.true(det(x, E) != 0, 'finite')
    chi = lambda t: det(x, F - E * t)
    x.eq(chi(s) * want(s0), chi(s0) * want(s), label)
    if len(z) > 1:
        for i, v in enumerate(z):
            x.eq(v, x.real('zero%d' % i), label)
    else:
        x.eq(F[0, 0] - E[0, 0] * z[0], x.const(0), label)


def away(x, v):
    x.assume(v != 0 if x.sym else abs(v) > Fraction(1, 20))


@harness(HARNESSES, tzeros='run')
def zeros_siso(x):
    """relative degree 0 to n"""
    n = x.choice('n', [1, 2, 3])
    r = x.choice('rel', list(range(n + 1)))
    A, B, C = x.array('a', (n, n)), x.array('b', (n, 1)), x.array('c', (1, n))
    D = x.mat([[x.real('d') if r == 0 else x.const(0)]])
    if r == 0:
        away(x, D[0, 0])
        if n == 3:
            C[0, 1] = C[0, 2] = x.const(0)
        x.assume(B[0, 0] != 0)
        x.assume(C[0, 0] != 0)
    else:
        # C = e_n', chain of r integrators on the output
        C = x.np.zeros((1, n)) * x.const(1)
        C[0, n - 1] = x.pos('c')
        for k in range(1, r):
            i = n - k
            for j in range(n):
                if j < i - 1:
                    A[i, j] = x.const(0)
            B[i, 0] = x.const(0)
            away(x, A[i, i - 1])
        away(x, B[n - r, 0])
        if n == 2:
            Q = rotation(x, 2, 'q')
            A, B, C = Q @ A @ Q.T, Q @ B, C @ Q.T
    x.hook('svd', axis(x))
    check_zeros(x, (A, B, C, D), lambda s: rosenbrock(x, A, B, C, D, s))


@harness(HARNESSES, tzeros='run')
def zeros_degenerate(x):
    """no input or no output action: no zeros"""
    n = x.choice('n', [1, 2])
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 2)])
    dead = x.choice('dead', ['b', 'c'])
    A, B, C = x.array('a', (n, n)), x.array('b', (n, m)), x.array('c', (p, n))
    D = x.array('d', (p, m))
    B, C = (B * 0, C) if dead == 'b' else (B, C * 0)
    if D.size > 1:
        D = x.np.ones((p, m))
    z = x.H.transmission_zeros(A, B, C, D)
    x.same(x.np.asarray(z).size, 0, 'zeros')


@harness(HARNESSES, tzeros='run')
def zeros_square(x):
    """two inputs and outputs"""
    n = x.choice('n', [1, 2, 3])
    rank = x.choice('rank', [0, 1, 2])
    A, B, C = x.array('a', (n, n)), x.array('b', (n, 2)), x.array('c', (2, n))
    D = x.np.zeros((2, 2)) * x.const(1)
    z = x.const(0)
    if rank == 2:
        # constant feedthrough, its rank is computed numerically
        D = x.np.array([[2., 1.], [0., 1.]])
        x.assume(B[0, 0] != 0)
        x.assume(C[0, 0] != 0)
        if n == 3:
            A[0, 1:] = z
    elif rank == 1:
        k = x.choice('at', [0, 1])
        D = x.np.zeros((2, 2))
        D[k, k] = 2.
        o = 1 - k
        C[o, :] = z
        C[o, n - 1] = x.pos('c')
        if n == 1:
            B[0, :] = [z if j == o else v for j, v in enumerate(B[0, :])]
            B[0, o] = x.pos('b')
            C[k, 0] = x.pos('c1')
        else:
            B[:, o] = z
            B[n - 1, o] = x.pos('b')
            C[k, :] = z
            C[k, 0] = x.pos('c1')
    else:
        if n == 1:
            return
        D = x.np.zeros((2, 2))
        C = x.np.zeros((2, n)) * x.const(1)
        C[0, n - 2], C[1, n - 1] = x.pos('c0'), x.pos('c1')
        B[n - 2:, :] = x.mat([[x.pos('b0'), z], [z, x.pos('b1')]])
    if rank == 1 and n == 2:
        Q = rotation(x, 2, 'q')
        A, B, C = Q @ A @ Q.T, Q @ B, C @ Q.T
    x.hook('svd', null_svd(x))
    check_zeros(x, (A, B, C, D), lambda s: rosenbrock(x, A, B, C, D, s))


@harness(HARNESSES, tzeros='run')
def zeros_tall_wide(x):
    """proportional channels keep the zeros, independent channels have none"""
    wide = x.flag('wide')
    n = x.choice('n', [1, 2])
    kind = x.choice('kind', ['proportional', 'strict', 'independent'])
    A, B, C = x.array('a', (n, n)), x.array('b', (n, 1)), x.array('c', (1, n))
    k = x.choice('k', [0, Fraction(4, 3)]) if kind != 'independent' else 0
    k = x.const(k)
    D = x.mat([[x.const(0) if kind == 'strict' else x.pos('d')]])
    z = x.const(0)
    x.hook('svd', null_svd(x))
    if kind == 'strict' or n == 2:
        C = x.np.zeros((1, n)) * x.const(1)
        C[0, n - 1] = x.pos('c')
    away(x, B[n - 1, 0])
    x.assume(C[0, n - 1] != 0)
    if kind == 'independent':
        if n == 2:
            return
        x.hook('norm', lambda a, k: x.const(1) if k == 'fro' else None)
        if not x.sym:
            x.assume(all(np.max(np.abs(m)) < 20 for m in (A, B, C)))
        b, c = x.pos('b1'), x.pos('c1')
        if wide:
            M = A, x.mat([[B[0, 0], b]]), C, x.np.array([[1.5, 0.]])
        else:
            M = A, B, x.mat([[C[0, 0]], [c]]), x.np.array([[1.5], [0.]])
        z = x.H.transmission_zeros(*M)
        return x.same(x.np.asarray(z).size, 0, 'zeros')
    want = lambda s: rosenbrock(x, A, B, C, D, s)
    if wide:
        M = A, x.np.hstack([B, B * k]), C, x.np.hstack([D, D * k])
    else:
        M = A, B, x.np.vstack([C, C * k]), x.np.vstack([D, D * k])
    check_zeros(x, M, want)


# histories

def stable(x, G):
    return getattr(G, '_isstable', None)


def attributes(x, G, poles, zeros, dt, static, label):
    x.same(G.SamplingPeriod, dt, label + ' period') if dt is None or G.SamplingPeriod is None \
        else x.eq(G.SamplingPeriod, x.const(dt), label + ' period')
    x.same(G.SamplingSet, 'R' if dt is None else 'Z', label + ' domain')
    p, z = list(x.np.asarray(G.poles).reshape(-1)), list(x.np.asarray(G.zeros).reshape(-1))
    x.same((len(p), len(z)), (len(poles), len(zeros)), label + ' counts')
    for a, b in zip(p, poles):
        x.eq(a, b, label + ' poles')
    for a, b in zip(z, zeros):
        x.eq(a, b, label + ' zeros')
    flag = stable(x, G)
    if flag is not None and len(poles) < 2:
        if not poles:
            x.true(flag, label + ' stability')
        else:
            good = poles[0] < 0 if dt is None else poles[0] * poles[0] < 1
            x.same(bool(flag), bool(good), label + ' stability')
    x.same(getattr(G, '_isdiscrete', dt is not None), dt is not None, label + ' domain')
    try:
        G.to_array()
        gain = True
    except ValueError:
        gain = False
    x.same(gain, static, label + ' static')


def state_expected(x, v):
    zeros = []
    if bool(v['d'] != 0) and bool(v['b'] != 0) and bool(v['c'] != 0):
        zeros = [v['a'] - v['b'] * v['c'] / v['d']]
    return [v['a']], zeros


MOVES = ['a', 'b', 'c', 'd', 'continuous', 'discrete', 'period', 'bad shape',
         'bad period']


def margin(x, v):
    """away from the stability boundary in the real run"""
    if not x.sym:
        x.assume(v in (0, 1, -1) or abs(v) > 1e-3 and abs(abs(v) - 1) > 1e-3)


def small(x, v):
    if not x.sym:
        x.assume(v == 0 or abs(v) > 1e-2)


@harness(HARNESSES, tzeros='run', eig='exact')
def state_history(x):
    dt = x.choice('dt', [None, 0.25])
    v = {'a': x.real('a'), 'b': x.pos('b'), 'c': x.pos('c'), 'd': x.real('d')}
    margin(x, v['a'])
    small(x, v['d'])
    seen = []
    x.hook('qz', schur(x, seen))
    G = x.H.State(v['a'], v['b'], v['c'], v['d'], dt=dt)
    attributes(x, G, *state_expected(x, v), dt, False, 'construction')
    for k in range(x.q(2, 3)):
        mv = x.choice('move%d' % k, MOVES if k < 2 else ['a', 'd', 'discrete', 'bad shape'])
        if mv in v:
            w = x.pos('b%d' % k) if mv == 'b' else x.real('%s%d' % (mv, k))
            if mv == 'a':
                margin(x, w)
            else:
                small(x, w)
            setattr(G, mv, w)
            v[mv] = w
        elif mv == 'continuous':
            G.SamplingPeriod, dt = None, None
        elif mv in ('discrete', 'period'):
            dt = 1 if mv == 'discrete' else Fraction(1, 2)
            G.SamplingPeriod = 1 if mv == 'discrete' else 0.5
        elif mv == 'bad shape':
            for nm in 'abcd':
                x.raises(ValueError, lambda: setattr(G, nm, [[1., 2.], [3., 4.]]), 'rejected')
        else:
            for bad in (0, -1, 'a'):
                x.raises(ValueError, lambda: setattr(G, 'SamplingPeriod', bad), 'rejected')
        attributes(x, G, *state_expected(x, v), dt, False, mv)
        for nm in 'abcd':
            x.eq(getattr(G, nm), x.mat([[v[nm]]]), 'data')


TMOVES = ['num0', 'num1', 'den0', 'den1', 'continuous', 'discrete', 'bad shape',
          'noncausal']


@harness(HARNESSES, eig='exact')
def transfer_history(x):
    dt = x.choice('dt', [None, 0.25])
    deg = x.choice('deg', [(0, 0), (0, 1), (1, 1)])
    def coef(name, k):
        c = [x.pos(name) * x.choice('sign ' + name, [1, -1])] + [x.real(name + '_')] * k
        if k:
            margin(x, c[1] / c[0])
        return c
    num, den = coef('n', deg[0]), coef('d', deg[1])
    G = x.H.Transfer(list(num), list(den), dt=dt)

    def look(label):
        poles = [-den[1] / den[0]] if len(den) > 1 else []
        zeros = [-num[1] / num[0]] if len(num) > 1 else []
        attributes(x, G, poles, zeros, dt, len(den) == 1, label)
        x.eq(x.np.asarray(G.num).reshape(-1), x.vec(num), 'numerator')
        x.eq(x.np.asarray(G.den).reshape(-1), x.vec(den), 'denominator')
    look('construction')
    for k in range(x.q(2, 3)):
        mv = x.choice('move%d' % k, TMOVES)
        if mv[:3] in ('num', 'den'):
            w = coef('%s%d' % (mv, k), int(mv[3]))
            n2, d2 = (w, den) if mv[0] == 'n' else (num, w)
            f = lambda: setattr(G, mv[:3], list(w))
            if len(n2) > len(d2):
                x.raises(ValueError, f, 'rejected')
            else:
                f()
                num, den = n2, d2
        elif mv == 'continuous':
            G.SamplingPeriod, dt = None, None
        elif mv == 'discrete':
            G.SamplingPeriod, dt = 1, 1
        elif mv == 'noncausal':
            x.raises(ValueError, lambda: setattr(G, 'num', [1, 2, 3]), 'rejected')
        else:
            x.raises(IndexError, lambda: setattr(G, 'num', [[1, 2]]), 'rejected')
            x.raises(IndexError, lambda: setattr(G, 'den', [[[1, 2], [1, 3]]]), 'rejected')
        look(mv)


def cplx(x, re, im):
    if x.sym:
        from symx.sym import SymComplex
        return SymComplex(re, im)
    return complex(re, im)


@harness(HARNESSES)
def stability(x):
    """real poles and complex pairs"""
    kind = x.choice('kind', ['State', 'Transfer'])
    what = x.choice('poles', ['r', 'c', 'rr', 'rc'])
    dt = x.choice('dt', [None, 0.25])
    loc, A, den = [], [], [x.const(1)]
    good = True
    n = sum(1 if k == 'r' else 2 for k in what)
    A = x.np.zeros((n, n)) * x.const(1)
    i = 0
    for j, k in enumerate(what):
        re = x.real('re%d' % j)
        im = x.pos('im%d' % j) if k == 'c' else x.const(0)
        mag = re * re + im * im
        if not x.sym:
            x.assume(abs(re) > 1e-3 and abs(mag - 1) > 1e-3)
        good = good and bool(re < 0 if dt is None else mag < 1)
        if k == 'r':
            A[i, i] = re
            q = [x.const(1), -re]
            loc.append(cplx(x, re, im))
        else:
            A[i, i], A[i, i + 1], A[i + 1, i], A[i + 1, i + 1] = re, im, -im, re
            q = [x.const(1), -2 * re, mag]
            loc += [cplx(x, re, im), cplx(x, re, -im)]
        i += len(q) - 1
        den = conv(den, q)
    x.hook('eigvals', lambda M: x.vec(loc) if M.shape[0] == n else None)
    if kind == 'State':
        b = x.np.ones((n, 1))
        G = x.H.State(A, b, b.T, x.np.zeros((1, 1)), dt=dt)
    else:
        G = x.H.Transfer([x.pos('k')], den, dt=dt)
    flag = stable(x, G)
    if flag is not None:
        x.same(bool(flag), good, 'stability')
    x.same(len(G.poles), n, 'poles')


@harness(HARNESSES, eig='exact', svd='echelon')
def transfer_multichannel(x):
    """entries with one shared or with separate first order denominators"""
    p, m = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    kind = x.choice('den', ['common', 'separate'])
    dt = x.choice('dt', [None, 0.25])
    how = x.choice('how', ['construction', 'den', 'num', 'period'])
    roots = [x.real('r%d' % i) for i in range(1 if kind == 'common' else p * m)]
    for i, r in enumerate(roots):
        margin(x, r)
        for q in roots[:i]:
            away(x, r - q)
    if kind == 'separate' and p * m == 4:
        return
    num = [[[x.pos('k%d%d' % (i, j))] for j in range(m)] for i in range(p)]
    den = [[[x.const(1), -roots[0 if kind == 'common' else i * m + j]]
            for j in range(m)] for i in range(p)]
    if kind == 'common' and p * m == 4:
        d = num[0][0][0] * num[1][1][0] - num[0][1][0] * num[1][0][0]
        away(x, d)
    other = [[[x.const(1), x.const(3)] for j in range(m)] for i in range(p)]
    if how == 'construction':
        G = x.H.Transfer(num, den, dt=dt)
    elif how == 'den':
        G = x.H.Transfer(num, other, dt=dt)
        G.den = den
    elif how == 'num':
        G = x.H.Transfer([[[x.const(i + 2 * j + 1)] for j in range(m)] for i in range(p)],
                         den, dt=dt)
        G.num = num
    else:
        G = x.H.Transfer(num, den, dt=None if dt else 1)
        G.SamplingPeriod = dt
    s = x.real('s')
    want = x.const(1)
    for r in roots * (2 if kind == 'common' and p * m == 4 else 1):
        want = want * (s - r)
    got = x.const(1)
    for r in x.np.asarray(G.poles).reshape(-1):
        got = got * (s - r)
    x.eq(got, want, 'poles')
    x.same(x.np.asarray(G.zeros).size if x.sym is False else 0, 0, 'zeros')
    good = all([bool(r < 0 if dt is None else r * r < 1) for r in roots])
    flag = stable(x, G)
    if flag is not None:
        x.same(bool(flag), good, 'stability')
    x.same(G.SamplingPeriod is None, dt is None, 'period')
    x.raises(ValueError, lambda: G.to_array(), 'static')


@harness(HARNESSES)
def gain_multichannel(x):
    """static models stay static until they get dynamics, and the reverse"""
    p, m = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    dt = x.choice('dt', [None, 0.25])
    K = x.array('k', (p, m))
    one = [[[x.const(1)] for j in range(m)] for i in range(p)]
    lag = [[[x.const(1), x.const(i + j + 1)] for j in range(m)] for i in range(p)]
    G = x.H.Transfer([[[K[i, j]] for j in range(m)] for i in range(p)], one, dt=dt)
    x.eq(G.to_array(), K, 'array')
    x.same((len(G.poles), len(G.zeros)), (0, 0), 'poles')
    N = x.H.Transfer(K.tolist() if x.sym else np.asarray(K).tolist(), dt=dt)
    L = x.array('l', (p, m))
    N.num = [[[L[i, j]] for j in range(m)] for i in range(p)]
    x.eq(N.to_array(), L, 'array')
    x.same((len(N.poles), len(N.zeros)), (0, 0), 'poles')
    flag = stable(x, G)
    x.same(flag in (True, None), True, 'stability')
    T = x.H.Transfer([[[x.const(1)] for j in range(m)] for i in range(p)], lag, dt=dt)
    T.den = one
    x.eq(T.to_array(), x.np.ones((p, m)), 'array')
    x.same((len(T.poles), len(T.zeros)), (0, 0), 'poles')
    T.den = lag
    x.raises(ValueError, lambda: T.to_array(), 'static')
    x.true(len(T.poles) > 0, 'poles')
    S = x.H.State(K, dt=dt)
    x.eq(S.to_array(), K, 'array')
    x.same((len(S.poles), len(S.zeros)), (0, 0), 'poles')


@harness(HARNESSES, eig='exact', tzeros='run')
def transfer_zeros(x):
    """proportional channels share their zero"""
    wide = x.flag('wide')
    how = x.choice('how', ['construction', 'num', 'den'])
    k, r, z = x.pos('k'), x.real('r'), x.real('z')
    away(x, r - z)
    x.hook('svd', null_svd(x))
    x.hook('qz', schur(x, []))
    x.hook('norm', lambda a, k: x.const(1) if k == 'fro' else None)
    ks = [k, k * Fraction(4, 3)] if x.sym else [k, k * 4 / 3]
    lay = lambda e: [e] if wide else [[v] for v in e]
    num = lay([[v, -v * z] for v in ks])
    den = lay([[x.const(1), -r] for v in ks])
    other = lay([[x.const(2), x.const(1)] for v in ks])
    G = x.H.Transfer(other if how == 'num' else num, other if how == 'den' else den)
    if how == 'num':
        G.num = num
    elif how == 'den':
        G.den = den
    got = list(x.np.asarray(G.zeros).reshape(-1))
    x.same((len(G.poles), len(got)), (1, 1), 'counts')
    x.eq(G.poles[0], r, 'poles')
    x.eq(got[0], z, 'zeros')


@harness(HARNESSES, eig='exact', svd='echelon')
def cancelled(x):
    """entries that are constant after cancellation keep the pole of the data"""
    wide = x.flag('wide')
    dt = x.choice('dt', [None, 0.25])
    how = x.choice('how', ['construction', 'num', 'den'])
    k, r = x.pos('k'), x.real('r')
    margin(x, r)
    ks = [k, k * 2]
    lay = lambda e: [e] if wide else [[v] for v in e]
    num = lay([[v, -v * r] for v in ks])
    den = lay([[x.const(1), -r] for v in ks])
    other = lay([[x.const(1), x.const(3)] for v in ks])
    G = x.H.Transfer(other if how == 'num' else num, other if how == 'den' else den, dt=dt)
    if how == 'num':
        G.num = num
    elif how == 'den':
        G.den = den
    got = list(x.np.asarray(G.poles).reshape(-1))
    x.true(len(got) > 0, 'poles')
    for v in got:
        x.eq(v, r, 'poles')
    flag = stable(x, G)
    if flag is not None:
        x.same(bool(flag), bool(r < 0 if dt is None else r * r < 1), 'stability')


@harness(HARNESSES)
def assigned_period(x):
    """simulation follows the assigned sampling period"""
    kind = x.choice('kind', ['State', 'Transfer'])
    was = x.choice('was', [None, 2])
    if kind == 'State':
        G = x.state('g', 1, 1, 1, was)
        F = x.H.State(G.a, G.b, G.c, G.d, dt=1)
    else:
        num, den = [x.pos('n')], [x.const(1), x.real('d')]
        G, F = x.H.Transfer(num, den, dt=was), x.H.Transfer(num, den, dt=1)
    G.SamplingPeriod = 1
    u, t = x.array('u', (3,)), x.np.array([0., 1., 2.])
    y = x.H.simulate_linear_system(G, u, t)[0]
    w = x.H.simulate_linear_system(F, u, t)[0]
    x.eq(y, w, 'response')
    # and the automatic grid of a model that became continuous again
    G.SamplingPeriod, F.SamplingPeriod = None, None
    K = x.H.State(x.array('k', (1, 1)), dt=1)
    K.SamplingPeriod = None
    _, t = x.H.simulate_step_response(K)
    _, w = x.H.simulate_step_response(x.H.State(K.d))
    x.eq(t, w, 'grid')


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed models of order 4 and 5: zeros drop the rank, poles are eigenvalues"""
    n = x.choice('n', [4, 5])
    m = x.choice('inputs', [1, 2, 3])
    dt = x.choice('dt', [None, 0.5])
    feed = x.flag('feedthrough')
    A, B, C, D = fixed_floats(n, m, m, dt)
    D = (D + np.eye(m)) * feed
    G = x.H.State(A, B, C, D, dt=dt)
    P, Z = (np.array([complex(v) for v in V]).reshape(-1) for V in (G.poles, G.zeros))
    s = x.real('s', -1, 1)
    cheb = lambda r: polyval(x, [Fraction(float(v)) for v in np.poly(r).real], s)
    a, b, c, d = (exact(x, M) for M in (A, B, C, D))
    e = cheb(P) - det(x, [[(s if i == j else 0) - a[i, j] for j in range(n)] for i in range(n)])
    x.true((e <= Fraction(1, 1000)) & (-e <= Fraction(1, 1000)), 'poles')
    M = x.np.vstack([x.np.hstack([a - x.np.eye(n) * s, b]), x.np.hstack([c, d])])
    lead = np.linalg.det(D) * (-1) ** n if feed else np.linalg.det(C @ B) * (-1) ** (n - m) * (-1) ** m
    x.assume(abs(lead) > 1e-2)
    x.same(len(Z), n if feed else n - m, 'number of zeros')
    e = det(x, M) - cheb(Z) * Fraction(float(lead))
    x.true((e <= Fraction(1, 1000)) & (-e <= Fraction(1, 1000)), 'zeros')
    x.same(bool(stable(x, G)), True, 'stability')
