"""Random models."""
import contextlib
import sys
from symx.api import *
from symx.tf import *

HARNESSES = []
FUNCTIONS = ['random_state_model']
BOUNDS = {
    'quick': 'up to 3 states and shapes up to 2x2; every random number of the '
             'generator is a symbolic real in (0,1), every random choice is '
             'enumerated, the shuffling rotation is symbolic for 2 states; '
             'sampling periods symbolic',
    'thorough': 'as quick with the rotation symbolic for 3 states'}
ASSUMPTIONS = ['the uniform generator does not return exactly 0',
               'the exponential function is positive, exceeds one for positive '
               'and is below one for negative arguments',
               'orthogonal matrices are products of rotations (up to signs)']


@contextlib.contextmanager
def scripted(x):
    """random numbers of the library are inputs of the harness"""
    cnt = {'r': 0, 'c': 0}

    def one():
        cnt['r'] += 1
        return x.real('rand%d' % cnt['r'], Fraction(1, 64), Fraction(63, 64))

    def rand(*shape):
        if not shape:
            return one()
        return x._mkarr(shape, [one() for _ in range(int(np.prod(shape)))])

    def choice(a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, int) else list(a)
        w = [1.] * len(a) if p is None else [float(v) for v in p]
        if len(w) != len(a) or abs(sum(w) - 1) > 1e-8 and p is not None:
            raise ValueError("'a' and 'p' must have same size")
        cnt['c'] += 1
        v = x.choice('draw%d' % cnt['c'], [u for u, k in zip(a, w) if k > 0])
        return v if size is None else np.array([v])

    def rvs(dim, *a, **k):
        if dim == 3 and not x.thorough:
            t = [[2, -1, 2], [2, 2, -1], [-1, 2, 2]]
            return x.mat([[x.const(Fraction(v, 3)) for v in r] for r in t])
        return rotation(x, dim, 'rot')
    if x.sym:
        x.hook('rand', rand)
        x.hook('choice', choice)
        x.hook('ortho_group', rvs)
        yield
        return
    import scipy.stats
    new = {id(np.random.rand): rand, id(np.random.choice): choice}
    og = scipy.stats.ortho_group
    keep = []
    holders = [np.random] + [m for n, m in list(sys.modules.items())
                             if n.split('.')[0] == 'harold' and m is not None]
    for m in holders:
        for n, v in list(vars(m).items()):
            if id(v) in new:
                keep.append((m, n, v))
    try:
        for m, n, v in keep:
            setattr(m, n, new[id(v)])
        og.__dict__['rvs'] = rvs
        yield
    finally:
        og.__dict__.pop('rvs', None)
        for m, n, v in keep:
            setattr(m, n, v)


def exponential(x):
    """matrix exponential of the block diagonal pole matrix"""
    def below(e, v):
        if bool(v < 0):
            x.assume(e < 1)
        elif bool(v > 0):
            x.assume(e > 1)

    def expm(M):
        n = M.shape[0]
        E = [[x.const(0) for _ in range(n)] for _ in range(n)]
        i = 0
        while i < n:
            if i + 1 < n and not (S_zero(M[i, i + 1]) and S_zero(M[i + 1, i])):
                e = M[i, i].exp()
                below(e, M[i, i])
                c, s = M[i, i + 1].cos(), M[i, i + 1].sin()
                E[i][i], E[i + 1][i + 1] = e * c, e * c
                E[i][i + 1], E[i + 1][i] = e * s, -e * s
                i += 2
            else:
                E[i][i] = M[i, i].exp()
                below(E[i][i], M[i, i])
                i += 1
        return x.mat(E)
    x.hook('expm', expm)


def S_zero(v):
    return bool(v == 0)


def charp(x, A):
    """c1, c2, .. of det(sI - A) = s^n + c1 s^(n-1) + .."""
    n = A.shape[0]
    M = x.mat([[x.const(0)] * n] * n)
    I = x.mat([[x.const(1 if i == j else 0) for j in range(n)] for i in range(n)])
    c, out = x.const(1), []
    for k in range(1, n + 1):
        M = A @ M + c * I
        AM = A @ M
        c = -sum((AM[i, i] for i in range(n)), x.const(0)) / k
        out.append(c)
    return out


def stable(x, A, dt, label):
    c = charp(x, A)
    n = len(c)
    if dt is None:
        x.true(c[0] > 0, label)
        x.true(c[-1] > 0, label)
        if n == 3:
            x.true(c[0] * c[1] > c[2], label)
        return
    if n == 1:
        x.true((c[0] < 1) & (c[0] > -1), label)
    else:
        x.true(1 + sum(c, x.const(0)) > 0, label)
        x.true((1 - c[0] + c[1] if n == 2 else 1 - c[0] + c[1] - c[2]) > 0, label)
        x.true((c[-1] < 1) & (c[-1] > -1), label)
        if n == 3:
            u = 1 - c[2] * c[2]
            v = c[1] - c[2] * c[0]
            x.true((u > v) & (u > -v), label)


def shaped(x, G, n, p, m, dt):
    x.same(tuple(G.shape), (p, m), 'shape')
    x.same(tuple(G.d.shape), (p, m), 'feedthrough')
    x.same(type(G).__name__, 'State', 'type')
    flags(x, G, (p, m) == (1, 1), n == 0, 'flags')
    if n:
        x.same(tuple(G.a.shape), (n, n), 'states')
        x.same(tuple(G.b.shape), (n, m), 'inputs')
        x.same(tuple(G.c.shape), (p, n), 'outputs')
    if dt is None:
        x.is_none(G.SamplingPeriod, 'continuous')
    else:
        x.eq(G.SamplingPeriod, dt, 'period')


@harness(HARNESSES, path_s=60, goal_ms=20000)
def stable_models(x):
    n = x.choice('n', [0, 1, 2, 3])
    p, m = x.choice('shape', [(1, 1), (2, 1), (1, 2), (2, 2)])
    x.assume(n < 2 or (p, m) in ((1, 1), (2, 1)))
    dt = x.pos('dt') if x.flag('discrete') else None
    prob = x.choice('probabilities', [None, [1, 0], [0, 1], [.25, .75]])
    x.assume(prob is None or n >= 2)
    exponential(x)
    kw = {} if prob is None else {'prob_dist': prob}
    if x.flag('keyword'):
        x.assume(n == 2)
        kw['stable'] = True
    with scripted(x):
        G = x.H.random_state_model(n, p, m, dt=dt, **kw)
    shaped(x, G, n, p, m, dt)
    if n:
        stable(x, G.a, dt, 'stable')


KINDS = {'real': [1, 0, 0, 0], 'pair': [0, 1, 0, 0], 'integrator': [0, 0, 1, 0],
         'axis': [0, 0, 0, 1], 'marginal': [0, 0, .5, .5], 'any': None}


@harness(HARNESSES, path_s=60, goal_ms=20000)
def pole_kinds(x):
    """models without the stability request have the kinds of poles asked for"""
    kind = x.choice('kind', list(KINDS))
    n = x.choice('n', [2, 3])
    x.assume(n == 2 or kind in ('integrator', 'marginal', 'any'))
    dt = x.pos('dt') if x.flag('discrete') else None
    exponential(x)
    with scripted(x):
        G = x.H.random_state_model(n, dt=dt, stable=False, prob_dist=KINDS[kind])
    shaped(x, G, n, 1, 1, dt)
    if kind == 'any':
        return
    c = charp(x, G.a)
    if kind == 'integrator':
        x.eq(G.a, x.mat([[x.const(int(dt is not None and i == j))
                          for j in range(n)] for i in range(n)]), 'integrators')
        return
    if kind == 'marginal':
        if n == 3:
            # one pole is an integrator
            k = x.const(0 if dt is None else 1)
            x.eq(k + k * c[0] + k * c[1] + c[2], x.const(0), 'integrator')
            c = [c[0] + k, c[1] + k * (c[0] + k)]
        x.eq(c[0] if dt is None else c[1], x.const(0 if dt is None else 1), 'marginal')
        d = c[1] >= 0 if dt is None else c[0] * c[0] <= 4
        x.true(d if x.sym else d | (c[1] > -1e-6 if dt is None else c[0] ** 2 < 4 + 1e-6),
               'marginal')
        return
    disc = c[0] * c[0] - 4 * c[1]
    if kind == 'real':
        x.true(disc >= -Fraction(1, 10 ** 5) if x.sym else disc >= -1e-6, 'real poles')
    elif kind == 'pair':
        # sampling may fold a pair onto the real line
        x.true(disc < 0 if dt is None else disc <= 0 if x.sym else disc <= 1e-6,
               'complex pair')
    elif dt is None:
        x.eq(c[0], x.const(0), 'imaginary axis')
        x.true(c[1] > 0, 'imaginary axis')
    else:
        x.eq(c[1], x.const(1), 'unit circle')
        x.true(disc <= 0 if x.sym else disc <= 1e-6, 'unit circle')


@harness(HARNESSES)
def rejected(x):
    """probabilities of the wrong number"""
    n, st, prob = x.choice('case', [
        (2, True, [.25, .25, .25, .25]), (2, False, [.5, .5]),
        (3, True, [.5, .25]), (2, False, [.5, .5, .5, .5])])
    x.real('unused', 0, 1)
    x.raises(ValueError, lambda: x.H.random_state_model(
        n, stable=st, prob_dist=prob), 'probabilities')
