"""Channel selection and block assembly."""
from symx.api import *
from symx.tf import *
from props.C03 import poly, siso, mimo, dts

HARNESSES = []
FUNCTIONS = ['State.__getitem__', 'Transfer.__getitem__',
             'concatenate_state_matrices', 'State.__init__',
             'Transfer.__init__', 'Transfer.validate_arguments']
BOUNDS = {
    'quick': 'models with up to 3 outputs and 3 inputs, orders 0..2, index '
             'expressions: integers, negative integers, slices (also with '
             'steps), index lists, Ellipsis-free single subscripts; symbolic data',
    'thorough': 'as quick, with every pair of index expressions on every shape'}

IDX = {'0': 0, '-1': -1, '1': 1, ':': slice(None), '0:2': slice(0, 2),
       '1:': slice(1, None), '::2': slice(None, None, 2),
       '::-1': slice(None, None, -1), '[0, 1]': [0, 1], '[1, 0]': [1, 0],
       '[-1]': [-1]}
SHAPES = [(2, 2), (1, 2), (2, 1), (2, 3), (3, 2), (3, 3), (1, 3), (3, 1)]


def sel(n, i):
    r = np.arange(n)[i]
    return [int(r)] if np.ndim(r) == 0 else [int(v) for v in r]


def ok(n, i):
    try:
        return len(sel(n, i)) > 0
    except IndexError:
        return False


def pick(x, shp):
    r = x.choice('rows', list(IDX))
    c = x.choice('cols', list(IDX) + ['none'])
    x.assume(ok(shp[0], IDX[r]))
    x.assume(c == 'none' or ok(shp[1], IDX[c]))
    ri = sel(shp[0], IDX[r])
    ci = sel(shp[1], IDX[c]) if c != 'none' else list(range(shp[1]))
    return IDX[r] if c == 'none' else (IDX[r], IDX[c]), ri, ci


@harness(HARNESSES)
def state_dynamic(x):
    shp = x.choice('shape', x.q([(2, 2), (1, 2), (2, 1), (3, 3)], SHAPES))
    n = x.choice('order', [1, 2])
    dt = dts(x)
    x.assume(x.q(dt is None or n == 1, True))
    idx, ri, ci = pick(x, shp)
    G = x.state('g', n, *shp, dt=dt)
    R = G[idx]
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    x.same(R.shape, (len(ri), len(ci)), 'shape')
    x.same(R.NumberOfStates, n, 'states')
    x.eq(R.a, G.a, 'A')
    x.eq(R.b, x.mat([[G.b[k, j] for j in ci] for k in range(n)]), 'B')
    x.eq(R.c, x.mat([[G.c[i, k] for k in range(n)] for i in ri]), 'C')
    x.eq(R.d, x.mat([[G.d[i, j] for j in ci] for i in ri]), 'D')


@harness(HARNESSES)
def state_gain(x):
    shp = x.choice('shape', SHAPES)
    dt = dts(x)
    x.assume(x.q(dt is None or max(shp) < 3, True))
    idx, ri, ci = pick(x, shp)
    G = x.state('g', 0, *shp, dt=dt)
    R = G[idx]
    flags(x, R, None, True, 'static')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    x.same(R.shape, (len(ri), len(ci)), 'shape')
    x.eq(R.d, x.mat([[G.d[i, j] for j in ci] for i in ri]), 'D')


def entry(G, i, j):
    if isinstance(G.num, list):
        return G.num[i][j], G.den[i][j]
    return G.num, G.den


def compare(x, R, G, ri, ci, dt):
    x.same(type(R).__name__, 'Transfer', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    x.same(R.shape, (len(ri), len(ci)), 'shape')
    for a, i in enumerate(ri):
        for b, j in enumerate(ci):
            (n1, d1), (n2, d2) = entry(R, a, b), entry(G, i, j)
            x.same(n1.shape, n2.shape, 'numerator length')
            x.same(d1.shape, d2.shape, 'denominator length')
            x.eq(n1, n2, 'numerator')
            x.eq(d1, d2, 'denominator')


@harness(HARNESSES, svd='echelon')
def transfer_gain(x):
    shp = x.choice('shape', SHAPES)
    dt = dts(x)
    x.assume(x.q(dt is None or max(shp) < 3, True))
    idx, ri, ci = pick(x, shp)
    p, m = shp
    k, d = x.array('k', shp), x.array('d', shp)
    for e in list(k.reshape(-1)) + list(d.reshape(-1)):
        x.assume(e != 0)
    G = x.H.Transfer([[[k[i, j]] for j in range(m)] for i in range(p)],
                     [[[d[i, j]] for j in range(m)] for i in range(p)], dt=dt)
    compare(x, G[idx], G, ri, ci, dt)


@harness(HARNESSES, svd='echelon')
def transfer_dynamic(x):
    """common denominator, different numerator lengths"""
    shp = x.choice('shape', [(2, 2), (1, 2), (2, 1)])
    dt = dts(x)
    x.assume(dt is None or max(shp) < 2 or shp == (1, 2))
    idx, ri, ci = pick(x, shp)
    p, m = shp
    k = x.array('k', shp)
    for e in k.reshape(-1):
        x.assume(e != 0)
    num = [[[k[i, j]] if (i + j) % 2 else [x.const(2), k[i, j]]
            for j in range(m)] for i in range(p)]
    q = x.real('q')
    G = x.H.Transfer(num, [x.const(1), q], dt=dt)
    compare(x, G[idx], G, ri, ci, dt)


@harness(HARNESSES)
def single_channel(x):
    """indexing a single channel model"""
    rep = x.choice('rep', ['State', 'State gain', 'Transfer', 'Transfer gain'])
    key = x.choice('key', ['0', '0,0', ':', ':,:', '-1,-1'])
    dt = dts(x)
    idx = {'0': 0, '0,0': (0, 0), ':': slice(None),
           ':,:': (slice(None), slice(None)), '-1,-1': (-1, -1)}[key]
    if rep.startswith('State'):
        G = x.state('g', 0 if 'gain' in rep else 2, 1, 1, dt=dt)
        R = G[idx]
        for u, v in zip(R.matrices, G.matrices):
            x.same(u.shape, v.shape, 'matrix shape')
            if u.size:
                x.eq(u, v, 'matrix')
    else:
        G = siso(x, 'g', 0, 0 if 'gain' in rep else 2, dt)
        R = G[idx]
        x.eq(R.num, G.num, 'num')
        x.eq(R.den, G.den, 'den')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    x.same(R.shape, (1, 1), 'shape')


@harness(HARNESSES)
def out_of_range(x):
    rep = x.choice('rep', ['State', 'State gain', 'Transfer'])
    key = x.choice('key', ['2', '0,2', '-3,0', '[0, 5]'])
    idx = {'2': 2, '0,2': (0, 2), '-3,0': (-3, 0), '[0, 5]': [0, 5]}[key]
    if rep == 'Transfer':
        G = mimo(x, 'g', (2, 2), 'gain', None)
    else:
        G = x.state('g', 0 if 'gain' in rep else 1, 2, 2)
    x.raises(IndexError, lambda: G[idx], 'index out of range')

    def put():
        G[0, 0] = 1.
    x.raises(ValueError, put, 'item assignment rejected')


@harness(HARNESSES)
def concatenation(x):
    """the block matrix [A B; C D]"""
    n = x.choice('order', [0, 1, 2])
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 3)])
    G = x.state('g', n, *shp, dt=dts(x))
    M = x.H.concatenate_state_matrices(G)
    p, m = shp
    x.same(tuple(M.shape), (n + p, n + m), 'shape')
    if n:
        x.eq(M[:n, :n], G.a, 'A block')
        x.eq(M[:n, n:], G.b, 'B block')
        x.eq(M[n:, :n], G.c, 'C block')
    x.eq(M[n:, n:], G.d, 'D block')
    T = siso(x, 't', 0, 1, None)
    x.raises(ValueError, lambda: x.H.concatenate_state_matrices(T),
             'only state models')
