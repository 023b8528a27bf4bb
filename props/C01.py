"""State models: sums, differences and negation."""
from symx.api import *
from symx.tf import *

HARNESSES = []
FUNCTIONS = ['State.__add__', 'State.__radd__', 'State.__sub__',
             'State.__rsub__', 'State.__neg__', 'State.validate_arguments',
             'State.__init__', 'Transfer.__add__/__sub__ (State operand)',
             'transfer_to_state (SISO, common denominator)']
BOUNDS = {
    'quick': 'orders 0..2 per operand (sum <= 3), shapes up to 2x2; every '
             'matrix entry, scalar and the frequency point are symbolic reals; '
             'orders 3 and 2 with up to nine channels and one free entry '
             'per matrix',
    'thorough': 'orders 0..3 per operand (sum <= 4), shapes up to 2x3; every '
                'matrix entry, scalar and the frequency point symbolic reals'}
SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2)]


def dts(x):
    return x.choice('dt', [None, 0.5])


def check(x, R, ref, dt, s, what):
    x.same(type(R).__name__, 'State', 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    eq_tf(x, R, ref, s, what)


@harness(HARNESSES)
def add_state_state(x):
    n1 = x.choice('n1', x.q([0, 1, 2], [0, 1, 2, 3]))
    n2 = x.choice('n2', [0, 1, 2])
    x.assume(n1 + n2 <= x.q(3, 4))
    shp = x.choice('shape', x.q(SHAPES, SHAPES + [(2, 3)]))
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    G, H = x.state('g', n1, *shp, dt=dt), x.state('h', n2, *shp, dt=dt)
    s = x.real('s')
    R = G + H if op == 'add' else G - H
    g, h = tf(x, G, s), tf(x, H, s)
    check(x, R, r_add(g, h if op == 'add' else r_neg(h)), dt, s,
          'sum of responses')


@harness(HARNESSES)
def add_broadcast(x):
    """a SISO operand is added to every channel of a MIMO one"""
    n1 = x.choice('n1', x.q([0, 1], [0, 1, 2]))
    n2 = x.choice('n2', x.q([0, 1], [0, 1, 2]))
    shp = x.choice('shape', x.q([(1, 2), (2, 2)], [(1, 2), (2, 1), (2, 2), (2, 3)]))
    swap = x.flag('siso first')
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    M, G = x.state('g', n1, *shp, dt=dt), x.state('h', n2, 1, 1, dt=dt)
    s = x.real('s')
    a, b = (G, M) if swap else (M, G)
    R = a + b if op == 'add' else a - b
    ta, tb = tf(x, a, s), tf(x, b, s)
    if swap:
        ta = r_bcast(x, ta, *shp)
    else:
        tb = r_bcast(x, tb, *shp)
    check(x, R, r_add(ta, tb if op == 'add' else r_neg(tb)), dt, s,
          'broadcast sum')


@harness(HARNESSES)
def add_scalar_array(x):
    n = x.choice('n', [0, 1, 2])
    shp = x.choice('shape', SHAPES)
    kind = x.choice('operand', ['scalar', 'int', 'array', '1-elem', '1D'])
    form = x.choice('form', ['G+k', 'k+G', 'G-k', 'k-G'])
    dt = dts(x)
    G = x.state('g', n, *shp, dt=dt)
    s = x.real('s')
    p, m = shp
    if kind == 'scalar':
        k = x.real('k')
        K = x.mat([[k] * m for _ in range(p)])
    elif kind == 'int':
        k = x.choice('k', [0, 3])
        K = x.mat([[x.const(k)] * m for _ in range(p)])
    elif kind == 'array':
        k = K = x.array('k', shp)
    elif kind == '1D':
        x.assume(p == 1 and m > 1)
        k = x.array('k', (m,))
        K = k.reshape(1, m)
    else:
        k = x.array('k', (1,))
        K = x.mat([[k[0]] * m for _ in range(p)])
    R = {'G+k': lambda: G + k, 'k+G': lambda: k + G, 'G-k': lambda: G - k,
         'k-G': lambda: k - G}[form]()
    g = tf(x, G, s)
    one = (K, x.np.ones((p, m)))
    ref = {'G+k': lambda: r_add(g, one), 'k+G': lambda: r_add(g, one),
           'G-k': lambda: r_add(g, r_neg(one)),
           'k-G': lambda: r_add(r_neg(g), one)}[form]()
    check(x, R, ref, dt, s, 'shifted response')


@harness(HARNESSES)
def siso_plus_matrix(x):
    """a SISO model plus a matrix is broadcast over the matrix shape"""
    n = x.choice('n', [0, 1, 2])
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    form = x.choice('form', ['G+k', 'k+G', 'G-k', 'k-G'])
    dt = dts(x)
    G = x.state('g', n, 1, 1, dt=dt)
    K = x.array('k', shp)
    s = x.real('s')
    R = {'G+k': lambda: G + K, 'k+G': lambda: K + G, 'G-k': lambda: G - K,
         'k-G': lambda: K - G}[form]()
    g = r_bcast(x, tf(x, G, s), *shp)
    one = (K, x.np.ones(shp))
    ref = {'G+k': lambda: r_add(g, one), 'k+G': lambda: r_add(g, one),
           'G-k': lambda: r_add(g, r_neg(one)),
           'k-G': lambda: r_add(r_neg(g), one)}[form]()
    check(x, R, ref, dt, s, 'broadcast shifted response')


@harness(HARNESSES)
def negate(x):
    n = x.choice('n', x.q([0, 1, 2], [0, 1, 2, 3]))
    shp = x.choice('shape', SHAPES)
    dt = dts(x)
    G = x.state('g', n, *shp, dt=dt)
    s = x.real('s')
    check(x, -G, r_neg(tf(x, G, s)), dt, s, 'negated response')


@harness(HARNESSES)
def add_state_transfer(x):
    """mixed representations: the result is a State model"""
    n = x.choice('n', x.q([0, 1], [0, 1, 2]))
    deg = x.choice('deg', x.q([0, 1], [0, 1, 2]))
    swap = x.flag('transfer first')
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    G = x.state('g', n, 1, 1, dt=dt)
    num = x.array('num', deg + 1)
    x.assume(num[0] != 0)
    den = x.array('den', deg + 1)
    x.assume(den[0] != 0)
    T = x.H.Transfer(num, den, dt=dt)
    s = x.real('s')
    a, b = (T, G) if swap else (G, T)
    R = a + b if op == 'add' else a - b
    ta, tb = tf(x, a, s), tf(x, b, s)
    check(x, R, r_add(ta, tb if op == 'add' else r_neg(tb)), dt, s,
          'mixed sum')


@harness(HARNESSES)
def add_state_transfer_mimo(x):
    """multichannel transfer operands"""
    n = x.choice('n', [0, 1])
    gs = x.choice('state', [(1, 1), (1, 2), (2, 2)])
    ts = x.choice('transfer', [(1, 1), (1, 2), (2, 2)])
    x.assume(gs == ts or (1, 1) in (gs, ts))
    swap = x.flag('transfer first')
    op = x.choice('op', ['add', 'sub'])
    dyn = x.flag('dynamic transfer')
    dt = dts(x)
    s = x.real('s')
    G = x.state('g', n, *gs, dt=dt)
    k = x.array('num', ts)
    for e in k.reshape(-1):
        x.assume(e != 0)
    num = [[[k[i, j]] for j in range(ts[1])] for i in range(ts[0])]
    T = x.H.Transfer(num, [1., x.real('p')], dt=dt) if dyn else \
        x.H.Transfer(num, dt=dt)
    a, b = (T, G) if swap else (G, T)
    R = a + b if op == 'add' else a - b
    shp = ts if gs == (1, 1) else gs
    ta, tb = [v if v[0].shape == shp else r_bcast(x, v, *shp)
              for v in (tf(x, a, s), tf(x, b, s))]
    check(x, R, r_add(ta, tb if op == 'add' else r_neg(tb)), dt, s,
          'mixed sum')


@harness(HARNESSES)
def larger(x):
    """orders 3 and 2, up to eight channels, one free entry per matrix"""
    shp = x.choice('shape', [(3, 3), (2, 4), (4, 1)])
    op = x.choice('op', ['add', 'sub', 'array', 'siso'])
    dt = dts(x)
    G = larger_state(x, 'g', 3, *shp, dt)
    s = x.real('s')
    g = tf(x, G, s)
    if op == 'array':
        K = fixed_matrix(x, shp, 2, x.real('k'))
        return check(x, K - G, r_add(r_neg(g), (K, x.np.ones(shp))), dt, s, 'shifted')
    H = larger_state(x, 'h', 2, *(shp if op != 'siso' else (1, 1)), dt)
    h = tf(x, H, s)
    h = r_bcast(x, h, *shp) if op == 'siso' else h
    check(x, G - H if op == 'sub' else G + H,
          r_add(g, r_neg(h) if op == 'sub' else h), dt, s, 'sum of responses')


@harness(HARNESSES)
def same_object(x):
    """a model added to or subtracted from itself"""
    n = x.choice('n', [0, 1, 2])
    shp = x.choice('shape', SHAPES)
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    G = x.state('g', n, *shp, dt=dt)
    s = x.real('s')
    g = tf(x, G, s)
    check(x, G + G if op == 'add' else G - G, r_add(g, g if op == 'add' else r_neg(g)),
          dt, s, 'sum of responses')
