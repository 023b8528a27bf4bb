"""Transfer models: sums, differences and negation."""
from symx.api import *
from symx.tf import *

HARNESSES = []
FUNCTIONS = ['Transfer.__add__', 'Transfer.__radd__', 'Transfer.__sub__',
             'Transfer.__rsub__', 'Transfer.__neg__', 'Transfer.__init__',
             'Transfer.validate_arguments', 'Transfer.to_array', 'haroldlcm',
             'haroldgcd', 'haroldpolyadd', 'haroldcompanion',
             'transfer_to_state (State operand)']
BOUNDS = {
    'quick': 'numerator and denominator degrees 0..1 (one operand 2 when '
             'single channel), shapes up to 2x2 (2x3 with one free entry for '
             'sums with a matrix); coefficients (one per model for 2x2 '
             'broadcast sums) and the frequency point symbolic reals; '
             'second order entries with up to six channels and one free '
             'gain',
    'thorough': 'degrees 0..2, shapes up to 2x2 and 2x3 for gains; all '
                'coefficients and the frequency point symbolic reals'}
SHAPES = [(1, 1), (1, 2), (2, 1), (2, 2)]


def dts(x):
    return x.choice('dt', [None, 0.5])


def poly(x, name, deg, monic=False):
    c = x.array(name, deg + 1)
    x.assume(c[0] != 0)
    return c


def siso(x, name, nd, dd, dt):
    return x.H.Transfer(poly(x, name + 'n', nd), poly(x, name + 'd', dd), dt=dt)


def mimo(x, name, shp, kind, dt):
    """kind: gain | common (first order denominator shared) | zero entry |
    mixed (static entries next to a dynamic one)"""
    p, m = shp
    if kind == 'gain':
        k = x.array(name + 'k', shp)
        num = [[[k[i, j]] for j in range(m)] for i in range(p)]
        if name != 'g':
            return x.H.Transfer(num, dt=dt)
        # denominators other than one in some of the entries
        den = [[[x.const(1 + (2 * i + j + 1) % 3)] for j in range(m)] for i in range(p)]
        return x.H.Transfer(num, den, dt=dt)
    k = x.array(name + 'k', shp)
    num = [[[k[i, j]] for j in range(m)] for i in range(p)]
    for e in k.reshape(-1):
        x.assume(e != 0)
    if kind == 'zero':
        num[0][-1] = [0.]
    if kind == 'mixed':
        den = [[[1.] for _ in range(m)] for _ in range(p)]
        den[0][0] = [x.const(2), x.real(name + 'p')]
        return x.H.Transfer(num, den, dt=dt)
    return x.H.Transfer(num, [x.const(1), x.real(name + 'p')], dt=dt)


def fixed(x, name, shp, dt, order=2):
    """fixed poles, numerators of full degree with some zero coefficients, one
    free gain in the last entry"""
    p, m = shp
    k = x.pos(name + 'k', Fraction(1, 4), 4)
    t = ord(name)
    num = [[[x.const(1 + (i + 2 * j + t) % 3)] +
            [x.const((i + j + q + t) % 3 - 1) for q in range(order)]
            for j in range(m)] for i in range(p)]
    num[0][0][-1] = x.const(0)
    num[-1][-1] = [k] + [x.const(0)] * order
    den = [x.const(1), x.const(2 + t % 2), x.const(1 + t % 2)][:order + 1]
    return x.H.Transfer(num, [[list(den) for j in range(m)] for i in range(p)], dt=dt)


def check(x, R, ref, dt, s, what, typ='Transfer'):
    x.same(type(R).__name__, typ, 'type')
    x.same(R.SamplingPeriod, dt, 'sampling period')
    eq_tf(x, R, ref, s, what)


@harness(HARNESSES, svd="echelon")
def add_siso(x):
    d1 = x.choice('deg1', x.q([(0, 0), (0, 1), (1, 1)],
                              [(0, 0), (0, 1), (1, 1), (0, 2), (1, 2)]))
    d2 = x.choice('deg2', [(0, 0), (0, 1), (1, 1)])
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    G, H = siso(x, 'g', *d1, dt), siso(x, 'h', *d2, dt)
    s = x.real('s')
    R = G + H if op == 'add' else G - H
    g, h = tf(x, G, s), tf(x, H, s)
    check(x, R, r_add(g, h if op == 'add' else r_neg(h)), dt, s, 'sum')


@harness(HARNESSES, svd="echelon")
def add_siso_related(x):
    """equal and shared denominators, equal operands"""
    kind = x.choice('kind', ['same den', 'scaled den', 'factor', 'same'])
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    p, q = x.real('p'), x.real('q')
    one = x.const(1)
    n1, n2 = poly(x, 'n1', 1), poly(x, 'n2', 1)
    k = x.real('k')
    x.assume(k != 0)
    d1 = x.vec([one, p])
    if kind == 'same den':
        d2 = x.vec([one, p])
    elif kind == 'scaled den':
        d2 = x.vec([k, k * p])
    elif kind == 'factor':
        d2 = x.vec([k, k * (p + q), k * p * q])
    else:
        d2, n2 = d1, n1
    G, H = x.H.Transfer(n1, d1, dt=dt), x.H.Transfer(n2, d2, dt=dt)
    s = x.real('s')
    R = G + H if op == 'add' else G - H
    g, h = tf(x, G, s), tf(x, H, s)
    check(x, R, r_add(g, h if op == 'add' else r_neg(h)), dt, s, 'sum')


@harness(HARNESSES, svd="echelon")
def add_mimo(x):
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    k1 = x.choice('first', ['gain', 'common', 'mixed'])
    k2 = x.choice('second', ['gain', 'common', 'zero'])
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    x.assume(x.q(dt is None or shp != (2, 2), True))
    G, H = mimo(x, 'g', shp, k1, dt), mimo(x, 'h', shp, k2, dt)
    s = x.real('s')
    R = G + H if op == 'add' else G - H
    g, h = tf(x, G, s), tf(x, H, s)
    check(x, R, r_add(g, h if op == 'add' else r_neg(h)), dt, s, 'sum')


@harness(HARNESSES, svd="echelon")
def add_broadcast(x):
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    k1 = x.choice('mimo', ['gain', 'common'])
    d2 = x.choice('siso', [(0, 0), (0, 1)])
    swap = x.flag('siso first')
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    x.assume(x.q(shp != (2, 2) or dt is None and op == 'add' and d2 == (0, 1)
                 and k1 == 'common', True))
    if x.q(shp == (2, 2), False):
        M = x.H.Transfer([[[x.real('k')], [x.const(2)]], [[x.const(3)], [x.const(-1)]]],
                         [x.const(1), x.const(4)], dt=dt)
    else:
        M = mimo(x, 'g', shp, k1, dt)
    G = siso(x, 'h', *d2, dt)
    s = x.real('s')
    a, b = (G, M) if swap else (M, G)
    R = a + b if op == 'add' else a - b
    ta, tb = tf(x, a, s), tf(x, b, s)
    if swap:
        ta = r_bcast(x, ta, *shp)
    else:
        tb = r_bcast(x, tb, *shp)
    check(x, R, r_add(ta, tb if op == 'add' else r_neg(tb)), dt, s,
          'broadcast sum')


@harness(HARNESSES, svd="echelon")
def add_scalar_array(x):
    shp = x.choice('shape', SHAPES)
    dyn = x.flag('dynamic')
    kind = x.choice('operand', ['scalar', 'int', 'array', '1-elem'])
    form = x.choice('form', ['G+k', 'k+G', 'G-k', 'k-G'])
    dt = dts(x)
    x.assume(x.q(dt is None or shp != (2, 2), True))
    p, m = shp
    if shp == (1, 1):
        G = siso(x, 'g', 1, 1, dt) if dyn else siso(x, 'g', 0, 0, dt)
    else:
        G = mimo(x, 'g', shp, 'common' if dyn else 'gain', dt)
    s = x.real('s')
    if kind == 'scalar':
        k = x.real('k')
        K = x.mat([[k] * m for _ in range(p)])
    elif kind == 'int':
        k = x.choice('k', [0, 3])
        K = x.mat([[x.const(k)] * m for _ in range(p)])
    elif kind == 'array':
        k = K = x.array('k', shp)
    else:
        k = x.array('k', (1,))
        K = x.mat([[k[0]] * m for _ in range(p)])
    R = {'G+k': lambda: G + k, 'k+G': lambda: k + G, 'G-k': lambda: G - k,
         'k-G': lambda: k - G}[form]()
    g = tf(x, G, s)
    one = (K, x.np.ones((p, m)))
    ref = {'G+k': lambda: r_add(g, one), 'k+G': lambda: r_add(g, one),
           'G-k': lambda: r_add(g, r_neg(one)),
           'k-G': lambda: r_add(r_neg(g), one)}[form]()
    check(x, R, ref, dt, s, 'shifted response')


@harness(HARNESSES, svd="echelon")
def siso_plus_matrix(x):
    deg = x.choice('deg', [(0, 0), (0, 1), (1, 1)])
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2), (2, 3)])
    form = x.choice('form', ['G+k', 'k-G'])
    dt = dts(x)
    G = siso(x, 'g', *deg, dt)
    K = x.array('k', shp)
    if x.q(min(shp) > 1, shp == (2, 3)):
        x.assume(deg == (0, 1))
        # one free entry
        for i in range(shp[0]):
            for j in range(shp[1]):
                if (i, j) != (1, 0):
                    K[i, j] = x.const(1 + 2 * i - 3 * j)
    s = x.real('s')
    R = G + K if form == 'G+k' else K - G
    g = r_bcast(x, tf(x, G, s), *shp)
    one = (K, x.np.ones(shp))
    ref = r_add(g, one) if form == 'G+k' else r_add(r_neg(g), one)
    check(x, R, ref, dt, s, 'broadcast shifted response')


@harness(HARNESSES, svd="echelon")
def negate(x):
    shp = x.choice('shape', SHAPES)
    kind = x.choice('kind', ['gain', 'common', 'zero', 'mixed'])
    dt = dts(x)
    if shp == (1, 1):
        x.assume(kind in ('gain', 'common'))
        G = siso(x, 'g', 0, 0, dt) if kind == 'gain' else siso(x, 'g', 1, 2, dt)
    else:
        G = mimo(x, 'g', shp, kind, dt)
    s = x.real('s')
    check(x, -G, r_neg(tf(x, G, s)), dt, s, 'negated')


@harness(HARNESSES, svd="echelon")
def add_mixed_mimo(x):
    """Transfer + State gives a State with the summed response"""
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    kind = x.choice('kind', ['gain', 'common'])
    n = x.choice('n', [0, 1])
    swap = x.flag('state first')
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    T, G = mimo(x, 't', shp, kind, dt), x.state('g', n, *shp, dt=dt)
    s = x.real('s')
    a, b = (G, T) if swap else (T, G)
    R = a + b if op == 'add' else a - b
    ta, tb = tf(x, a, s), tf(x, b, s)
    check(x, R, r_add(ta, tb if op == 'add' else r_neg(tb)), dt, s,
          'mixed sum', 'State')


@harness(HARNESSES, svd="echelon", float_consts=True)
def larger(x):
    """second order entries with zero coefficients, up to six channels"""
    shp = x.choice('shape', [(1, 3), (2, 2), (3, 2)])
    op = x.choice('op', ['add', 'sub', 'neg', 'array'])
    dt = dts(x)
    G, H = fixed(x, 'g', shp, dt), fixed(x, 'h', shp, dt, 1)
    s = x.real('s')
    g, h = tf(x, G, s), tf(x, H, s)
    if op == 'neg':
        return check(x, -G, r_neg(g), dt, s, 'negation')
    if op == 'array':
        K = x.mat([[x.const(i - j) for j in range(shp[1])] for i in range(shp[0])])
        K[-1, 0] = x.real('m')
        return check(x, G + K, r_add(g, (K, x.np.ones(shp))), dt, s, 'sum')
    R = G + H if op == 'add' else G - H
    check(x, R, r_add(g, h if op == 'add' else r_neg(h)), dt, s, 'sum')


@harness(HARNESSES, svd="echelon")
def same_object(x):
    """a model added to or subtracted from itself"""
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    order = x.choice('order', [0, 1, 2])
    op = x.choice('op', ['add', 'sub'])
    dt = dts(x)
    G = fixed(x, 'g', shp, dt, order) if shp != (1, 1) else siso(x, 'g', order, order, dt)
    s = x.real('s')
    g = tf(x, G, s)
    check(x, G + G if op == 'add' else G - G, r_add(g, g if op == 'add' else r_neg(g)),
          dt, s, 'sum')
