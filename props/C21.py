"""Pole placement by Ackermann's formula."""
from symx.api import *
from symx.tf import det, polyval, tf_ss, exact, hidden_modes, fixed_floats, near
from props.C15 import charpolys
from props.C18 import blocks, reachable, known
from props.C16 import orthogonal
from props.C23 import conv

HARNESSES = []
FUNCTIONS = ['ackermann', 'place_poles']
BOUNDS = {
    'quick': 'single-input models up to order 3 (order 3 with the input in '
             'one plane), real poles and conjugate pairs; order 4 in '
             'companion coordinates; '
             'fixed models of order 4 and 5',
    'thorough': 'order 5 and 6 in companion coordinates'}
ASSUMPTIONS = ['the singular value decomposition decides the exact rank',
               'the controllability matrix is not nearly singular']


def poles(x, n, pairs):
    """pole locations and their monic polynomial"""
    loc, p = [], [x.const(1)]
    for k in range(pairs):
        re, im = x.real('re%d' % k), x.pos('im%d' % k)
        if x.sym:
            from symx.sym import SymComplex
            loc += [SymComplex(re, im), SymComplex(re, -im)]
        else:
            loc += [complex(re, im), complex(re, -im)]
        p = conv(p, [x.const(1), -2 * re, re * re + im * im])
    for k in range(n - 2 * pairs):
        r = x.real('r%d' % k)
        loc.append(r)
        p = conv(p, [x.const(1), -r])
    return loc, p


def regular(x, A, B):
    d = det(x, blocks(x, A, B, 'c'))
    x.assume(d != 0 if x.sym else abs(d) > 1e-3)


def check(x, A, B, loc, p, K):
    n = A.shape[0]
    x.same(tuple(K.shape), (1, n), 'shape')
    M = A - B @ K
    Z = x.np.zeros((1, 1)) * x.const(1)
    _, den = charpolys(x, M, x.np.zeros((n, 1)) * x.const(1),
                       x.np.zeros((1, n)) * x.const(1), Z)
    for i, (u, v) in enumerate(zip(den, p)):
        x.eq(u, v, 'closed-loop polynomial')


def variants(x, A, B, loc):
    how = x.choice('call', ['tuple', 'state', 'discrete'])
    form = x.choice('container', ['list', 'tuple', 'array'])
    arg = (A, B)
    if how != 'tuple':
        n = A.shape[0]
        arg = x.H.State(A, B, x.np.ones((1, n)) * x.const(1),
                        dt=None if how == 'state' else 1)
    l = {'list': list, 'tuple': tuple, 'array': x.vec}[form](loc)
    return arg, l


@harness(HARNESSES, svd='echelon')
def low_order(x):
    n, pairs = x.choice('size', [(1, 0), (2, 0), (2, 1)])
    A, B = x.array('a', (n, n)), x.array('b', (n, 1))
    regular(x, A, B)
    loc, p = poles(x, n, pairs)
    arg, l = variants(x, A, B, loc)
    old = A * 1, B * 1
    K = x.H.ackermann(arg, l)
    check(x, A, B, loc, p, K)
    x.eq(A, old[0], 'argument unchanged')
    x.eq(B, old[1], 'argument unchanged')


@harness(HARNESSES, svd='echelon')
def third_order(x):
    pairs = x.choice('pairs', [0, 1])
    A = x.array('a', (3, 3))
    z = x.const(0)
    B = x.mat([[z], [x.pos('b')], [z]])
    if x.choice('input', ['axis', 'plane']) == 'plane':
        B[2, 0] = x.real('c')
    regular(x, A, B)
    loc, p = poles(x, 3, pairs)
    K = x.H.ackermann((A, B), loc)
    check(x, A, B, loc, p, K)


@harness(HARNESSES, svd='echelon')
def companion(x):
    n = x.choice('n', x.q([4], [4, 5, 6]))
    pairs = x.choice('pairs', list(range(n // 2 + 1)))
    z, o = x.const(0), x.const(1)
    A = x.mat([[o if j == i + 1 else z for j in range(n)] for i in range(n - 1)] +
              [[x.real('a%d' % i) for i in range(n)]])
    B = x.mat([[z]] * (n - 1) + [[x.pos('b')]])
    loc, p = poles(x, n, pairs)
    K = x.H.ackermann((A, B), loc)
    check(x, A, B, loc, p, K)


@harness(HARNESSES)
def uncontrollable(x):
    n, r = x.choice('size', [(2, 1), (3, 1), (3, 2)])
    A, B, Q = reachable(x, n, r, 1, 'c')
    known(x, blocks(x, A, B, 'c'), Q, r, [x.pos('s%d' % i) for i in range(r)], 'c')
    loc = [x.real('r%d' % i) for i in range(n)]
    x.raises(ValueError, lambda: x.H.ackermann((A, B), loc), 'uncontrollable')


@harness(HARNESSES, svd='echelon')
def rejected(x):
    n = x.choice('n', [1, 2])
    A = x.array('a', (n, n))
    B = x.array('b', (n, 2))
    loc = [x.real('r%d' % i) for i in range(3)]
    x.raises(ValueError, lambda: x.H.ackermann((A, B), loc[:n]), 'two inputs')
    b = B[:, :1]
    regular(x, A, b)
    for k in range(4):
        if k != n:
            x.raises(ValueError, lambda: x.H.ackermann(
                (A, b), loc[:k] if k < 4 else loc), 'number of poles')
    x.raises(ValueError, lambda: x.H.ackermann((A, b), [loc[:n]] * n), 'poles as a matrix')
    if n == 2:
        i, j = x.pos('i'), x.pos('j', lo=Fraction(1, 2))
        if x.sym:
            from symx.sym import SymComplex as cx
        else:
            cx = complex
        if x.flag('one complex'):
            w = [cx(loc[0], i), loc[1]]
        else:
            w = [cx(loc[0], i), cx(loc[0], -(i + j))]
        x.raises(ValueError, lambda: x.H.ackermann((A, b), w), 'not in pairs')
    x.raises(NotImplementedError, lambda: x.H.place_poles(A, b, loc), 'not available')


@harness(HARNESSES, float_consts=True, path_s=60)
def larger(x):
    """fixed models of order 4 and 5"""
    n = x.choice('n', [4, 5])
    A, B, _, _ = fixed_floats(n, 1, 1)
    loc = x.choice('poles', [(-1., -2., -3., -.5, -1.5), (-1 + 1j, -1 - 1j, -2., -.5, -3.),
                             (-1 + 1j, -1 - 1j, -.5 + 2j, -.5 - 2j, -1.)])[:n]
    K = x.H.ackermann((A, B), list(loc))
    x.same(tuple(K.shape), (1, n), 'shape')
    s = x.real('s', -1, 1)
    M = exact(x, A - B @ np.array([[float(v) for v in K.reshape(-1)]]))
    d = det(x, [[(s if i == j else 0) - M[i, j] for j in range(n)] for i in range(n)])
    e = d - polyval(x, [Fraction(float(v)) for v in np.poly(loc).real], s)
    x.true((e <= Fraction(1, 1000)) & (-e <= Fraction(1, 1000)), 'characteristic polynomial')
