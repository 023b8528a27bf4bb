"""Rejection of incompatible operands; operands stay untouched."""
from symx.api import *
from symx.tf import *
from props.C03 import poly, siso, mimo, dts

HARNESSES = []
FUNCTIONS = ['State/Transfer __add__ __radd__ __sub__ __rsub__ __mul__ '
             '__rmul__ __matmul__ __rmatmul__ __truediv__ __rtruediv__ __neg__',
             '_check_equal_dts', 'feedback', '_check_for_feedback_ic',
             '_check_for_int_float_array']
BOUNDS = {
    'quick': 'all pairs of {State, Transfer} x {static, first order}; operators '
             '+ - * @ / and feedback; shapes up to 3 channels; symbolic entries '
             'and, for the sampling period checks, symbolic periods',
    'thorough': 'as quick with second order models'}

OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '@': lambda a, b: a @ b,
       '/': lambda a, b: a / b}
KINDS = ['State dyn', 'State gain', 'Transfer dyn', 'Transfer gain']


def model(x, name, kind, shp, dt, nonzero=False):
    rep, dyn = kind.split()
    if nonzero and rep == 'Transfer':
        # no case split over vanishing entries
        k = x.array(name, shp)
        for e in k.reshape(-1):
            x.assume(e != 0)
        p, m = shp
        return x.H.Transfer([[[k[i, j]] for j in range(m)] for i in range(p)],
                            [1., x.real(name + 'd')] if dyn == 'dyn' else
                            [[[1.] for j in range(m)] for i in range(p)], dt=dt)
    if rep == 'State':
        return x.state(name, x.q(1, 2) if dyn == 'dyn' else 0, *shp, dt=dt)
    if shp == (1, 1):
        return siso(x, name, 0, x.q(1, 2) if dyn == 'dyn' else 0, dt)
    return mimo(x, name, shp, 'gain' if dyn == 'gain' else 'common', dt)


@harness(HARNESSES, svd='echelon')
def sampling_periods(x):
    k1, k2 = x.choice('left', KINDS), x.choice('right', KINDS)
    op = x.choice('op', list(OPS) + ['feedback'])
    s1, s2 = x.choice('shapes', [((1, 1), (1, 1)), ((2, 2), (2, 2)),
                                 ((1, 1), (2, 2)), ((2, 2), (1, 1))])
    which = x.choice('periods', ['R/Z', 'Z/R', 'Z/Z'])
    if op == 'feedback':
        x.assume(s1 == s2)
    t1 = x.pos('t1') if which[0] == 'Z' else None
    t2 = x.pos('t2') if which[2] == 'Z' else None
    if which == 'Z/Z':
        x.assume(t1 != t2)
    G, H = model(x, 'g', k1, s1, t1, True), model(x, 'h', k2, s2, t2, True)
    if op == 'feedback':
        x.raises(ValueError, lambda: x.H.feedback(G, H), 'feedback rejected')
        x.raises(ValueError, lambda: x.H.feedback(G, H, negative=False),
                 'positive feedback rejected')
    else:
        x.raises(ValueError, lambda: OPS[op](G, H), 'sampling periods differ')


MISMATCH = [((2, 2), (3, 3)), ((2, 2), (2, 3)), ((2, 3), (2, 2)),
            ((3, 3), (2, 2)), ((2, 1), (1, 2)), ((1, 2), (2, 2)),
            ((1, 2), (1, 3)), ((3, 1), (2, 1)),
            ((2, 2), (3, 2)), ((3, 2), (2, 2)), ((2, 3), (3, 2))]


def stretches(s1, s2):
    try:
        np.broadcast_shapes(s1, s2)
    except ValueError:
        return False
    return True


@harness(HARNESSES, svd='echelon', max_viol=400)
def shapes(x):
    k1, k2 = x.choice('left', KINDS), x.choice('right', KINDS)
    op = x.choice('op', list(OPS))
    s1, s2 = x.choice('shapes', MISMATCH)
    if op in ('@', '/') or 'State' in k1 and op == '*':
        # matrix composition: only the inner dimensions matter
        x.assume(s1[1] != s2[0])
    if op == '*' and 'State' in k2:
        x.assume(s1[1] != s2[0])
    # gains may stretch like arrays do; only shapes NumPy refuses are claimed
    x.assume(not stretches(s1, s2) or op in '@/')
    G, H = model(x, 'g', k1, s1, None, True), model(x, 'h', k2, s2, None, True)
    x.raises(Exception, lambda: OPS[op](G, H), 'shapes do not fit')


@harness(HARNESSES, svd='echelon', max_viol=400)
def array_shapes(x):
    k = x.choice('model', KINDS)
    op = x.choice('op', list(OPS))
    side = x.choice('array', ['left', 'right'])
    s1, s2 = x.choice('shapes', [((2, 2), (3, 3)), ((2, 3), (2, 2)),
                                 ((2, 2), (2, 3)), ((1, 2), (2, 2)),
                                 ((2, 1), (2, 2)), ((2, 2), (3,))])
    a, b = (s2, s1) if side == 'left' else (s1, s2)
    if len(s2) == 2 and (op in ('@', '/') or op == '*' and 'State' in k):
        x.assume(a[1] != b[0])
    x.assume(not stretches(s1, s2) or op in '@/')
    if op == '/':
        x.assume(side == 'left' or s2[0] == s2[-1])
    G, M = model(x, 'g', k, s1, None, True), x.array('m', s2)
    x.raises(Exception, lambda: OPS[op](*((M, G) if side == 'left' else (G, M))),
             'array shape does not fit')


@harness(HARNESSES, svd='echelon')
def complex_gains(x):
    k = x.choice('model', KINDS)
    shp = x.choice('shape', [(1, 1), (2, 2)])
    op = x.choice('op', list(OPS))
    side = x.choice('gain', ['left', 'right'])
    what = x.choice('form', ['scalar', 'array'])
    G = model(x, 'g', k, shp, None)
    z = 3j if what == 'scalar' else np.eye(shp[0]) * 1j
    if op == '/':
        x.assume(side == 'right' or what == 'array')
    x.raises(Exception, lambda: OPS[op](*((z, G) if side == 'left' else (G, z))),
             'complex gain rejected')


@harness(HARNESSES)
def foreign_operands(x):
    k = x.choice('model', KINDS)
    op = x.choice('op', list(OPS))
    side = x.choice('side', ['left', 'right'])
    what = x.choice('what', ['str', 'None', 'dict'])
    G = model(x, 'g', k, (1, 1), None)
    z = {'str': 'abc', 'None': None, 'dict': {}}[what]
    x.raises(Exception, lambda: OPS[op](*((z, G) if side == 'left' else (G, z))),
             'foreign operand rejected')


def parts(G):
    if type(G).__name__ == 'State':
        return list(G.matrices)
    if isinstance(G.num, list):
        return [e for q in G.polynomials for r in q for e in r]
    return [G.num, G.den]


@harness(HARNESSES, svd='echelon')
def operands_unchanged(x):
    k1, k2 = x.choice('left', KINDS), x.choice('right', KINDS + ['array', 'scalar'])
    op = x.choice('op', list(OPS) + ['feedback', 'neg'])
    shp = x.choice('shape', [(1, 1), (2, 2)])
    side = x.choice('side', [0, 1])
    x.assume(side == 0 or k2 in ('array', 'scalar'))
    x.assume(op != 'neg' or k2 == 'scalar' and side == 0)
    if op == '/':
        x.assume(shp == (1, 1) and 'gain' in k1 and k2 != 'array')
    if op == 'feedback':
        x.assume('Transfer' not in k1 and k2 != 'array' and 'gain' in (k1 + k2) and (
            k2 != 'scalar' or shp == (1, 1)))
    if shp == (2, 2):
        x.assume(x.q('Transfer dyn' != k1 or 'Transfer dyn' != k2, True))
    dt = 0.5
    G = model(x, 'g', k1, shp, dt)
    if k2 == 'array':
        H = x.array('m', shp)
        old = [H.copy()]
        cur = lambda: [H]
    elif k2 == 'scalar':
        H = x.real('k')
        x.assume(H != 0)
        old, cur = [], lambda: []
    else:
        H = model(x, 'h', k2, shp, dt)
        old = [e.copy() for e in parts(H)]
        cur = lambda: parts(H)
    before = [e.copy() for e in parts(G)]
    a, b = (G, H) if side == 0 else (H, G)
    try:
        if op == 'neg':
            R = -G
        elif op == 'feedback':
            if k2 == 'scalar':
                x.assume(k1.startswith('State') and 'dyn' in k1)
            R = x.H.feedback(a, b, negative=False)
        else:
            R = OPS[op](a, b)
    except (ValueError, np.linalg.LinAlgError):
        R = None
    for i, (u, v) in enumerate(zip(before + old, parts(G) + cur())):
        x.same(tuple(u.shape), tuple(v.shape), 'operand shape')
        if u.size:
            x.eq(v, u, 'operand unchanged')
    x.same(G.SamplingPeriod, dt, 'operand sampling period')
    if R is not None and hasattr(R, 'shape') and type(R).__name__ in ('State', 'Transfer'):
        # and the result owns its data: writing into it leaves operands alone
        for e in parts(R):
            if e.size:
                e += 1.
        for u, v in zip(before + old, parts(G) + cur()):
            if u.size:
                x.eq(v, u, 'result shares no data with an operand')


@harness(HARNESSES, svd='echelon')
def complex_typed_gains(x):
    """complex arrays without imaginary parts count as real"""
    k = x.choice('model', KINDS)
    shp = x.choice('shape', [(1, 1), (2, 2)])
    op = x.choice('op', ['+', '-', '*', '@', '/'])
    side = x.choice('gain', ['left', 'right'])
    x.assume(op != '/' or side == 'right' and shp == (1, 1))
    one_d = x.flag('1D') if shp == (1, 1) else False
    G = model(x, 'g', k, shp, None, True)
    M = x.array('m', (1,) if one_d else shp)
    for e in M.reshape(-1):
        x.assume(e != 0)
    Z = M + 0j
    a = lambda v: OPS[op](v, G) if side == "left" else OPS[op](G, v)
    R, Q = a(Z), a(M)
    x.same(type(R).__name__, type(Q).__name__, 'type')
    x.same(R.shape, Q.shape, 'shape')
    for u, v in zip(parts(R), parts(Q)):
        x.same(u.shape, v.shape, 'data shape')
        x.eq(u, v, 'same as the real array')
