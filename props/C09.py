"""Faithful construction of models."""
from symx.api import *
from symx.tf import *
from props.C03 import poly, dts

HARNESSES = []
FUNCTIONS = ['Transfer.__init__', 'Transfer.validate_arguments',
             'State.__init__', 'State.validate_arguments',
             'SamplingPeriod setters', 'to_array']
BOUNDS = {
    'quick': 'single channel degrees 0..2, multichannel shapes up to 2x2 with '
             'degree 1, state orders 0..2 and shapes up to 2x2; all data '
             'symbolic; containers: scalars, lists, nested lists, 1D and 2D '
             'arrays, integer arrays, common numerator/denominator',
    'thorough': 'degrees 0..3, shapes up to 2x3'}


def forms(x, v, label):
    """a coefficient vector in one of its containers"""
    f = x.choice(label, ['list', 'array', '2d array', '[[array]]', '[[list]]']
                 + (['scalar', '0d-free 1x1'] if len(v) == 1 else []))
    if f == 'scalar':
        return v[0]
    if f == '0d-free 1x1':
        return x.mat([[v[0]]])
    if f == 'list':
        return list(v)
    if f == 'array':
        return x.vec(list(v))
    if f == '2d array':
        return x.mat([list(v)])
    if f == '[[array]]':
        return [[x.vec(list(v))]]
    return [[list(v)]]


def trimmed(x, v):
    v = list(v)
    while len(v) > 1 and x.branch(v[0] == 0):
        v = v[1:]
    return v


@harness(HARNESSES)
def transfer_siso(x):
    nn = x.choice('num length', x.q([1, 2, 3], [1, 2, 3, 4]))
    nd = x.choice('den length', x.q([1, 2, 3], [1, 2, 3, 4]))
    dt = dts(x)
    x.assume(x.q(dt is None or nn + nd < 4, True))
    n, d = list(x.array('n', nn)), list(x.array('d', nd))
    x.assume(d[-1] != 0)
    rn, rd = trimmed(x, n), trimmed(x, d)
    a, b = forms(x, n, 'num form'), forms(x, d, 'den form')
    if len(rn) > len(rd):
        x.raises(ValueError, lambda: x.H.Transfer(a, b, dt=dt), 'noncausal')
        return
    G = x.H.Transfer(a, b, dt=dt)
    x.same(G.shape, (1, 1), 'shape')
    x.same(G.SamplingPeriod, dt, 'sampling period')
    x.same(G.SamplingSet, 'R' if dt is None else 'Z', 'sampling set')
    x.same((G.NumberOfInputs, G.NumberOfOutputs), (1, 1), 'channels')
    flags(x, G, True, None, 'single channel')
    flags(x, G, None, len(rd) == 1, 'static')
    x.same(G.num.shape, (1, len(rn)), 'numerator length')
    x.same(G.den.shape, (1, len(rd)), 'denominator length')
    x.eq(G.num, x.mat([rn]), 'numerator')
    x.eq(G.den, x.mat([rd]), 'denominator')
    if len(rd) == 1:
        x.eq(G.to_array() * rd[0], x.mat([rn]), 'to_array')
    else:
        x.raises(ValueError, G.to_array, 'to_array of a dynamic model')


@harness(HARNESSES)
def transfer_missing_side(x):
    """only a numerator, or only a denominator"""
    side = x.choice('given', ['num', 'den'])
    dt = dts(x)
    if side == 'num':
        v = [x.real('k')]
        G = x.H.Transfer(forms(x, v, 'form'), dt=dt)
        x.eq(G.num, x.mat([v]), 'numerator')
        x.eq(G.den, x.mat([[x.const(1)]]), 'denominator')
        flags(x, G, None, True, 'static')
    else:
        v = list(poly(x, 'd', x.choice('degree', [1, 2])))
        G = x.H.Transfer(None, forms(x, v, 'form'), dt=dt)
        x.eq(G.num, x.mat([[x.const(1)]]), 'numerator')
        x.eq(G.den, x.mat([v]), 'denominator')
        flags(x, G, None, False, 'dynamic')
    x.same(G.SamplingPeriod, dt, 'sampling period')
    x.same(G.shape, (1, 1), 'shape')


@harness(HARNESSES, svd='echelon')
def transfer_missing_numerators(x):
    """denominators of a multichannel model without numerators"""
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    dt = dts(x)
    p = x.array('p', shp)
    den = [[[1., p[i, j]] for j in range(shp[1])] for i in range(shp[0])]
    G = x.H.Transfer(None, den, dt=dt)
    x.same(G.shape, shp, 'shape')
    x.same(G.SamplingPeriod, dt, 'sampling period')
    for i in range(shp[0]):
        for j in range(shp[1]):
            x.eq(G.num[i][j], x.mat([[x.const(1)]]), 'numerator')
            x.eq(G.den[i][j], x.mat([[x.const(1), p[i, j]]]), 'denominator')


@harness(HARNESSES)
def state_vectors(x):
    """one dimensional input and feedthrough data of single input models"""
    n = x.choice('n', [1, 2])
    p = x.choice('outputs', [1, 2])
    A, C = x.array('a', (n, n)), x.array('c', (p, n))
    b, d = x.array('b', n), x.array('d', p)
    G = x.H.State(A, b, C, d)
    x.same(G.shape, (p, 1), 'shape')
    x.eq(G.b, b.reshape(n, 1), 'input matrix')
    x.eq(G.d, d.reshape(p, 1), 'feedthrough')
    x.eq(G.a, A, 'state matrix')
    x.eq(G.c, C, 'output matrix')


def ent(x, v, f):
    return list(v) if f == 'list' else x.vec(list(v)) if f == 'array' \
        else x.mat([list(v)])


@harness(HARNESSES, svd='echelon')
def transfer_mimo(x):
    """per entry lists, common numerator or denominator"""
    shp = x.choice('shape', x.q([(1, 2), (2, 1), (2, 2)],
                                [(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]))
    kind = x.choice('kind', ['entries', 'common den', 'common num'])
    f = x.choice('entry form', ['list', 'array', '2d array'])
    dt = dts(x)
    x.assume(x.q(dt is None or shp == (1, 2), True))
    P, M = range(shp[0]), range(shp[1])
    k = x.array('k', shp)
    q = x.real('q')
    z = x.real('z')
    if kind != 'common num':
        for e in k.reshape(-1):
            x.assume(e != 0)
        num = [[[k[i, j]] for j in M] for i in P]
        num[-1][-1] = [z, k[-1, -1]]        # possibly a leading zero
        ref = [[num[i][j] for j in M] for i in P]
        ref[-1][-1] = trimmed(x, ref[-1][-1])
        a = [[ent(x, num[i][j], f) for j in M] for i in P]
    if kind == 'entries':
        den = [[[x.const(1 + i), q * (j + 1)] for j in M] for i in P]
        b = [[ent(x, den[i][j], f) for j in M] for i in P]
    elif kind == 'common den':
        den = [[[x.const(2), q]] * shp[1]] * shp[0]
        b = forms(x, den[0][0], 'den form')
    else:
        ref = [[[z]] * shp[1]] * shp[0]
        a = forms(x, [z], 'num form')
        den = [[[x.const(2 + i), k[i, j]] for j in M] for i in P]
        b = [[ent(x, den[i][j], f) for j in M] for i in P]
    G = x.H.Transfer(a, b, dt=dt)
    x.same(G.shape, shp, 'shape')
    x.same((G.NumberOfOutputs, G.NumberOfInputs), shp, 'channels')
    x.same(G.SamplingPeriod, dt, 'sampling period')
    flags(x, G, False, False, 'flags')
    x.same((len(G.num), len(G.num[0])), shp, 'rows and columns')
    for i in P:
        for j in M:
            n, d = G.num[i][j], G.den[i][j]
            x.same(n.shape, (1, len(ref[i][j])), 'numerator length')
            x.eq(n, x.mat([ref[i][j]]), 'numerator')
            x.eq(d, x.mat([den[i][j]]), 'denominator')
    x.true(all(G.den[i][j] is not G.den[0][0] for i in P for j in M
               if (i, j) != (0, 0)), 'entries do not share storage')


@harness(HARNESSES, svd='echelon')
def transfer_mimo_gain(x):
    shp = x.choice('shape', [(2, 2), (2, 3), (3, 2), (1, 2), (2, 1)])
    kind = x.choice('kind', ['array', 'nested list', 'entries', 'with den',
                             'scalar den'])
    dt = dts(x)
    P, M = range(shp[0]), range(shp[1])
    k = x.array('k', shp)
    q = x.real('q')
    x.assume(q != 0)
    one = x.const(1)
    den = [[one] * shp[1]] * shp[0]
    if kind == 'array':
        x.assume(min(shp) > 1)
        G = x.H.Transfer(k, dt=dt)
    elif kind == 'nested list':
        G = x.H.Transfer([[k[i, j] for j in M] for i in P], dt=dt)
    elif kind == 'entries':
        G = x.H.Transfer([[[k[i, j]] for j in M] for i in P], dt=dt)
    elif kind == 'with den':
        x.assume(min(shp) > 1)
        den = [[q * (1 + i + j) for j in M] for i in P]
        G = x.H.Transfer(k, x.mat(den), dt=dt)
    else:
        den = [[q] * shp[1]] * shp[0]
        G = x.H.Transfer([[[k[i, j]] for j in M] for i in P], q, dt=dt)
    x.same(G.shape, shp, 'shape')
    flags(x, G, False, True, 'flags')
    x.same(G.SamplingPeriod, dt, 'sampling period')
    for i in P:
        for j in M:
            x.eq(G.num[i][j] * den[i][j], G.den[i][j] * k[i, j], 'entry')
    x.eq(G.to_array() * x.mat(den), k, 'to_array')


@harness(HARNESSES)
def transfer_rejections(x):
    kind = x.choice('kind', ['zero den', 'zero den array', 'zero den entry',
                             'zero den gain', 'row lengths', 'den row lengths', 'shape', 'period',
                             'zero period', 'noncausal entry',
                             'noncausal common den', 'noncausal common num',
                             'string', 'noncausal gain', 'noncausal mixed',
                             'noncausal square'])
    T = x.H.Transfer
    k, q = x.real('k'), x.real('q')
    x.assume(k != 0)
    if kind == 'zero den':
        f = lambda: T(k, 0.)
    elif kind == 'zero den array':
        f = lambda: T(x.vec([k]), x.vec([x.const(0), x.const(0)]))
    elif kind == 'zero den entry':
        f = lambda: T([[[k], [q]]], [[[1., q], [0., 0.]]])
    elif kind == 'zero den gain':
        f = lambda: T([[[k], [q]]], [[[1.], [0.]]])
    elif kind == 'row lengths':
        f = lambda: T([[[k], [q]], [[k]]], [1., q])
    elif kind == 'den row lengths':
        f = lambda: T([k], [[[1., q], [1., k]], [[1., q]]])
    elif kind == 'shape':
        a, b = x.choice('shapes', [((1, 2), (2, 1)), ((1, 2), (1, 3)), ((1, 3), (1, 2)),
                                   ((2, 1), (3, 1)), ((3, 1), (2, 1)), ((2, 2), (2, 1)),
                                   ((2, 2), (1, 2)), ((2, 1), (2, 2)), ((1, 2), (2, 2)),
                                   ((2, 2), (2, 3)), ((2, 3), (3, 2))])
        deg = x.choice('denominators', [0, 1])
        lay = lambda s, e: [[list(e) for j in range(s[1])] for i in range(s[0])]
        f = lambda: T(lay(a, [k]), lay(b, [1., q] if deg else [k]))
    elif kind == 'period':
        dt = x.real('dt')
        x.assume(dt < 0)
        f = lambda: T(k, [1., q], dt=dt)
    elif kind == 'zero period':
        f = lambda: T(k, [1., q], dt=0.)
    elif kind == 'noncausal entry':
        f = lambda: T([[[1.], [k, q, 1.]]], [[[1., 2.], [1., q]]])
    elif kind == 'noncausal common den':
        f = lambda: T([[[1.], [k, q, 1.]]], [1., q])
    elif kind == 'noncausal common num':
        f = lambda: T([k, q, 1.], [[[1., 2., 3.], [1., q]]])
    elif kind == 'noncausal mixed':
        f = lambda: T([[[1.], [k, q]]], [[[1., 2.], [1.]]])
    elif kind == 'noncausal square':
        f = lambda: T([[[1.], [1.]], [[k, q, 2.], [1.]]],
                      [[[1., 2.], [1., 2.]], [[1., q], [1., 3.]]])
    elif kind == 'noncausal gain':
        f = lambda: T([[[1.], [k, q]]])
    else:
        f = lambda: T('abc', [1., q])
    x.raises(Exception, f, 'rejected')


@harness(HARNESSES, svd='echelon')
def transfer_owns_data(x):
    """later writes by the caller do not reach the model"""
    kind = x.choice('kind', ['siso arrays', 'siso 2d', 'mimo entries', 'common'])
    n, d = x.array('n', 2), x.array('d', 2)
    x.assume(n[0] != 0)
    x.assume(d[0] != 0)
    if kind == 'siso arrays':
        a, b, src = n, d, [n, d]
        G = x.H.Transfer(a, b)
    elif kind == 'siso 2d':
        a, b = x.mat([list(n)]), x.mat([list(d)])
        src = [a, b]
        G = x.H.Transfer(a, b)
    elif kind == 'mimo entries':
        src = [n, d]
        G = x.H.Transfer([[n, [1.]]], [[d, [1., 2.]]])
    else:
        src = [d]
        G = x.H.Transfer([[[1.], [2.]]], d)
    g = lambda: [G.num, G.den] if not isinstance(G.num, list) else [
        e for q in (G.num, G.den) for r in q for e in r]
    old = [e.copy() for e in g()]
    for s in src:
        s += 1.
    for u, v in zip(old, g()):
        x.eq(v, u, 'model data')


# ------------------------------------------------------------------- state
def mform(x, M, f):
    M = x.mat(M) if isinstance(M, list) else M
    return M if f == 'array' else [[M[i, j] for j in range(M.shape[1])]
                                   for i in range(M.shape[0])]


@harness(HARNESSES)
def state_model(x):
    n = x.choice('order', x.q([1, 2], [1, 2, 3]))
    shp = x.choice('shape', x.q([(1, 1), (1, 2), (2, 1), (2, 2)],
                                [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)]))
    f = x.choice('form', ['array', 'list', '1d B', 'scalars'])
    wd = x.flag('D given')
    dt = dts(x)
    A, B = x.array('a', (n, n)), x.array('b', (n, shp[1]))
    C, D = x.array('c', (shp[0], n)), x.array('d', shp)
    if f == 'scalars':
        x.assume(n == 1 and shp == (1, 1))
        args = [A[0, 0], B[0, 0], C[0, 0], D[0, 0]]
    elif f == '1d B':
        x.assume(shp[1] == 1)
        args = [A, B.reshape(-1), C, D]
    else:
        args = [mform(x, M, f) for M in (A, B, C, D)]
    if not wd:
        args = args[:3]
        D = x.np.zeros(shp) * x.const(1)
    ref = [M + x.const(0) for M in (A, B, C, D)]
    G = x.H.State(*args, dt=dt)
    x.same(G.shape, shp, 'shape')
    x.same((G.NumberOfOutputs, G.NumberOfInputs, G.NumberOfStates), shp + (n,),
           'counts')
    x.same(G.SamplingPeriod, dt, 'sampling period')
    x.same(G.SamplingSet, 'R' if dt is None else 'Z', 'sampling set')
    flags(x, G, shp == (1, 1), False, 'flags')
    for nm, got, want in zip('ABCD', G.matrices, ref):
        x.same(tuple(got.shape), tuple(want.shape), nm + ' shape')
        x.eq(got, want, nm)
    x.raises(ValueError, G.to_array, 'to_array of a dynamic model')
    for s in (A, B, C, D):                 # the caller reuses the arrays
        s += 1.
    for nm, got, want in zip('ABCD', G.matrices, ref):
        x.eq(got, want, nm + ' owned by the model')


@harness(HARNESSES)
def state_gain(x):
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)])
    f = x.choice('form', ['first', 'last', 'list', 'scalar', '1d'])
    dt = dts(x)
    D = x.array('d', shp)
    ref = D + x.const(0)
    if f == 'first':
        G = x.H.State(D, dt=dt)
    elif f == 'last':
        G = x.H.State(None, None, None, D, dt=dt)
    elif f == 'list':
        G = x.H.State(mform(x, D, 'list'), dt=dt)
    elif f == 'scalar':
        x.assume(shp == (1, 1))
        G = x.H.State(D[0, 0], dt=dt)
    else:
        x.assume(shp[0] == 1)
        G = x.H.State(D.reshape(-1), dt=dt)
    x.same(G.shape, shp, 'shape')
    flags(x, G, shp == (1, 1), True, 'flags')
    x.same(G.NumberOfStates, 0, 'states')
    x.same(G.SamplingPeriod, dt, 'sampling period')
    x.eq(G.d, ref, 'D')
    x.eq(G.to_array(), ref, 'to_array')


@harness(HARNESSES)
def state_rejections(x):
    sh = x.choice('shapes', [
        ((2, 1), (2, 1), (1, 2), None), ((2, 2), (1, 1), (1, 2), None),
        ((2, 2), (3, 1), (1, 2), None), ((2, 2), (2, 1), (1, 1), None),
        ((2, 2), (2, 1), (1, 3), None), ((2, 2), (2, 1), (1, 2), (2, 1)),
        ((2, 2), (2, 2), (1, 2), (1, 1)), ((2, 2), (2, 2), (2, 2), (2, 3)),
        ((1, 1), (1, 2), (2, 1), (1, 2)), ((1, 1), (1, 1), (2, 1), (2, 2)),
        'missing C', 'string', 'negative period', 'zero period'])
    S = x.H.State
    if isinstance(sh, str):
        k = x.real('k')
        if sh == 'missing C':
            f = lambda: S(k, 1.)
        elif sh == 'string':
            f = lambda: S('abc', 1., 1.)
        elif sh == 'zero period':
            f = lambda: S(k, 1., 1., 0., dt=0.)
        else:
            dt = x.real('dt')
            x.assume(dt < 0)
            f = lambda: S(k, 1., 1., 0., dt=dt)
        x.raises(Exception, f, 'rejected')
        return
    m = [x.array('abcd'[i], s) if s else None for i, s in enumerate(sh)]
    x.raises(ValueError, lambda: S(*m), 'rejected')
