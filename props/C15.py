"""Frequency response on a given grid."""
from symx.api import *
from symx.tf import *
from props.C03 import poly, siso, mimo

HARNESSES = []
FUNCTIONS = ['frequency_response', '_State_freq_resp', '_get_freq_grid',
             'hessenberg_realization']
BOUNDS = {
    'quick': 'state models of order 0..2 with shapes up to 2x2 (one rotation '
             'for two outputs), order 3 with one output and one input in one '
             'orthogonal basis, transfer '
             'models of degree up to 2 (1 for 1x2, 2x1 and 2x2); grids of one '
             'or two symbolic frequencies, every unit spelling; the automatic '
             'grid for ten fixed denominators with a symbolic gain; '
             'fixed models of order 4 and 5 with up to six channels and '
             'a symbolic gain',
    'thorough': 'transfer degree up to 3, every rotation of the basis'}
ASSUMPTIONS = ['grid frequencies are not poles of the model',
               'sin and cos are uninterpreted functions on the unit circle',
               'with the automatic grid the elementary functions of constants '
               'are evaluated in floating point and values are compared to '
               'a relative 1e-6']
UNITS = ['Hz', 'hz', 'HZ', 'rad/s', 'Rad/s', 'RAD/S']


def cpoly(x, c, z):
    """polynomial value as a (real, imaginary) pair"""
    re, im = x.const(0), x.const(0)
    for k in c:
        re, im = re * z[0] - im * z[1] + k, re * z[1] + im * z[0]
    return re, im


def charpolys(x, A, B, C, D):
    """denominator coefficients and numerator coefficient arrays"""
    n = A.shape[0]
    I = x.np.eye(n) * x.const(1)
    den, M, num = [x.const(1)], I, [D]
    for k in range(1, n + 1):
        AM = A @ M
        c = -sum((AM[i, i] for i in range(n)), x.const(0)) / k
        num.append(C @ M @ B + D * c)
        den.append(c)
        M = AM + I * c
    return num, den


def point(x, w, dt):
    """(re, im) of the evaluation point of angular frequency w"""
    if dt is None:
        return x.const(0), w
    return x.np.cos(w * dt), x.np.sin(w * dt)


def nonzero(x, z):
    x.assume(z[0] * z[0] + z[1] * z[1] > 0 if x.sym else
             z[0] * z[0] + z[1] * z[1] > 1e-6)


def match(x, f, N, Dn, label):
    """complex value f equals N/Dn (pairs)"""
    fr, fi = (f.real, f.imag)
    x.eq(fr * Dn[0] - fi * Dn[1], N[0], label)
    x.eq(fr * Dn[1] + fi * Dn[0], N[1], label)


def entry(x, F, G, i, j, k):
    p, m = G.NumberOfOutputs, G.NumberOfInputs
    return F[k] if (p, m) == (1, 1) else F[i, j, k]


def shaped(x, F, G, N):
    p, m = G.NumberOfOutputs, G.NumberOfInputs
    x.same(tuple(F.shape), (N,) if (p, m) == (1, 1) else (p, m, N), 'shape')


def period(x, disc):
    return x.pos('dt', Fraction(1, 8), 1) if disc else None


def freqs(x, N, dt):
    """angular frequencies below Nyquist"""
    w = [x.real('w%d' % k, 0, 3) for k in range(N)]
    return w


def compare(x, G, F, ws, dt, label):
    if type(G).__name__ == 'State':
        num, den = charpolys(x, G.a, G.b, G.c, G.d)
    shaped(x, F, G, len(ws))
    for k, w in enumerate(ws):
        z = point(x, w, dt)
        for i in range(G.NumberOfOutputs):
            for j in range(G.NumberOfInputs):
                if type(G).__name__ == 'State':
                    nc, dc = [c[i, j] for c in num], den
                elif (G.NumberOfOutputs, G.NumberOfInputs) == (1, 1):
                    nc, dc = list(G.num[0]), list(G.den[0])
                else:
                    nc, dc = list(G.num[i][j][0]), list(G.den[i][j][0])
                D = cpoly(x, dc, z)
                nonzero(x, D)
                match(x, entry(x, F, G, i, j, k), cpoly(x, nc, z), D, label)


def away_from_poles(x, G, ws, dt):
    """assumed before the call: no grid frequency is a pole"""
    for w in ws:
        z = point(x, w, dt)
        if type(G).__name__ == 'State':
            nonzero(x, cpoly(x, charpolys(x, G.a, G.b, G.c, G.d)[1], z))
        elif (G.NumberOfOutputs, G.NumberOfInputs) == (1, 1):
            nonzero(x, cpoly(x, list(G.den[0]), z))
        else:
            for r in G.den:
                for d in r:
                    nonzero(x, cpoly(x, list(d[0]), z))


def rot(x, n, i, name, fixed=None):
    """rotation by an arbitrary angle in the (i, i+1) plane"""
    if fixed:
        c, s = x.const(Fraction(*fixed[:2])), x.const(Fraction(*fixed[2:]))
    else:
        th = x.real(name, -3, 3)
        c, s = x.np.cos(th), x.np.sin(th)
    M = [[x.const(1 if a == b else 0) for b in range(n)] for a in range(n)]
    M[i][i], M[i + 1][i + 1], M[i][i + 1], M[i + 1][i] = c, c, -s, s
    return x.mat(M)


def respond(x, G, ws, dt):
    F, w = x.H.frequency_response(G, x.vec(ws), w_unit='rad/s',
                                  output_unit='rad/s')
    x.eq(w, x.vec(ws), 'grid')
    compare(x, G, F, ws, dt, 'response')


@harness(HARNESSES)
def state_first_order(x):
    dt = period(x, x.flag('discrete'))
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    G = x.state('g', 1, *shp, dt=dt)
    ws = freqs(x, x.choice('samples', [1, 2]), dt)
    away_from_poles(x, G, ws, dt)
    respond(x, G, ws, dt)


@harness(HARNESSES)
def state_second_order(x):
    """every 2x2 matrix is a rotation of some other one, every measurement row
    a multiple of a unit vector"""
    dt = period(x, x.flag('discrete'))
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    r = x.pos('r')
    Q = rot(x, 2, 0, 't', x.q((3, 5, 4, 5), None) if p == 2 else None)
    I = x.np.eye(2) * x.const(1)
    A = Q @ x.array('a', (2, 2)) @ Q.T
    C = x.mat([[r * Q[0, 0], r * Q[1, 0]]])
    bases = [(Q, r)]
    if p == 2:
        r2 = x.pos('r2')
        C = x.np.vstack([x.mat([[r2, x.const(0)]]), C])
        bases = [(I, r2)] + bases

    def qr(M, mode, pivoting):
        q, k = bases[0]
        bases.append(bases.pop(0))
        return q, x.mat([[k], [x.const(0)]])
    x.hook('qr', qr)
    G = x.H.State(A, Q @ x.array('b', (2, m)), C, x.array('d', (p, m)), dt=dt)
    ws = freqs(x, 1, dt)
    away_from_poles(x, G, ws, dt)
    respond(x, G, ws, dt)


@harness(HARNESSES)
def state_third_order(x):
    """the reduction to Hessenberg form is given by its factors"""
    dt = period(x, x.choice('discrete', x.q([False], [False, True])))
    r = x.pos('r')
    Q = rot(x, 3, 0, 't', x.q((3, 5, 4, 5), None))
    P = rot(x, 3, 1, 'p', x.q((5, 13, -12, 13), None))
    M = x.array('a', (3, 3))
    M[2, 0] = x.const(0)
    A = Q @ P @ M @ P.T @ Q.T
    C = x.mat([[r * v for v in Q[:, 0]]])
    x.hook('qr', lambda *a: (Q, x.mat([[r], [x.const(0)], [x.const(0)]])))
    x.hook('hessenberg', lambda N, calc: (M, P))
    B = Q @ P @ x.array('b', (3, 1))
    G = x.H.State(A.T, B, C, x.mat([[x.real('d')]]), dt=dt)
    ws = freqs(x, 1, dt)
    away_from_poles(x, G, ws, dt)
    respond(x, G, ws, dt)


@harness(HARNESSES)
def state_nonminimal(x):
    """removing states beforehand does not change the response"""
    from props.C20 import kalman, contracts, ident
    dt = period(x, x.flag('discrete'))
    dims = x.choice('dims', [(1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 0, 0),
                             (1, 0, 1, 0), (1, 0, 0, 1), (0, 1, 1, 0)])
    m = x.choice('inputs', [1, 2])
    a, b, c, ctr, unobs, obs = kalman(x, dims, m, 1)
    n, k = sum(dims), len(ctr)
    contracts(x, [(a, ident(x, n), [i for i in range(n) if i not in ctr], unobs),
                  (a[:k, :k], ident(x, k), [], [i for i in unobs if i < k])])
    x.hook('balance', lambda M: (M, ident(x, M.shape[0])))
    G = x.H.State(a, b, c, x.array('d', (1, m)), dt=dt)
    ws = freqs(x, 1, dt)
    away_from_poles(x, G, ws, dt)
    F, w = x.H.frequency_response(G, x.vec(ws), w_unit='rad/s',
                                  output_unit='rad/s', use_minreal=True)
    x.eq(w, x.vec(ws), 'grid')
    compare(x, G, F, ws, dt, 'response')


@harness(HARNESSES)
def transfer_siso(x):
    dd = x.choice('degree', x.q([1, 2], [1, 2, 3]))
    disc = x.flag('discrete')
    dt = period(x, disc)
    G = siso(x, 'g', x.choice('num degree', [0, dd]), dd, dt)
    ws = freqs(x, x.choice('samples', [1, 2]), dt)
    away_from_poles(x, G, ws, dt)
    F, w = x.H.frequency_response(G, x.vec(ws), w_unit='rad/s',
                                  output_unit='rad/s')
    x.eq(w, x.vec(ws), 'grid')
    compare(x, G, F, ws, dt, 'response')


@harness(HARNESSES, svd='echelon')
def transfer_mimo(x):
    shp = x.choice('shape', [(1, 2), (2, 1), (2, 2)])
    disc = x.flag('discrete')
    dt = period(x, disc)
    num = [[x.vec([x.pos('n%d%d' % (i, j)), x.real('m%d%d' % (i, j))])
            for j in range(shp[1])] for i in range(shp[0])]
    den = [[x.vec([x.const(1), x.real('d%d%d' % (i, j))])
            for j in range(shp[1])] for i in range(shp[0])]
    G = x.H.Transfer(num, den, dt=dt)
    ws = freqs(x, 1, dt)
    away_from_poles(x, G, ws, dt)
    F, w = x.H.frequency_response(G, x.vec(ws), w_unit='rad/s',
                                  output_unit='rad/s')
    compare(x, G, F, ws, dt, 'response')


@harness(HARNESSES)
def static_gains(x):
    shp = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    tfm = x.flag('transfer')
    dt = period(x, x.flag('discrete'))
    D = x.array('d', shp)
    if tfm and shp == (1, 1):
        e = x.pos('e') * x.choice('sign', [1, -1])
        G = x.H.Transfer(D[0, 0], e, dt=dt)
        D = D / e
    elif tfm:
        G = x.H.Transfer([[v for v in r] for r in D], dt=dt)
    else:
        G = x.H.State(D, dt=dt)
    N = x.choice('samples', [1, 2, 3])
    ws = freqs(x, N, dt)
    F, w = x.H.frequency_response(G, x.vec(ws), w_unit='rad/s',
                                  output_unit='rad/s')
    x.eq(w, x.vec(ws), 'grid')
    shaped(x, F, G, N)
    for k in range(N):
        for i in range(shp[0]):
            for j in range(shp[1]):
                x.eq(entry(x, F, G, i, j, k), D[i, j], 'gain')


@harness(HARNESSES)
def static_automatic(x):
    """an automatic grid of a gain has as many values as frequencies"""
    shp = x.choice('shape', [(1, 1), (1, 2)])
    D = x.array('d', shp)
    s = x.choice('samples', [None, 2, 5])
    unit = x.choice('unit', UNITS)
    F, w = x.H.frequency_response(x.H.State(D), samples=s, output_unit=unit)
    shaped(x, F, x.H.State(D), len(w))
    x.true(len(w) >= (s or 2), 'samples')
    for k in range(len(w)):
        x.true(w[k] > 0, 'positive')
        x.true(k == 0 or w[k] > w[k - 1], 'increasing')
        for i in range(shp[0]):
            for j in range(shp[1]):
                x.eq(entry(x, F, x.H.State(D), i, j, k), D[i, j], 'gain')


@harness(HARNESSES)
def units(x):
    """frequencies in either unit, whatever the spelling"""
    iu, ou = x.choice('input unit', UNITS), x.choice('output unit', UNITS)
    kind = x.choice('model', ['gain', 'transfer', 'state'])
    dt = period(x, x.flag('discrete'))
    if kind == 'gain':
        G = x.H.State(x.mat([[x.real('d')]]), dt=dt)
    elif kind == 'state':
        G = x.state('g', 1, 1, 1, dt)
    else:
        G = x.H.Transfer(x.vec([x.real('n')]), x.vec([x.const(1), x.real('d')]),
                         dt=dt)
    w = x.real('w', 0, Fraction(2, 5))
    hz = iu.lower() == 'hz'
    rad = w * (2 * np.pi) if hz else w
    if kind != 'gain':
        away_from_poles(x, G, [rad], dt)
    form = x.choice('form', ['array', 'list', 'scalar', 'column'])
    g = {'array': x.vec([w]), 'list': [w], 'scalar': w,
         'column': x.mat([[w]])}[form]
    F, wo = x.H.frequency_response(G, g, w_unit=iu, output_unit=ou)
    x.same(tuple(wo.shape), (1,), 'grid shape')
    x.eq(wo[0], rad if ou.lower() == 'rad/s' else rad / 2 / np.pi, 'frequency')
    if kind == 'gain':
        x.eq(F[0], G.d[0, 0], 'gain')
    else:
        compare(x, G, F, [rad], dt, 'response')


@harness(HARNESSES)
def nyquist_limit(x):
    """frequencies above Nyquist are dropped, none left is an error"""
    dt = x.pos('dt', Fraction(1, 2), 4)
    G = x.H.Transfer(x.vec([x.real('n')]), x.vec([x.const(1), x.real('d')]),
                     dt=dt)
    ws = [x.real('w%d' % k, 0, 8) for k in (0, 1)]
    away_from_poles(x, G, ws, dt)
    f = lambda: x.H.frequency_response(G, x.vec(ws), w_unit='rad/s',
                                       output_unit='rad/s')
    keep = [w for w in ws if x.branch(w * dt <= np.pi)]
    if not keep:
        x.raises(ValueError, f, 'nothing below Nyquist')
        return
    F, w = f()
    x.eq(w, x.vec(keep), 'grid')
    compare(x, G, F, keep, dt, 'response')


@harness(HARNESSES)
def rejected(x):
    G = x.state('g', 1, 1, 1)
    w = x.array('w', (2, 2))
    x.raises(ValueError, lambda: x.H.frequency_response(G, w), 'grid shape')
    v = x.array('v', 2)
    for a in ('rad', 'Hertz', ''):
        x.raises(ValueError, lambda: x.H.frequency_response(G, v, w_unit=a), 'unit')
        x.raises(ValueError, lambda: x.H.frequency_response(G, v, output_unit=a),
                 'output unit')


@harness(HARNESSES)
def arguments_unchanged(x):
    n = x.choice('n', [0, 1])
    G = x.state('g', n, 1, 2)
    w = x.array('w', 2, 0, 2)
    old = [m * 1 for m in (*G.matrices, w)]
    x.H.frequency_response(G, w)
    for a, b in zip(old, (*G.matrices, w)):
        x.eq(b, a, 'unchanged')


# denominators with known modes; the gain is symbolic
MODES = {'lag': ([1., 2.], None), 'pair': ([1., 0.2, 4.], None),
         'undamped': ([1., 0., 9.], None), 'integrator': ([1., 0.], None),
         'zero': ([1., 3., 2.], [1., 5.]),
         'discrete lag': ([1., -0.5], None), 'discrete pair': ([1., -1., 0.5], None),
         'discrete negative': ([1., 0.25], None), 'delay': ([1., 0.], None),
         'discrete integrator': ([1., -1.], None)}


@harness(HARNESSES, eig='exact', tzeros='strict', float_consts=True, path_s=60)
def automatic(x):
    """the automatic grid of dynamic models"""
    mode = x.choice('modes', list(MODES))
    kind = x.choice('model', ['transfer', 'state', 'row'])
    unit = x.choice('unit', ['Hz', 'rad/s'])
    samples = x.choice('samples', [None, 4])
    disc = mode.startswith('discrete') or mode == 'delay'
    dt = x.choice('dt', [0.5, 4.]) if disc else None
    den, z = MODES[mode]
    x.assume(kind == 'transfer' or z is None)
    x.assume(samples is None or kind == 'transfer')
    k = x.pos('k')
    num = [k * v for v in z] if z else [k]
    if kind == 'transfer':
        G = x.H.Transfer(num, den, dt=dt)
    elif kind == 'row':
        G = x.H.Transfer([[num, [x.real('l', 1, 2)]]],
                         [[den, [1., -0.25 if disc else 3.]]], dt=dt)
    else:
        n = len(den) - 1
        A = [[-den[1]]] if n == 1 else [[0., 1.], [-den[2], -den[1]]]
        G = x.H.State(np.array(A), x.mat([[x.const(0)]] * (n - 1) + [[k]]),
                      np.eye(n)[:1], dt=dt)
    F, w = x.H.frequency_response(G, samples=samples, output_unit=unit)
    shaped(x, F, G, len(w))
    w = [float(v) for v in w]
    x.true(len(w) > 3, 'samples')
    x.true(all(u <= v for u, v in zip(w, w[1:])) and w[0] > 0, 'increasing')
    rad = [v * 2 * np.pi for v in w] if unit == 'Hz' else w
    if disc:
        x.true(rad[-1] <= np.pi / dt, 'below Nyquist')
    for i in sorted(set([0, 1, len(w) // 2, len(w) - 2, len(w) - 1])):
        p = 1j * rad[i] if dt is None else np.exp(1j * rad[i] * dt)
        g = np.polyval(z or [1.], p) / np.polyval(den, p)
        f = entry(x, F, G, 0, 0, i)
        tol = 1e-6 * (1 + abs(g)) * k
        for u, v in ((f.real, g.real), (f.imag, g.imag)):
            x.true((u - k * v <= tol) & (k * v - u <= tol), 'value')


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed models of order 4 and 5 scaled with a symbolic gain"""
    n = x.choice('n', [4, 5])
    p, m = x.choice('shape', [(1, 1), (3, 2), (2, 3), (1, 4)])
    dt = x.choice('dt', [None, 0.5, 0.01, 20.])
    feed = x.flag('feedthrough')
    A, B, C, D = fixed_floats(n, p, m, dt)
    D = D * feed
    k = x.pos('k', Fraction(1, 4), 4)
    ws = [v * (.5 / (dt or .5)) for v in (0., .3, 1.7, 5.)]
    F, w = x.H.frequency_response(x.H.State(A, B * k, C, D * k, dt=dt), ws,
                                  w_unit='rad/s', output_unit='rad/s')
    ref = np.empty((p, m, len(ws)), dtype=complex)
    for i, v in enumerate(ws):
        z = 1j * v if dt is None else np.exp(1j * v * dt)
        ref[:, :, i] = C @ np.linalg.solve(z * np.eye(n) - A, B) + D
    near(x, F, ref[0, 0] if (p, m) == (1, 1) else ref, k, 1e-4, 'response')


@harness(HARNESSES, float_consts=True)
def larger_transfer(x):
    """fixed second order entries scaled with a symbolic gain"""
    p, m = x.choice('shape', [(1, 1), (3, 2), (2, 3)])
    dt = x.choice('dt', [None, 0.5, 0.01, 20.])
    k = x.pos('k', Fraction(1, 4), 4)
    c = 1. if dt is None else .25
    num = [[[1. + i - j, .5 * (i + j), -2. + j] for j in range(m)] for i in range(p)]
    den = [[[1., c * (1. + .25 * i), c * (.75 + .5 * j)] for j in range(m)] for i in range(p)]
    ws = [v * (.5 / (dt or .5)) for v in (0., .3, 1.7, 5.)]
    N = [[[v * k for v in e] for e in r] for r in num]
    G = x.H.Transfer(*((N[0][0], den[0][0]) if (p, m) == (1, 1) else (N, den)), dt=dt)
    F, w = x.H.frequency_response(G, ws, w_unit='rad/s', output_unit='rad/s')
    z = np.array([1j * v if dt is None else np.exp(1j * v * dt) for v in ws])
    ref = np.array([[np.polyval(num[i][j], z) / np.polyval(den[i][j], z)
                     for j in range(m)] for i in range(p)])
    near(x, F, ref[0, 0] if (p, m) == (1, 1) else ref, k, 1e-4, 'response')
