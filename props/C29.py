"""Plots draw the computed responses."""
from symx.api import *
from props.C13 import grid

HARNESSES = []
FUNCTIONS = ['bode_plot', 'nyquist_plot', 'step_response_plot',
             'impulse_response_plot', '_check_sys_args',
             '_get_common_freq_grid']
BOUNDS = {
    'quick': 'one to three models of order 0..1 and shapes up to 2x2 (Bode '
             'plots of static gains also 3x1 and 1x3), two or three grid '
             'points; every model entry and frequency symbolic; automatic '
             'grids for fixed poles and a symbolic gain',
    'thorough': 'as quick with order 2 and every combination of options'}
ASSUMPTIONS = ['matplotlib figures are replaced by a stand-in that records the '
               'drawn curves; the witness of every path is drawn with matplotlib',
               'log10 and the complex argument are uninterpreted functions',
               'the response functions themselves are the subject of C14 and C15']


def close(x):
    if not x.sym:
        import matplotlib.pyplot as plt
        plt.close('all')


def curve(x, l):
    """data of a drawn curve"""
    X, Y = l.get_xdata(), l.get_ydata()
    if x.sym:
        return X, Y
    return np.asarray(X, dtype=float), np.asarray(Y, dtype=float)


@harness(HARNESSES, series=5)
def time_curves(x):
    """step and impulse plots of one model"""
    kind = x.choice('kind', ['step', 'impulse'])
    n = x.choice('n', x.q([0, 1], [0, 1, 2]))
    p, m = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    rep = x.choice('model', ['state', 'transfer'])
    dt = x.pos('dt')
    N = 3
    if rep == 'transfer':
        x.assume(n == 1 and p == 1)
        k = x.array('k', (p, m))
        G = x.H.Transfer([[[k[i, j]] for j in range(m)] for i in range(p)],
                         [[[1, x.const(Fraction(1, 2))]] * m] * p, dt=dt)
    else:
        G = x.state('g', n, p, m, dt)
    t = grid(x, N, dt)
    draw, sim = functions(x, kind)
    y, tt = sim(G, t)
    axs = draw(G, t=t)
    x.same(tuple(axs.shape), (p, m), 'axes')
    for i in range(p):
        for j in range(m):
            ls = list(axs[i, j].lines)
            x.same(len(ls), 1, 'one curve')
            X, Y = curve(x, ls[0])
            x.eq(X, t, 'time')
            x.eq(Y, channel(y, i, j), 'response')
            x.same(ls[0].get_drawstyle(), 'steps-post', 'held between samples')
    close(x)


def functions(x, kind):
    if kind == 'step':
        return x.H.step_response_plot, x.H.simulate_step_response
    return x.H.impulse_response_plot, x.H.simulate_impulse_response


def channel(y, i, j):
    return y.reshape(-1) if y.size == y.shape[0] else \
        y[:, i] if y.ndim == 2 else y[:, i, j]


@harness(HARNESSES)
def time_several(x):
    """several models share the axes of their channels"""
    kind = x.choice('kind', ['step', 'impulse'])
    order = x.choice('order', [(0, 1, 2), (1, 0), (2, 1, 0)])
    cont = x.choice('container', ['list', 'tuple'])
    styled = x.flag('style')
    dt = x.choice('dt', [None, x.const(Fraction(1, 2))])
    f = x.const(Fraction(1, 2))
    shapes = [(1, 1), (2, 1), (1, 2)]
    Gs = [x.H.State(x.array('g%d' % k, shapes[k]), dt=dt) for k in order]
    t = grid(x, 3, f)
    draw, sim = functions(x, kind)
    kw = {}
    if styled:
        import matplotlib as mpl
        kw['style'] = mpl.cycler(color=['k', 'r', 'g', 'b'])
    axs = draw(tuple(Gs) if cont == 'tuple' else Gs, t=t, **kw)
    P = max(shapes[k][0] for k in order)
    M = max(shapes[k][1] for k in order)
    x.same(tuple(axs.shape), (P, M), 'axes')
    ys = [sim(G, t)[0] for G in Gs]
    for i in range(P):
        for j in range(M):
            own = [k for k in range(len(order)) if i < shapes[order[k]][0]
                   and j < shapes[order[k]][1]]
            ls = list(axs[i, j].lines)
            x.same(len(ls), len(own), 'curves')
            for k, l in zip(own, ls):
                X, Y = curve(x, l)
                x.eq(X, t, 'time')
                x.eq(Y, channel(ys[k], i, j), 'response')
                x.same(l.get_drawstyle(), 'default' if dt is None else
                       'steps-post', 'interpolation')
                if styled:
                    x.same(l.get_color(), 'krgb'[k], 'style')
    close(x)


def dynamic(x, name, p, m, dt):
    """transfer model with one symbolic gain per entry and fixed poles"""
    k = x.array(name, (p, m), Fraction(1, 4), 2)
    a = [Fraction(1, 2), Fraction(-1, 4)] if dt is not None else [1, 2]
    return x.H.Transfer(
        [[[k[i, j]] for j in range(m)] for i in range(p)],
        [[[1, x.const(a[(i + j) % 2])] for j in range(m)] for i in range(p)],
        dt=dt)


def value(x, F, G, i, j):
    F = x.np.asarray(F)
    return F.reshape(-1) if F.ndim == 1 else F[i, j, :]


def multiple(x, d, per, label):
    """d is a small multiple of per"""
    if x.sym:
        c = None
        for k in range(-3, 4):
            e = (d - k * per == 0)
            c = e if c is None else c | e
        x.true(c, label)
    else:
        r = d / per
        x.true(abs(r - round(r)) < 1e-6, label)


@harness(HARNESSES, path_s=60, float_consts=True)
def bode(x):
    """magnitude and phase curves of one model"""
    shape = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)])
    static = x.flag('static') if max(shape) < 3 else True
    disc = x.flag('discrete')
    few = [(True, False, True), (False, True, False)]
    many = [(h, d, g) for h in (0, 1) for d in (0, 1) for g in (0, 1)]
    hz, db, deg = (bool(v) for v in x.choice('hz, db, degree', x.q(
        many if shape == (1, 1) else few[:1] if shape == (2, 2) else few, many)))
    zero = x.flag('zero entry')
    x.assume(not zero or static or shape != (1, 1))
    p, m = shape
    dt = x.const(Fraction(1, 2)) if disc else None
    if static:
        k = x.array('k', shape)
        if zero:
            k[p - 1, m - 1] = x.const(0)
        G = x.H.State(k, dt=dt)
    else:
        G = dynamic(x, 'k', p, m, dt)
        if zero:
            num = [[[v for v in G.num[i][j].reshape(-1)] for j in range(m)]
                   for i in range(p)]
            num[p - 1][m - 1] = [x.const(0)]
            G = x.H.Transfer(num, G.den, dt=dt)
    w = x.vec([x.const(Fraction(1, 8)), x.const(Fraction(1, 4)), x.const(4)])
    if static and not zero:
        w = x.vec([x.real('w', Fraction(1, 16), Fraction(3, 4)), 4])
    unit = 'Hz' if hz else 'rad/s'
    F, ww = x.H.frequency_response(G, w, w_unit=unit, output_unit=unit)
    fig = x.H.bode_plot(G, w=w, use_hz=hz, use_db=db, use_degree=deg)
    check_bode(x, fig, [G], [(F, ww)], hz, db, deg)


def check_bode(x, fig, Gs, data, hz, db, deg):
    P = max(G.shape[0] for G in Gs)
    M = max(G.shape[1] for G in Gs)
    axs = list(fig.axes)
    x.same(len(axs), 2 * P * M, 'axes')
    per = 360 if deg else 2 * np.pi
    if x.sym and not deg:
        per = x.const(2 * np.pi)
    for k, (G, (F, ww)) in enumerate(zip(Gs, data)):
        for i in range(G.shape[0]):
            for j in range(G.shape[1]):
                f = value(x, F, G, i, j)
                name = 'sys_%d_in_%d_out_%d_' % (k, j, i)
                for row, part in ((0, 'mag'), (1, 'phase')):
                    ax = axs[(2 * i + row) * M + j]
                    ls = [l for l in ax.lines if l.get_label() == name + part]
                    x.same(len(ls), 1, 'one curve')
                    X, Y = curve(x, ls[0])
                    x.eq(X, ww, 'frequencies')
                    last = None
                    for q in range(len(ww)):
                        if bool(f[q].real == 0) and bool(f[q].imag == 0):
                            v = Y[q]
                            x.true(not x.sym and not np.isfinite(v) or
                                   isinstance(v, float) and v != v, 'gap at zero')
                            last = None
                            continue
                        if part == 'mag':
                            v = x.np.log10(x.np.abs(f[q]))
                            x.eq(Y[q], 20 * v if db else v, 'magnitude')
                        else:
                            v = x.np.angle(f[q])
                            v = x.np.rad2deg(v) if deg else v
                            multiple(x, Y[q] - v, per, 'phase')
                            if last is not None:
                                lim = Fraction(501, 1000) * per if x.sym else 0.501 * per
                                x.true((Y[q] - last <= lim) & (last - Y[q] <= lim),
                                       'no jumps')
                            last = Y[q]
                    nyq = [l for l in ax.lines
                           if l.get_label() == name + part + '_nyqline']
                    dt = G.SamplingPeriod
                    x.same(len(nyq), 0 if dt is None else 1, 'Nyquist line')
                    for l in nyq:
                        at = 1 / (2 * dt) if hz else np.pi / dt
                        x.eq(curve(x, l)[0], x.vec([at, at]), 'Nyquist frequency')
    close(x)


@harness(HARNESSES)
def bode_several(x):
    order = x.choice('order', [(0, 1, 2), (2, 1), (1, 0)])
    shapes = [(1, 1), (2, 1), (1, 2)]
    hz = x.flag('hz')
    dts = [None, x.const(Fraction(1, 2)), None]
    Gs = [x.H.State(x.array('g%d' % k, shapes[k], 1, 3), dt=dts[k]) for k in order]
    unit = 'Hz' if hz else 'rad/s'
    w = x.vec([Fraction(1, 8), Fraction(1, 2), 2, 8])
    data = [x.H.frequency_response(G, w, w_unit=unit, output_unit=unit) for G in Gs]
    fig = x.H.bode_plot(Gs, w=w, use_hz=hz)
    check_bode(x, fig, Gs, data, hz, False, True)


@harness(HARNESSES)
def nyquist(x):
    """real against imaginary parts"""
    shape = x.choice('shape', [(1, 1), (1, 2), (2, 1), (2, 2)])
    disc = x.flag('discrete')
    hz = x.flag('hz')
    neg = x.choice('negative', [None, True, False])
    p, m = shape
    dt = x.const(Fraction(1, 2)) if disc else None
    G = dynamic(x, 'k', p, m, dt)
    w = x.vec([x.const(Fraction(1, 8)), x.const(Fraction(1, 4)), x.const(4)])
    unit = 'Hz' if hz else 'rad/s'
    F, ww = x.H.frequency_response(G, w, w_unit=unit, output_unit=unit)
    kw = {} if neg is None else {'negative_freqs': neg}
    fig = x.H.nyquist_plot(G, w=w, use_hz=hz, **kw)
    check_nyquist(x, fig, [G], [F], neg is not False)


def check_nyquist(x, fig, Gs, data, neg):
    P = max(G.shape[0] for G in Gs)
    M = max(G.shape[1] for G in Gs)
    axs = list(fig.axes)
    x.same(len(axs), P * M, 'axes')
    for i in range(P):
        for j in range(M):
            # the critical point is marked with a single sample
            ls = [l for l in axs[i * M + j].lines if len(l.get_xdata()) > 1]
            own = [k for k in range(len(Gs)) if i < Gs[k].shape[0]
                   and j < Gs[k].shape[1]]
            x.same(len(ls), len(own) * (2 if neg else 1), 'curves')
            for q, l in enumerate(ls):
                f = value(x, data[own[q // 2 if neg else q]], None, i, j)
                X, Y = curve(x, l)
                x.eq(X, f.real, 'real part')
                x.eq(Y, -f.imag if neg and q % 2 else f.imag, 'imaginary part')
            one = [l for l in axs[i * M + j].lines if len(l.get_xdata()) == 1]
            x.true(len(one) >= 1 or not own, 'critical point')
            for l in one:
                X, Y = curve(x, l)
                x.eq(X, x.const(-1), 'critical point')
                x.eq(Y, x.const(0), 'critical point')
    close(x)


@harness(HARNESSES)
def nyquist_several(x):
    order = x.choice('order', [(0, 1, 2), (2, 1), (1, 0)])
    shapes = [(1, 1), (2, 1), (1, 2)]
    dts = [None, x.const(Fraction(1, 2)), None]
    Gs = [x.H.State(x.array('g%d' % k, shapes[k], 1, 3), dt=dts[k]) for k in order]
    w = x.vec([Fraction(1, 8), Fraction(1, 2), 2, 8])
    data = [x.H.frequency_response(G, w)[0] for G in Gs]
    fig = x.H.nyquist_plot(Gs, w=w)
    check_nyquist(x, fig, Gs, data, True)


POLES = {'slow': ([1, .01], None), 'unit': ([1, 1.], None),
         'pair': ([1, .4, 4.], None), 'fast': ([1, 300.], None),
         'sampled': ([1, -.5], 4.), 'quick sampled': ([1, .25], .01),
         'gain': ([1.], None)}


@harness(HARNESSES, eig='exact', tzeros='strict', float_consts=True, path_s=90,
         max_decisions=20000)
def automatic_grids(x):
    """several models without a grid: every curve covers its model"""
    kind = x.choice('plot', ['bode', 'nyquist'])
    names = x.choice('models', [
        ('unit', 'sampled', 'fast'), ('sampled', 'unit'), ('fast', 'slow'),
        ('slow', 'fast'), ('pair', 'unit', 'quick sampled'), ('gain', 'unit'),
        ('slow', 'unit', 'fast'),
        ('quick sampled', 'sampled'), ('pair',), ('sampled',)])
    hz = x.flag('hz')
    k = x.pos('k')
    Gs = [x.H.Transfer([k], POLES[n][0], dt=POLES[n][1]) for n in names]
    unit = 'Hz' if hz else 'rad/s'
    own = [x.H.frequency_response(G, output_unit=unit)[1] for G in Gs]
    arg = Gs if len(Gs) > 1 else Gs[0]
    if kind == 'bode':
        fig = x.H.bode_plot(arg, use_hz=hz)
        ls = [[l for l in fig.axes[0].lines
               if l.get_label() == 'sys_%d_in_0_out_0_mag' % i]
              for i in range(len(Gs))]
        x.true(all(len(l) == 1 for l in ls), 'curves')
        for l, n, o in zip(ls, names, own):
            X, Y = curve(x, l[0])
            w = [float(v) for v in X]
            lo, hi = float(o[0]), float(o[-1])
            x.true(all(u <= v for u, v in zip(w, w[1:])), 'increasing')
            if n != 'gain':
                x.true(w[0] <= lo * 1.001 and w[-1] >= hi * .999, 'range')
            if 'gain' not in names:
                # padded to the range of the others
                x.true(w[0] <= min(float(o[0]) for o in own) * 1.001, 'common range')
                if POLES[n][1] is None:
                    x.true(w[-1] >= max(float(o[-1]) for o in own) * .999,
                           'common range')
            for q in (0, len(w) // 2, len(w) - 1):
                if x.sym:
                    F = x.H.frequency_response(
                        x.H.Transfer([k], POLES[n][0], dt=POLES[n][1]),
                        x.vec([X[q]]), w_unit=unit, output_unit=unit)[0]
                    x.eq(Y[q], x.np.log10(x.np.abs(F.reshape(-1)[0])), 'magnitude')
                else:
                    g = np.log10(k * abs(at(POLES[n], w[q], hz)))
                    x.eq(Y[q], g, 'magnitude', scale=1)
    else:
        fig = x.H.nyquist_plot(arg, use_hz=hz)
        ls = [l for l in fig.axes[0].lines if len(l.get_xdata()) > 1]
        x.same(len(ls), 2 * len(Gs), 'curves')
        for i, n in enumerate(names):
            X, Y = curve(x, ls[2 * i])
            lo = at(POLES[n], float(own[i][0]), hz)
            hi = at(POLES[n], float(own[i][-1]), hz)
            # the ends of the curve are at least as far out as its own grid
            dc = sum(POLES[n][0])**-1 if POLES[n][1] else 1 / POLES[n][0][-1]
            if n != 'gain':
                x.true(near(x, X[0], Y[0], k * dc) <=
                       (abs(lo - dc) + 1e-3) ** 2 * k * k, 'low end')
            if POLES[n][1] is None and n != 'gain':
                x.true(X[-1] * X[-1] + Y[-1] * Y[-1] <=
                       (abs(hi) + 1e-3) ** 2 * k * k, 'high end')
    close(x)


def near(x, a, b, c):
    return (a - c) * (a - c) + b * b


def at(model, w, hz):
    den, dt = model
    w = 2 * np.pi * w if hz else w
    s = 1j * w if dt is None else np.exp(1j * w * dt)
    return 1 / np.polyval(den, s)


@harness(HARNESSES)
def many_models(x):
    """more models than default styles"""
    f = x.choice('function', ['bode_plot', 'nyquist_plot', 'step_response_plot',
                              'impulse_response_plot'])
    g = x.pos('g')
    n = 12
    Gs = [x.H.State(x.mat([[g + i]])) for i in range(n)]
    w = x.vec([Fraction(1, 2), 1])
    if 'response' in f:
        axs = getattr(x.H, f)(Gs, t=grid(x, 3, x.const(Fraction(1, 2))))
        ls = list(axs[0, 0].lines)
    else:
        ls = list(getattr(x.H, f)(Gs, w=w).axes[0].lines)
    if f == 'nyquist_plot':
        ls = [l for l in ls if len(l.get_xdata()) > 1][::2]
        vs = [curve(x, l)[0][0] for l in ls]
    else:
        vs = [curve(x, l)[1][0] for l in ls]
    x.same(len(vs), n, 'curves')
    for i, v in enumerate(vs):
        e = g + i
        if f == 'bode_plot':
            e = x.np.log10(e)
        elif f == 'impulse_response_plot':
            e = 2 * e
        x.eq(v, e, 'value')
    close(x)


@harness(HARNESSES)
def rejected(x):
    """arguments that are not models"""
    f = x.choice('function', ['bode_plot', 'nyquist_plot', 'step_response_plot',
                              'impulse_response_plot'])
    G = x.H.State(x.array('g', (1, 1)))
    bad = [[G, 1.], ['a'], [[1., 2.]]][x.choice('argument', [0, 1, 2])]
    x.raises((ValueError, TypeError), lambda: getattr(x.H, f)(bad), 'not a model')
    close(x)
