"""Polynomial helpers."""
from symx.api import *
from symx.tf import polyval, near

HARNESSES = []
FUNCTIONS = ['haroldpoly', 'haroldpolyadd', 'haroldpolymul', 'haroldpolydiv',
             'haroldcompanion']
BOUNDS = {
    'quick': 'up to 3 polynomials of length up to 4 (3 for three of them), '
             'division up to length 5 by 3, roots up to 4 (one conjugate pair '
             'plus reals); all coefficients symbolic; fixed integer and float '
             'polynomials, up to six of them, and up to six complex roots',
    'thorough': 'lengths up to 5, division up to length 6, roots up to 5'}


def conv(a, b):
    r = [0] * (len(a) + len(b) - 1)
    for i, u in enumerate(a):
        for j, v in enumerate(b):
            r[i + j] = r[i + j] + u * v
    return r


def add(*ps):
    n = max(len(p) for p in ps)
    return [sum((p[k - n + len(p)] for p in ps if k - n + len(p) >= 0), 0)
            for k in range(n)]


def same_poly(x, got, want, label):
    """equal as polynomials: equal after padding on the left"""
    got, want = list(got.reshape(-1)) if hasattr(got, 'reshape') else list(got), list(want)
    n = max(len(got), len(want))
    z = x.const(0)
    g = [z] * (n - len(got)) + got
    w = [z] * (n - len(want)) + want
    x.eq(x.vec(g), x.vec([z + v for v in w]), label)


def cont(x, v, label, kinds=('array', 'list', 'tuple')):
    f = x.choice(label, list(kinds))
    return v if f == 'array' else list(v) if f == 'list' else tuple(v)


@harness(HARNESSES)
def addition(x):
    k = x.choice('count', [1, 2, 3])
    ls = [x.choice('len%d' % i, x.q([1, 2, 4] if i < 2 else [1, 3], [1, 2, 3, 4, 5]))
          for i in range(k)]
    trim = x.choice('trim', [True, False])
    ps = [x.array('p%d' % i, n) for i, n in enumerate(ls)]
    f = x.choice('container', ['array', 'list'])
    r = x.H.haroldpolyadd(*[p if f == 'array' else list(p) for p in ps],
                          trim_zeros=trim)
    same_poly(x, r, add(*[list(p) for p in ps]), 'sum')


@harness(HARNESSES)
def product(x):
    k = x.choice('count', [1, 2, 3])
    ls = [x.choice('len%d' % i, x.q([1, 2, 4] if k < 3 else [1, 3], [1, 2, 3, 4]))
          for i in range(k)]
    trim = x.choice('trim', [True, False])
    ps = [x.array('p%d' % i, n) for i, n in enumerate(ls)]
    r = x.H.haroldpolymul(*ps, trim_zeros=trim)
    w = list(ps[0])
    for p in ps[1:]:
        w = conv(w, list(p))
    same_poly(x, r, w, 'product')


@harness(HARNESSES)
def product_shapes(x):
    """row arrays as stored by the models, leading zeros"""
    a, b = x.array('a', (1, 3)), x.array('b', (1, 2))
    x.assume(a[0, 1] != 0)
    r = x.H.haroldpolymul(a, b)
    same_poly(x, r, conv(list(a.reshape(-1)), list(b.reshape(-1))), 'product')


@harness(HARNESSES)
def product_containers(x):
    a, b = x.array('a', 3), x.array('b', 2)
    r = x.H.haroldpolymul(cont(x, a, 'first'), cont(x, b, 'second'))
    same_poly(x, r, conv(list(a), list(b)), 'product')


@harness(HARNESSES)
def division(x):
    la = x.choice('dividend', x.q([1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6]))
    lb = x.choice('divisor', [1, 2, 3])
    a, b = x.array('a', la), x.array('b', lb)
    x.assume(b[0] != 0)
    q, r = x.H.haroldpolydiv(cont(x, a, 'container', ('array', 'list')), b)
    same_poly(x, add(conv(list(q) or [0], list(b)), list(r) or [0]), list(a),
              'dividend = factor * divisor + remainder')
    if la >= lb:
        z = x.const(0)
        top = ([z] * (la - r.size) + list(r))[:la - lb + 1]
        x.eq(x.vec(top), x.vec([z] * len(top)), 'remainder degree')


@harness(HARNESSES)
def companion(x):
    n = x.choice('length', x.q([1, 2, 3, 4, 5], [1, 2, 3, 4, 5, 6]))
    lead = x.flag('leading zero')
    p = x.array('p', n)
    x.assume(p[0] != 0)
    v = [x.const(0)] + list(p) if lead else list(p)
    v = cont(x, x.vec(v), 'container', ('array', 'list'))
    M = x.H.haroldcompanion(v)
    if n == 1:
        x.same(M.size, 0, 'constant polynomial')
        return
    x.same(tuple(M.shape), (n - 1, n - 1), 'shape')
    # upper shift with the coefficients in the last row
    s = x.real('s')
    from symx.tf import det
    I = x.np.eye(n - 1) * s
    D = I - M
    x.eq(det(x, D.tolist()) * p[0] if n > 2 else D[0, 0] * p[0],
         polyval(x, p, s), 'characteristic polynomial')
    for i in range(n - 2):
        for j in range(n - 1):
            x.eq(M[i, j], x.const(1 if j == i + 1 else 0), 'shift structure')


@harness(HARNESSES)
def companion_arguments(x):
    x.raises(TypeError, lambda: x.H.haroldcompanion((1., 2.)), 'tuple rejected')
    x.same(x.H.haroldcompanion([]).size, 0, 'empty')


@harness(HARNESSES)
def from_roots(x):
    n = x.choice('count', x.q([0, 1, 2, 3, 4], [0, 1, 2, 3, 4, 5]))
    r = x.array('r', n) if n else x.np.array([])
    p = x.H.haroldpoly(cont(x, r, 'container', ('array', 'list', 'tuple')))
    w = [x.const(1)]
    for v in list(r):
        w = conv(w, [x.const(1), -v])
    x.same(p.size, n + 1, 'length')
    x.eq(x.np.real(p), x.vec(w), 'coefficients')
    x.eq(x.np.imag(p), x.vec([x.const(0)] * (n + 1)), 'real coefficients')


@harness(HARNESSES)
def from_complex_roots(x):
    n = x.choice('reals', [0, 1, 2])
    at = x.choice('pair position', [0, 1, 2])
    x.assume(at <= n)
    re, im = x.real('re'), x.real('im')
    x.assume(im != 0)
    r = [x.real('r%d' % i) for i in range(n)]
    z = r[:at] + [re + im * 1j, re - im * 1j] + r[at:]
    p = x.H.haroldpoly(x.np.array(z))
    w = [x.const(1), -2 * re, re * re + im * im]
    for v in r:
        w = conv(w, [x.const(1), -v])
    x.eq(x.np.real(p), x.vec(w), 'coefficients')
    x.eq(x.np.imag(p), x.vec([x.const(0)] * (n + 3)), 'real coefficients')


@harness(HARNESSES)
def inputs_unchanged(x):
    a, b = x.array('a', 3), x.array('b', 2)
    x.assume(b[0] != 0)
    u, v = a.copy(), b.copy()
    x.H.haroldpolyadd(a, b)
    x.H.haroldpolymul(a, b)
    x.H.haroldpolydiv(a, b)
    x.H.haroldpoly(a)
    if x.branch(a[0] != 0):
        x.H.haroldcompanion(a)
    x.eq(a, u, 'first argument')
    x.eq(b, v, 'second argument')


@harness(HARNESSES, float_consts=True)
def larger(x):
    """integer and float coefficients, more and longer polynomials, roots that
    are not real or not in pairs"""
    what = x.choice('what', ['sum', 'product', 'division', 'companion', 'roots'])
    typ = x.choice('type', ['int', 'float'])
    cast = (lambda v: np.array(v)) if typ == 'int' else (lambda v: np.array(v) * .5)
    k = x.pos('k', Fraction(1, 4), 4)
    one = x.const(1)
    ps = [cast(v) for v in ([3, 0, -2, 5, 1], [2, 7], [0, 4, -1, 3], [-6, 1, 1], [5],
                            [1, 2, 0, 0, 0, -9])]
    if what == 'sum':
        c = x.choice('count', [4, 5, 6])
        near(x, x.H.haroldpolyadd(*ps[:c]) * k, np.array(add(*[list(p) for p in ps[:c]])) * 1.,
             k, 1e-4, 'sum')
    elif what == 'product':
        c = x.choice('count', [4, 5, 6])
        w = [1.]
        for p in ps[:c]:
            w = conv(w, list(np.trim_zeros(p, 'f')))
        near(x, x.H.haroldpolymul(*ps[:c]) * k, np.array(w) * 1., k, 1e-4, 'product')
    elif what == 'division':
        a, b = ps[x.choice('a', [0, 5])], ps[x.choice('b', [0, 1, 3])]
        q, r = x.H.haroldpolydiv(a, b)
        same = add(conv(list(q), list(b)), list(r) if len(r) else [0.])
        x.true(all(abs(v) < 1e-5 for v in r[:max(len(r) - len(b) + 1, 0)]),
               'degree of the remainder')
        near(x, x.vec([v * one for v in same]) * k, np.array(a) * 1., k, 1e-4, 'division')
    elif what == 'companion':
        p = ps[x.choice('p', [0, 1, 2, 3, 5])]
        M = x.H.haroldcompanion(list(p) if x.flag('list') else p)
        p = np.trim_zeros(p, 'f') * 1.
        n = len(p) - 1
        want = np.diag(np.ones(n - 1), 1)
        want[-1] = -p[:0:-1] / p[0]
        near(x, M * k, want, k, 1e-4, 'companion matrix')
    else:
        z = [-2., 1 + 2j, 3., .5j, -1 - 1j, 1 - 2j][:x.choice('count', [3, 4, 5, 6])]
        w = [1.]
        for v in z:
            w = conv(w, [1., -v])
        near(x, x.H.haroldpoly(z) * k, np.array(w, dtype=complex), k, 1e-4, 'from roots')
