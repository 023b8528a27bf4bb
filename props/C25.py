"""Linear algebra helpers."""
from symx.api import *
from symx.tf import near
from symx.tf import rotation
from symx.linalg import _zero

HARNESSES = []
FUNCTIONS = ['haroldsvd', 'haroldker', 'pair_complex_numbers', 'e_i',
             'matrix_slice']
BOUNDS = {
    'quick': 'matrices up to 2x3/3x2 given as U diag(s) V with symbolic '
             'rotations and singular values (every matrix of that size up to '
             'signs), vectors up to length 3 with symbolic entries; slices of '
             'up to 3x3 symbolic matrices at every split; up to two complex '
             'pairs and two reals with symbolic parts; unit vectors up to '
             'width 4; fixed real, complex and integer matrices up to 6x6',
    'thorough': 'as quick with 3x3 matrices'}
ASSUMPTIONS = ['the LAPACK singular value decomposition returns exact '
               'orthogonal factors of the matrix it is given']


def factored(x, p, m, r, name='m'):
    """matrix of rank r with known factors; the library's svd returns them"""
    if min(p, m) == 1:
        if r == 0:
            return x.np.zeros((p, m)) * x.const(1)
        M = x.array(name, (p, m))
        x.assume(M.reshape(-1)[0] != 0)
        return M
    U, V = rotation(x, p, 'u'), rotation(x, m, 'v').T
    k = min(p, m)
    s = []
    for i in range(k):
        v = x.const(0)
        if i < r:
            v = x.pos('s%d' % i)
            x.assume(v <= 10)
            x.assume(v >= Fraction(1, 10))
            if i:
                x.assume(v <= s[-1])
        s.append(v)
    S = x.mat([[s[i] if i == j else x.const(0) for j in range(m)] for i in range(p)])
    M = U @ S @ V

    def svd(A, full):
        if tuple(A.shape) == (p, m) and all(
                _zero(a - b) for a, b in zip(A.reshape(-1), M.reshape(-1))):
            return U, x.vec(s), V
        if tuple(A.shape) == (m, p) and all(
                _zero(a - b) for a, b in zip(A.T.reshape(-1), M.reshape(-1))):
            return V.T, x.vec(s), U.T
        return None
    x.hook('svd', svd)
    return M


SH = [(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)]


def eye(x, n):
    return x.mat([[x.const(1 if i == j else 0) for j in range(n)] for i in range(n)])


def zeros(x, p, m):
    return x.mat([[x.const(0)] * m for _ in range(p)])


@harness(HARNESSES)
def svd_factors(x):
    p, m = x.choice('shape', x.q(SH, SH + [(3, 3)]))
    r = x.choice('rank', list(range(min(p, m) + 1)))
    M = factored(x, p, m, r)
    form = x.choice('container', ['array', 'list'])
    arg = M if form == 'array' else [[M[i, j] for j in range(m)] for i in range(p)]
    U, S, V, k = x.H.haroldsvd(arg, also_rank=True)
    x.same([tuple(z.shape) for z in (U, S, V)], [(p, p), (p, m), (m, m)], 'shapes')
    x.eq(U @ S @ V, M, 'factors multiply back')
    x.eq(U.T @ U, eye(x, p), 'U orthogonal')
    x.eq(V @ V.T, eye(x, m), 'V orthogonal')
    x.same(int(k), r, 'rank')
    for i in range(p):
        for j in range(m):
            if i != j:
                x.eq(S[i, j], x.const(0), 'off-diagonal')
    R = x.H.haroldsvd(arg)
    x.same(len(R), 3, 'rank only on request')


@harness(HARNESSES)
def svd_rank_tolerance(x):
    """the tolerance argument decides the rank"""
    M = factored(x, 2, 2, 2)
    t = x.pos('tol')
    s = x.H.haroldsvd(M)[1]
    for i in range(2):
        x.assume(abs(s[i, i] - t) > Fraction(1, 100))
    k = x.H.haroldsvd(M, also_rank=True, rank_tol=t)[3]
    want = sum(1 for i in range(2) if x.branch(s[i, i] > t))
    x.same(int(k), want, 'rank above the tolerance')


@harness(HARNESSES)
def kernel(x):
    p, m = x.choice('shape', x.q(SH, SH + [(3, 3)]))
    r = x.choice('rank', list(range(min(p, m) + 1)))
    side = x.choice('side', ['right', 'left'])
    M = factored(x, p, m, r)
    K = x.H.haroldker(M, side=side)
    N = M if side == 'right' else M.T
    n = N.shape[1]
    if r == n:
        x.same(tuple(K.shape), (n, 1), 'trivial kernel shape')
        x.eq(K, zeros(x, n, 1), 'trivial kernel')
        return
    x.same(tuple(K.shape), (n, n - r), 'dimension of the null space')
    x.eq(N @ K, zeros(x, N.shape[0], n - r), 'annihilated by the matrix')
    x.eq(K.T @ K, eye(x, n - r), 'orthonormal basis')


@harness(HARNESSES)
def kernel_argument(x):
    x.raises(ValueError, lambda: x.H.haroldker(x.array('m', (1, 2)), side='up'),
             'side keyword')


@harness(HARNESSES)
def slices(x):
    p, m = x.choice('shape', [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3)])
    c = x.choice('corner', ['nw', 'ne', 'sw', 'se'])
    z, w = x.choice('z', [0, 1, 2, 3]), x.choice('w', [0, 1, 2, 3])
    x.assume(z <= p and w <= m)
    M = x.array('m', (p, m))
    r = z if c[0] == 'n' else p - z
    k = w if c[1] == 'w' else m - w
    out = x.H.matrix_slice(M, (z, w), c) if c != 'nw' else x.H.matrix_slice(M, (z, w))
    for nm, got, want in zip('ABCD', out, (M[:r, :k], M[:r, k:], M[r:, :k], M[r:, k:])):
        x.same(tuple(got.shape), tuple(want.shape), nm + ' shape')
        if want.size:
            x.eq(got, want, nm)
    x.raises(ValueError, lambda: x.H.matrix_slice(M, (1, 1), 'n'), 'corner keyword')


@harness(HARNESSES)
def unit_vectors(x):
    """selecting columns of the identity: E times a symbolic vector picks
    exactly the requested components"""
    n = x.choice('width', [1, 2, 3, 4])
    key = x.choice('nth', ['0', '-1', '1', '[0, 2]', '[2, 0, 0]', '1:', '::2', ':'])
    o = x.choice('output', ['c', 'r'])
    idx = {'0': 0, '-1': -1, '1': 1, '[0, 2]': [0, 2], '[2, 0, 0]': [2, 0, 0],
           '1:': slice(1, None), '::2': slice(None, None, 2),
           ':': slice(None)}[key]
    try:
        want = np.atleast_1d(np.arange(n)[idx])
    except IndexError:
        x.raises(IndexError, lambda: x.H.e_i(n, idx, output=o), 'out of range')
        return
    E = x.H.e_i(n, idx, output=o)
    k = len(want)
    x.same(tuple(E.shape), (n, k) if o == 'c' else (k, n), 'shape')
    if k == 0:
        return
    v = x.array('v', (1, n))
    got = v @ E if o == 'c' else (E @ v.T).T
    x.eq(got, x.mat([[v[0, int(i)] for i in want]]), 'selected components')


# ------------------------------------------------------------ complex pairs
def cplx(x, a, b):
    return a + b * 1j


@harness(HARNESSES)
def pairing(x):
    nr = x.choice('reals', [0, 1, 2])
    order = x.choice('order', [0, 1, 2, 3])
    pf = x.choice('positives_first', [False, True])
    rf = x.choice('reals_first', [True, False])
    re, im = x.real('re'), x.real('im')
    x.assume(im > Fraction(1, 10))
    r = [x.real('r%d' % i) for i in range(nr)]
    z, w = cplx(x, re, im), cplx(x, re, -im)
    seq = [[z, w] + r, [w, z] + r, r + [z, w], [z] + r + [w]][order]
    R = x.H.pair_complex_numbers(x.np.array(seq), positives_first=pf, reals_first=rf)
    x.same(R.size, nr + 2, 'count')
    k = nr if rf else 0
    a, b = R[k], R[k + 1]
    s = 1 if pf else -1
    x.eq(x.np.real(a), re, 'real part')
    x.eq(x.np.imag(a), im * s, 'sign order')
    x.eq(x.np.real(b), re, 'conjugate real part')
    x.eq(x.np.imag(b), -im * s, 'conjugate')
    rest = R[:nr] if rf else R[2:]
    if nr == 1:
        x.eq(x.np.real(rest[0]), r[0], 'real number kept')
    if nr == 2:
        u, v = x.np.real(rest[0]), x.np.real(rest[1])
        x.eq(u + v, r[0] + r[1], 'reals kept (sum)')
        x.eq(u * v, r[0] * r[1], 'reals kept (product)')
        x.true(u <= v, 'reals sorted')


@harness(HARNESSES)
def pairing_two(x):
    """two pairs, possibly with equal real or imaginary parts"""
    kind = x.choice('kind', ['distinct', 'same real', 'same imag', 'equal'])
    order = x.choice('order', ['zZwW', 'ZzwW', 'zZWw', 'zwZW', 'zwWZ', 'WzwZ', 'ZWzw'])
    pf = x.choice('positives_first', [False, True])
    a, b = x.real('a'), x.real('b')
    c, d = x.real('c'), x.real('d')
    x.assume(b > Fraction(1, 10))
    x.assume(d > Fraction(1, 10))
    if kind in ('same real', 'equal'):
        c = a
    if kind in ('same imag', 'equal'):
        d = b
    if kind != 'equal':
        x.assume(abs(a - c) > Fraction(1, 10) if kind != 'same real'
                 else abs(b - d) > Fraction(1, 10))
    D = {'z': cplx(x, a, b), 'Z': cplx(x, a, -b), 'w': cplx(x, c, d),
         'W': cplx(x, c, -d)}
    R = x.H.pair_complex_numbers(x.np.array([D[k] for k in order]),
                                 positives_first=pf)
    x.same(R.size, 4, 'count')
    s = 1 if pf else -1
    p = []
    for k in (0, 2):
        x.eq(x.np.real(R[k]), x.np.real(R[k + 1]), 'pair real parts')
        x.eq(x.np.imag(R[k]), -x.np.imag(R[k + 1]), 'pair imaginary parts')
        x.true(x.np.imag(R[k]) * s > 0, 'sign order')
        p.append((x.np.real(R[k]), x.np.imag(R[k]) * s))
    (u, v), (y, t) = p
    x.eq(u + y, a + c, 'real parts kept')
    x.eq(u * y, a * c, 'real parts kept (product)')
    x.eq(v + t, b + d, 'imaginary parts kept')
    x.eq(u * v + y * t, a * b + c * d, 'parts stay together')


@harness(HARNESSES)
def pairing_repeated(x):
    """three or four pairs on one vertical line"""
    n = x.choice('pairs', [3, 4])
    a, b = x.real('a'), [x.pos('b0')]
    for i in range(1, n):
        b.append(b[-1] if x.choice('equal%d' % i, [False, True]) else
                 b[-1] + x.pos('b%d' % i))
    order = x.choice('order', [0, 1, 2])
    v = [cplx(x, a, s * t) for t in b for s in (1, -1)]
    v = [v, v[::-1], v[::2] + v[1::2]][order]
    R = x.H.pair_complex_numbers(x.np.array(v))
    x.same(R.size, 2 * n, 'count')
    im = []
    for k in range(0, 2 * n, 2):
        x.eq(x.np.real(R[k]), a, 'real part')
        x.eq(x.np.real(R[k + 1]), a, 'real part')
        x.eq(x.np.imag(R[k]), -x.np.imag(R[k + 1]), 'conjugate')
        im.append(x.np.imag(R[k + 1]))
    for t in im:
        x.true(t > 0, 'sign order')
    for e in range(1, n + 1):
        x.eq(sum((t ** e for t in im), x.const(0)),
             sum((t ** e for t in b), x.const(0)), 'imaginary parts kept')


@harness(HARNESSES)
def pairing_lines(x):
    """several vertical lines, each with one or two pairs"""
    sizes = x.choice('pairs per line', [(1, 1, 2), (1, 2, 2), (2, 1, 1), (2, 2)])
    a, b, v = x.real('a'), [], []
    re = []
    for i, n in enumerate(sizes):
        re.append(a)
        b.append([x.pos('b%d%d' % (i, j)) for j in range(n)])
        if n == 2:
            b[-1][1] = b[-1][0] + b[-1][1]
        v += [cplx(x, a, s * t) for t in b[-1] for s in (1, -1)]
        a = a + x.pos('a%d' % i) + Fraction(1, 4)
    if x.flag('reversed'):
        v = v[::-1]
    R = x.H.pair_complex_numbers(x.np.array(v))
    x.same(R.size, len(v), 'count')
    k = 0
    for r, t in zip(re, b):
        im = []
        for _ in t:
            x.eq(x.np.real(R[k]), r, 'real part')
            x.eq(x.np.real(R[k + 1]), r, 'real part')
            x.eq(x.np.imag(R[k]), -x.np.imag(R[k + 1]), 'conjugate')
            im.append(x.np.imag(R[k + 1]))
            k += 2
        for e in (1, 2):
            x.eq(sum((u ** e for u in im), x.const(0)),
                 sum((u ** e for u in t), x.const(0)), 'imaginary parts kept')


@harness(HARNESSES)
def pairing_reals(x):
    n = x.choice('count', [0, 1, 2, 3])
    r = x.array('r', n) if n else []
    R = x.H.pair_complex_numbers(r)
    x.same(R.size, n, 'count')
    if n:
        x.eq(sum(x.np.real(R)), sum(r), 'sum')
        for i in range(n - 1):
            x.true(x.np.real(R[i]) <= x.np.real(R[i + 1]), 'sorted')
    if n == 2:
        x.eq(x.np.real(R[0]) * x.np.real(R[1]), r[0] * r[1], 'product')


@harness(HARNESSES)
def pairing_fails(x):
    kind = x.choice('kind', ['odd', 'real parts', 'imaginary parts'])
    a, b, c, d = [x.real(n) for n in 'abcd']
    x.assume(b > Fraction(1, 10))
    if kind == 'odd':
        v = [cplx(x, a, b)]
    elif kind == 'real parts':
        x.assume(abs(a - c) > Fraction(1, 10))
        v = [cplx(x, a, b), cplx(x, c, -b)]
    else:
        x.assume(abs(b - d) > Fraction(1, 10))
        x.assume(d > Fraction(1, 10))
        v = [cplx(x, a, b), cplx(x, a, -d)]
    x.raises(ValueError, lambda: x.H.pair_complex_numbers(x.np.array(v)),
             'unpaired numbers rejected')


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed real, complex and integer matrices of larger size"""
    p, m = x.choice('shape', [(4, 6), (6, 4), (5, 5), (1, 6), (6, 1)])
    typ = x.choice('type', ['float', 'complex', 'int'])
    r = x.choice('rank', [1, 3, 4])
    x.assume(r <= min(p, m))
    f = lambda a, b, t: np.array([[(5 * i * i + 3 * j * j + 7 * i * j + 2 * i + t) % 7 - 3
                                   for j in range(b)] for i in range(a)],
                                 dtype=int).reshape(a, b)
    # identity blocks keep the rank of the factors
    A, B = np.r_[np.eye(r, dtype=int), f(p - r, r, 1)], np.c_[f(r, m - r, 2), np.eye(r, dtype=int)]
    if typ == 'complex':
        A, B = A + 1j * f(p, r, 3) * (np.arange(p)[:, None] >= r), B * (1 + .5j)
    M = A @ B * (1 if typ == 'int' else .25)
    k = x.pos('k', Fraction(1, 4), 4)
    side = x.choice('side', ['right', 'left'])
    K = np.asarray(x.H.haroldker(M, side=side))
    N = M if side == 'right' else M.conj().T
    n = N.shape[1]
    if r == n:
        near(x, K * k, np.zeros((n, 1)), k, 1e-4, 'trivial kernel')
    else:
        x.same(K.shape, (n, n - r), 'dimension of the null space')
        near(x, (N @ K) * k, np.zeros((N.shape[0], n - r)) * M[0, 0], k, 1e-4, 'annihilated')
        near(x, (K.conj().T @ K) * k, np.eye(n - r) * (1 + 0 * M[0, 0]), k, 1e-4, 'orthonormal')
    U, S, V, q = x.H.haroldsvd(M, also_rank=True)
    x.same(int(q), r, 'rank')
    x.same((U.shape, S.shape, V.shape), ((p, p), (p, m), (m, m)), 'shapes')
    near(x, (np.asarray(U) @ np.asarray(S) @ np.asarray(V)) * k, M * 1., k, 1e-4, 'factors')


@harness(HARNESSES, float_consts=True)
def pairing_larger(x):
    """three and four fixed pairs, one of them twice, with reals in between"""
    pf = x.choice('positives_first', [False, True])
    rf = x.choice('reals_first', [True, False])
    pairs = [1 + 2j, -3 + .5j, 1 + 2j, .25 + 4j][:x.choice('pairs', [3, 4])]
    k = x.pos('k', Fraction(1, 4), 4)
    reals = [2., -1., 2., 0.][:x.choice('reals', [0, 2, 4])]
    z = []
    for i, v in enumerate(pairs):
        z += [v] + reals[i:i + 1]
    z += [v.conjugate() for v in pairs[::-1]]
    z += [v for v in reals[len(pairs):]]
    R = np.asarray(x.H.pair_complex_numbers(z, positives_first=pf, reals_first=rf))
    want = []
    for v in sorted(pairs, key=lambda v: (v.real, v.imag)):
        want += [v, v.conjugate()] if pf else [v.conjugate(), v]
    want = sorted(reals) + want if rf else want + sorted(reals)
    near(x, R * k, np.array(want, dtype=complex), k, 1e-4, 'pairs')
