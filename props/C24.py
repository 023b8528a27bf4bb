"""Least common multiples and greatest common divisors."""
from symx.api import *
from symx.tf import polyval
from props.C23 import conv, same_poly

HARNESSES = []
FUNCTIONS = ['haroldlcm', 'haroldgcd', 'haroldcompanion', 'haroldsvd']
BOUNDS = {
    'quick': 'two or three polynomials of degree up to 2 (3 for two), built '
             'from symbolic roots and leading coefficients so that the exact '
             'common multiple/divisor is known, plus generic coprime '
             'coefficients; '
             'products of up to five fixed factors',
    'thorough': 'total degree up to 6'}
ASSUMPTIONS = ['rank decisions of the library are exact (numerical rank = rank)',
               'the right singular vectors spanning the row space are replaced '
               'by the row echelon form, which spans the same space']
OPT = dict(svd='echelon', path_s=40)


def lin(x, r):
    return [x.const(1), -r]


def prod(x, *rs):
    p = [x.const(1)]
    for r in rs:
        p = conv(p, lin(x, r))
    return p


def distinct(x, rs):
    for i in range(len(rs)):
        for j in range(i):
            x.assume(rs[i] != rs[j])


# which roots (by letter) every argument has, and the expected results
CASES = {
    'a|b': 'ab/', 'a|a': 'a/a', 'ab|a': 'ab/a', 'a|ab': 'ab/a', 'ab|ac': 'abc/a',
    'ab|cd': 'abcd/', 'aa|a': 'aa/a', 'aa|ab': 'aab/a', 'ab|ab': 'ab/ab',
    'a|b|c': 'abc/', 'a|a|b': 'ab/', 'ab|ac|ad': 'abcd/a', 'a|ab|a': 'ab/a',
    'abc|ab': 'abc/ab', 'abc|ad': 'abcd/a', 'ab|bc|ca': 'abc/', 'aa|aa': 'aa/aa',
}
QUICK = ['a|b', 'a|a', 'ab|a', 'a|ab', 'ab|ac', 'aa|a', 'aa|ab', 'ab|ab',
         'a|b|c', 'a|a|b', 'a|ab|a', 'abc|ab', 'ab|bc|ca']


def setup(x, zero=False):
    case = x.choice('case', x.q(QUICK, list(CASES)))
    letters = sorted(set(case) - {'|'})
    r = {c: x.real(c) for c in letters}
    distinct(x, list(r.values()))
    monic = x.flag('monic')
    args, lead = [], []
    for i, w in enumerate(case.split('|')):
        k = x.const(1)
        if not monic:
            k = x.real('k%d' % i)
            x.assume(k != 0)
        args.append([c * k for c in prod(x, *[r[q] for q in w])])
        lead.append(k)
    l, g = CASES[case].split('/')
    return args, lead, prod(x, *[r[q] for q in l]), prod(x, *[r[q] for q in g])


@harness(HARNESSES, **OPT)
def lcm_known_roots(x):
    args, lead, want, _ = setup(x)
    p, m = x.H.haroldlcm(*[x.vec(a) for a in args])
    x.same(p.size, len(want), 'degree')
    x.eq(p, x.vec(want), 'least common multiple')
    x.same(len(m), len(args), 'one multiplier per argument')
    for a, k, q in zip(args, lead, m):
        # multiplier times the (monic) argument
        same_poly(x, conv(list(q), a), [k * c for c in want], 'multiplier')


@harness(HARNESSES, **OPT)
def lcm_balanced(x):
    """roots far from one, so that balancing scales the companion matrices"""
    case = x.choice('case', ['a|b', 'ab|a', 'ab|c', 'ab|ac', 'a|b|c', 'abc|a'])
    letters = sorted(set(case) - {'|'})
    lo = dict(a=24, b=40, c=60)
    r = {c: x.real(c) for c in letters}
    for c in letters:
        x.assume(r[c] > lo[c])
        x.assume(r[c] < lo[c] + 8)
    args = [prod(x, *[r[q] for q in w]) for w in case.split('|')]
    up = x.flag('growing')

    def balance(M):
        n = M.shape[0]
        t = [Fraction(2) ** (i if up else -i) for i in range(n)]
        B = x.mat([[M[i, j] * (t[j] / t[i]) for j in range(n)] for i in range(n)])
        return B, x.mat([[x.const(t[i] if i == j else 0) for j in range(n)]
                         for i in range(n)])
    x.hook('balance', balance)
    p, m = x.H.haroldlcm(*[x.vec(a) for a in args])
    want = prod(x, *[r[q] for q in letters])
    x.eq(p, x.vec(want), 'least common multiple')
    for a, q in zip(args, m):
        same_poly(x, conv(list(q), a), want, 'multiplier')


@harness(HARNESSES, **OPT)
def lcm_only(x):
    args, lead, want, _ = setup(x)
    p = x.H.haroldlcm(*[x.vec(a) for a in args], compute_multipliers=False)
    x.eq(p, x.vec(want), 'least common multiple')


@harness(HARNESSES, **OPT)
def lcm_generic(x):
    """generic coefficients, complex roots included: both divide the result"""
    n1, n2 = x.choice('degrees', x.q([(1, 2), (2, 1)], [(1, 2), (2, 1), (2, 2)]))
    a = [x.const(1)] + list(x.array('a', n1))
    b = [x.const(1)] + list(x.array('b', n2))
    p, m = x.H.haroldlcm(x.vec(a), x.vec(b))
    x.eq(p[0], x.const(1), 'monic')
    same_poly(x, conv(list(m[0]), a), list(p), 'first multiplier')
    same_poly(x, conv(list(m[1]), b), list(p), 'second multiplier')
    x.true(p.size - 1 <= n1 + n2, 'degree bound')


@harness(HARNESSES, **OPT)
def lcm_constants(x):
    """constants take part only through their multiplier"""
    kind = x.choice('kind', ['one', 'first', 'two', 'all'])
    a, b = x.real('a'), x.real('b')
    x.assume(a != b)
    k = x.real('k')
    x.assume(k != 0)
    c = x.vec([k])
    p1, p2 = prod(x, a), prod(x, b)
    one = x.vec([x.const(1)])
    if kind == 'one':
        p, m = x.H.haroldlcm(x.vec(p1), c)
        want, mm = p1, [[x.const(1)], p1]
    elif kind == 'first':
        p, m = x.H.haroldlcm(c, x.vec(p1), x.vec(p2))
        want, mm = prod(x, a, b), [prod(x, a, b), p2, p1]
    elif kind == 'two':
        p, m = x.H.haroldlcm(x.vec(p1), c, x.vec(p2), c)
        want, mm = prod(x, a, b), [p2, prod(x, a, b), p1, prod(x, a, b)]
    else:
        p, m = x.H.haroldlcm(c, c)
        want, mm = [x.const(1)], [[x.const(1)], [x.const(1)]]
    same_poly(x, p, want, 'least common multiple')
    x.same(len(m), len(mm), 'count')
    for u, v in zip(m, mm):
        same_poly(x, u, v, 'multiplier')


@harness(HARNESSES, **OPT)
def lcm_leading_zeros(x):
    a, b = x.real('a'), x.real('b')
    x.assume(a != b)
    z = x.const(0)
    p, m = x.H.haroldlcm(x.vec([z] + prod(x, a)), x.vec(prod(x, b)))
    same_poly(x, p, prod(x, a, b), 'least common multiple')
    same_poly(x, conv(list(m[0]), prod(x, a)), prod(x, a, b), 'multiplier')


@harness(HARNESSES, **OPT)
def gcd_known_roots(x):
    args, lead, _, want = setup(x)
    g = x.H.haroldgcd(*[x.vec(a) for a in args])
    same_poly(x, g, want, 'greatest common divisor')


@harness(HARNESSES, **OPT)
def gcd_constant(x):
    """a nonzero constant argument leaves only constants in common"""
    k = x.real('k')
    x.assume(k != 0)
    a, b = x.real('a'), x.real('b')
    first = x.flag('constant first')
    three = x.flag('three arguments')
    big = [a, b] if x.flag('second degree') else [a]
    ps = [x.vec(prod(x, *big))] + ([x.vec(prod(x, a))] if three else [])
    c = [x.vec([k])]
    g = x.H.haroldgcd(*(c + ps if first else ps + c))
    same_poly(x, g, [x.const(1)], 'greatest common divisor')


@harness(HARNESSES, **OPT)
def gcd_all_constant(x):
    k = x.array('k', x.choice('count', [2, 3]))
    for e in k:
        x.assume(e != 0)
    g = x.H.haroldgcd(*[x.vec([e]) for e in k])
    same_poly(x, g, [x.const(1)], 'greatest common divisor')


@harness(HARNESSES, **OPT)
def gcd_single(x):
    k, a = x.real('k'), x.real('a')
    x.assume(k != 0)
    g = x.H.haroldgcd(x.vec([k, k * a]))
    # returned as it is: only defined up to a constant
    same_poly(x, g, [g[0], g[0] * a], 'same root')
    x.true(g[0] != 0, 'nonzero')


@harness(HARNESSES, **OPT)
def rejections(x):
    M = x.array('m', (2, 2))
    x.raises(ValueError, lambda: x.H.haroldlcm(M, x.array('a', 2)), 'lcm of a matrix')
    x.raises(ValueError, lambda: x.H.haroldgcd(M, x.array('a', 2)), 'gcd of a matrix')
    x.raises(ValueError, lambda: x.H.haroldlcm(x.array('a', 2), []), 'empty array')


LARGE = {'abc|ad|e': 'abcde/', 'ab|ac|ad|ae': 'abcde/a', 'abc|abd|abe': 'abcde/ab',
         'pa|pb|pc': 'pabc/p', 'pab|pc': 'pabc/p', 'pqa|pqb': 'pqab/pq', 'aab|abb': 'aabb/ab',
         'abcd|abce': 'abcde/abc', 'p|q|a': 'pqa/', 'pa|p|q': 'pqa/',
         'ab|bc|cd|de|ea': 'abcde/', 'a|ab|ac|ad|ae|a': 'abcde/a'}
ROOTS = {'a': [1, 1.], 'b': [1, -.5], 'c': [1, 2.], 'd': [1, 3.], 'e': [1, -1.5],
         'p': [1, 1, 2.], 'q': [1, -.5, 1.]}


@harness(HARNESSES, float_consts=True)
def larger(x):
    """fixed factors (a to e first order, p and q complex pairs)"""
    case = x.choice('case', list(LARGE))
    lead = x.choice('leading', [1., -2.5])

    def build(w):
        p = np.array([1.])
        for c in w:
            p = np.convolve(p, ROOTS[c])
        return p
    args = [build(w) * (lead if i % 2 else 1) for i, w in enumerate(case.split('|'))]
    l, g = (build(w) for w in LARGE[case].split('/'))
    p, m = x.H.haroldlcm(*args)
    s = x.real('s', -1, 1)
    at = lambda c: polyval(x, [Fraction(float(v)) for v in c], s)
    t = Fraction(1, 1000)
    x.same((len(p), len(m)), (len(l), len(args)), 'multiple')
    e = at(p) - at(l)
    x.true((e <= t) & (-e <= t), 'multiple')
    for a, q in zip(args, m):
        e = at(a / a[0]) * at(q) - at(p)     # monic argument
        x.true((e <= t) & (-e <= t), 'multiplier')
    d = x.H.haroldgcd(*args)
    x.same(len(d), len(g), 'divisor')
    e = at(d) - at(g) * Fraction(float(d[0]))
    x.true((e <= t) & (-e <= t), 'divisor')
    x.true(abs(float(d[0])) > 1e-3, 'divisor')
