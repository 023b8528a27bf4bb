"""Model of transmission_zeros for symbolic state matrices."""
from . import linalg as L
from . import sym as S
from .sarr import mkarr, asany


def make(orig):
    def transmission_zeros(A, B, C, D):
        if L.conc(A, B, C, D):
            return orig(A, B, C, D)
        mode = S.PATH.opts.get('tzeros', 'opaque')
        if mode == 'run':
            return orig(A, B, C, D)
        if mode == 'opaque':
            L.used('tzeros-opaque')
            return mkarr((1,), [L.Opaque('transmission zero')])
        # exact: roots of the numerator of C (sI-A)^-1 B + D, SISO only
        A, B, C, D = [asany(z) for z in (A, B, C, D)]
        if D.size != 1 or mode == 'strict' and not bool((D == 0).all()):
            L.used('tzeros-opaque')
            return mkarr((1,), [L.Opaque('transmission zero')])
        L.used('tzeros-exact')
        num = siso_numerator(A, B, C, D)
        while num and bool(num[0] == 0):
            num = num[1:]
        if not num:
            return mkarr((0,), [])
        r = L.poly_roots([c / num[0] for c in num])
        return mkarr((len(r),), r)
    transmission_zeros.__wrapped__ = orig
    return transmission_zeros


def siso_numerator(A, B, C, D):
    """coefficients of C adj(sI-A) B + D det(sI-A)"""
    den = list(L.charpoly(A))
    n = len(den) - 1
    # Markov parameters times the characteristic polynomial
    h = [D.reshape(-1)[0]]
    v = B
    for k in range(n):
        h.append((C @ v).reshape(-1)[0])
        v = A @ v
    return [sum((den[i] * h[k - i] for i in range(k + 1)), S.lift(0))
            for k in range(n + 1)]
