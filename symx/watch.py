"""Runs harnesses of other properties and checks only that public calls leave
their arguments as they were."""
import inspect
import numpy as np
from .engine import Harness


def leaves(v):
    """structure and elements of an argument"""
    t = type(v).__name__
    if t == 'State':
        return ('State', v.SamplingPeriod, v.DiscretizedWith,
                [leaves(m) for m in (v.a, v.b, v.c, v.d)])
    if t == 'Transfer':
        return ('Transfer', v.SamplingPeriod, v.DiscretizedWith,
                [leaves(v.num), leaves(v.den)])
    if isinstance(v, np.ndarray):
        return ('array', tuple(v.shape), list(np.asarray(v).reshape(-1)))
    if isinstance(v, (list, tuple)):
        return (t, [leaves(w) for w in v])
    return v


def compare(x, old, new, label):
    """identical elements need no query"""
    if old is new:
        return True
    if isinstance(old, (list, tuple)):
        if type(old) is not type(new) or len(old) != len(new):
            x.fail(label, 'structure changed')
            return False
        return all([compare(x, a, b, label) for a, b in zip(old, new)])
    if isinstance(old, (str, bool, type(None))) or isinstance(new, (str, bool, type(None))):
        if type(old) is not type(new) or old != new:
            x.fail(label, '%r became %r' % (old, new))
            return False
        return True
    try:
        if not x.sym and (old == new or old != old and new != new):
            return True
    except Exception:
        pass
    x.eq(new, old, label)
    return True


WATCHED = (np.ndarray, list)


def interesting(v):
    return isinstance(v, WATCHED) or type(v).__name__ in ('State', 'Transfer') \
        or isinstance(v, tuple) and any(interesting(w) for w in v)


class Quiet:
    """harness context whose assertions are silent"""

    def __init__(self, x, assigns):
        self.__dict__['x'] = x
        self.__dict__['assigns'] = assigns
        self.__dict__['models'] = []
        self.__dict__['H'] = Package(self, x.H)
        self.__dict__['inner'] = False

    def __getattr__(self, name):
        return getattr(self.x, name)

    def eq(self, *a, **k):
        pass

    true = same = fail = note = finite = is_none = eq

    def raises(self, excs, fn, label):
        try:
            fn()
        except Exception:
            pass

    def noraise(self, fn, label):
        return fn()

    def state(self, *a, **k):
        G = self.x.state(*a, **k)
        self.keep(G)
        return G

    def keep(self, G):
        self.models.append((G, self.data(G)))

    def data(self, G):
        v = leaves(G)
        return v[:2] + v[3:] if self.assigns else v

    def finish(self):
        for G, old in self.models:
            compare(self.x, old, self.data(G), 'model')
        self.x.same(True, True, 'calls')


class Package:
    def __init__(self, q, H):
        self._q, self._H = q, H

    def __getattr__(self, name):
        f = getattr(self._H, name)
        if not callable(f):
            return f
        return Call(self._q, name, f)


class Call:
    def __init__(self, q, name, f):
        self.q, self.name, self.f = q, name, f

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __call__(self, *a, **k):
        q = self.q
        if q.inner:
            return self.f(*a, **k)
        args = [v for v in list(a) + list(k.values()) if interesting(v)]
        was = [leaves(v) for v in args]
        q.__dict__['inner'] = True
        try:
            r = self.f(*a, **k)
        finally:
            q.__dict__['inner'] = False
            for v, old in zip(args, was):
                compare(q.x, old, leaves(v), self.name)
        if inspect.isclass(self.f) and type(r).__name__ in ('State', 'Transfer'):
            q.keep(r)
        return r


def watched(h, prefix, assigns=False):
    """assigns: the harness itself sets DiscretizedWith on its models"""
    def run(x):
        q = Quiet(x, assigns)
        try:
            h.fn(q)
        except Exception:
            # not a matter of this property; the argument checks have run
            pass
        q.finish()
    return Harness(prefix + '.' + h.name, run, h.opts, h.tiers)
