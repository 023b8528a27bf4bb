"""Load a second copy of the library whose numpy/scipy are the symbolic
stand-ins.  The source is read from /repo on every run and is not modified."""
import builtins
import os
import sys
import types
import importlib

import numpy as np

from . import shim, linalg, sym as S

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'harold'


class Rec:
    """accepts anything, does nothing"""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Rec()

    def __call__(self, *a, **k):
        return Rec()

    def __getitem__(self, k):
        return Rec()

    def __iter__(self):
        return iter(())

    def __setitem__(self, k, v):
        pass


class Line(Rec):
    def __init__(self, x, y, kw):
        self._x, self._y, self._kw = x, y, kw

    def get_xdata(self, orig=True):
        return self._x

    def get_ydata(self, orig=True):
        return self._y

    def get_label(self):
        return self._kw.get('label', '')

    def get_color(self):
        return self._kw.get('color', self._kw.get('c'))

    def get_drawstyle(self):
        return self._kw.get('drawstyle', 'default')


class Axes(Rec):
    """keeps the curves drawn in it"""

    def __init__(self):
        self.lines = []

    def _draw(self, a, kw):
        a = list(a)
        while a:
            x = shim.asany(a.pop(0))
            y = None
            if a and not isinstance(a[0], str):
                y = shim.asany(a.pop(0))
            if y is None:
                x, y = shim.arange(len(x)), x
            if a and isinstance(a[0], str):
                a.pop(0)
            if x.shape[0] != y.shape[0]:
                raise ValueError('x and y must have same first dimension')
            for k in range(y.shape[1] if y.ndim == 2 else 1):
                self.lines.append(Line(x[:, min(k, x.shape[1] - 1)] if x.ndim == 2
                                       else x, y[:, k] if y.ndim == 2 else y, kw))
        return self.lines

    def plot(self, *a, **kw):
        return self._draw(a, kw)

    semilogx = semilogy = loglog = plot

    def step(self, *a, where='pre', **kw):
        return self._draw(a, dict(kw, drawstyle='steps-' + where))

    def axvline(self, x=0, ymin=0, ymax=1, **kw):
        self.lines.append(Line(shim.asany([x, x]), shim.asany([ymin, ymax]), kw))

    def axhline(self, y=0, xmin=0, xmax=1, **kw):
        self.lines.append(Line(shim.asany([xmin, xmax]), shim.asany([y, y]), kw))


class Figure(Rec):
    def __init__(self):
        self.axes = []

    def subplots(self, nrows=1, ncols=1, squeeze=True, **kw):
        r = np.empty((nrows, ncols), dtype=object)
        for k in np.ndindex(nrows, ncols):
            r[k] = Axes()
            self.axes.append(r[k])
        if squeeze:
            return r.item() if r.size == 1 else r.squeeze()
        return r

    def add_subplot(self, *a, **kw):
        self.axes.append(Axes())
        return self.axes[-1]


def fake_plt():
    """Recording stand-in for the figures of matplotlib."""
    import matplotlib
    m = types.ModuleType('matplotlib')
    m.__dict__['__getattr__'] = lambda n: getattr(matplotlib, n)
    p = types.ModuleType('matplotlib.pyplot')
    p.__dict__['__getattr__'] = lambda n: Rec()

    def figure(*a, **k):
        return Figure()

    def subplots(nrows=1, ncols=1, squeeze=True, **kw):
        f = Figure()
        return f, f.subplots(nrows, ncols, squeeze)
    p.figure, p.subplots = figure, subplots
    m.pyplot = p
    return m, p


# public functions a harness may replace by their contract
STUBBABLE = ('staircase', 'cancellation_distance')


def by_contract(name, orig):
    def call(*a, **k):
        h = S.PATH.hooks.get('lib:' + name) if S.PATH is not None else None
        r = h(*a, **k) if h is not None else None
        if r is None:
            return orig(*a, **k)
        linalg.used('contract:' + name)
        return r
    call.__name__, call.__doc__ = name, orig.__doc__
    return call


class SymPackage:
    def __init__(self, repo=REPO):
        self.root = os.path.join(repo, PKG)
        self.mods = {}
        self.files = {}
        self.mpl, self.plt = fake_plt()
        self.bi = dict(builtins.__dict__)
        self.bi['__import__'] = self._import
        self.bi['float'] = shim.sfloat
        self.bi['complex'] = shim.scomplex
        self.bi['all'] = shim.s_all_b
        self.bi['any'] = shim.s_any_b
        self.bi['print'] = lambda *a, **k: None
        self.pkg = self._load(PKG)

    def _path(self, name):
        rel = name.split('.')[1:]
        base = os.path.join(self.root, *rel)
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        return base + '.py', False

    def _load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, ispkg = self._path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError('No module named %r' % name)
        with open(path, encoding='utf-8-sig') as f:
            src = f.read()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.bi
        self.mods[name] = m
        self.files[path] = len(src)
        par, _, leaf = name.rpartition('.')
        exec(compile(src, path, 'exec'), m.__dict__)
        if par and par in self.mods:
            setattr(self.mods[par], leaf, m)
        if name == PKG + '._classes':
            self._stub_zeros(m)
        for fn in STUBBABLE:
            orig = m.__dict__.get(fn)
            if getattr(orig, '__code__', None) and orig.__code__.co_filename == path:
                m.__dict__[fn] = by_contract(fn, orig)
        return m

    def _stub_zeros(self, m):
        """transmission_zeros: opaque / exact model for symbolic data"""
        orig = m.__dict__.get('transmission_zeros')
        if orig is None:
            return
        from . import tzeros
        m.__dict__['transmission_zeros'] = tzeros.make(orig)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or PKG
            parts = pkg.split('.')
            parts = parts[:len(parts) - level + 1]
            full = '.'.join(parts + ([name] if name else []))
        else:
            full = name
        if full == PKG or full.startswith(PKG + '.'):
            m = self._load(full)
            if fromlist:
                for x in fromlist:
                    if x != '*' and not hasattr(m, x):
                        try:
                            self._load(full + '.' + x)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.mods[PKG]
        if full in shim.MODS:
            if fromlist:
                return shim.MODS[full]
            return shim.MODS[full.split('.')[0]]
        if full.split('.')[0] == 'matplotlib':
            if fromlist:
                return self.plt if full.endswith('pyplot') else self.mpl
            return self.mpl
        return builtins.__import__(name, globals, locals, fromlist, level)


_sym = None
_real = None


def sym_package():
    global _sym
    if _sym is None:
        _sym = SymPackage()
    return _sym


def real_package():
    """the library itself, imported from /repo"""
    global _real
    if _real is None:
        os.environ.setdefault('MPLBACKEND', 'Agg')
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        m = importlib.import_module(PKG)
        assert os.path.realpath(m.__file__).startswith(os.path.realpath(REPO)), m.__file__
        _real = m
    return _real
