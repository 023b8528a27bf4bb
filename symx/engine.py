"""Harness contexts, path execution, assertion discharge and replay."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import poly as P
from . import sym as S
from . import linalg as L
from . import loader, shim
from .sarr import SArr, mkarr, asany, raw, has_sym
from .sym import SymReal, SymComplex, SymBool, lift, STATS
from .z3mod import z3

TOL = 2e-6


class AssertFail(BaseException):
    def __init__(self, label, msg=''):
        super().__init__(label, msg)
        self.label = label
        self.msg = msg


class Skip(BaseException):
    """real mode: the input does not satisfy the harness assumptions"""


class Timeout(S.Steer):
    pass


class Ctx:
    """What a harness sees.  The same harness runs on both contexts."""
    sym = False

    def __init__(self, tier, opts):
        self.tier = tier
        self.opts = dict(opts)
        self.thorough = tier == 'thorough'
        self.obs = []
        self.reach = set()

    # ---- derived input helpers
    def array(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        xs = []
        for k in np.ndindex(*shape):
            xs.append(self.real(name + ''.join('_%d' % i for i in k), lo, hi))
        return self._mkarr(shape, xs)

    def pos(self, name, lo=Fraction(1, 8), hi=4):
        return self.real(name, lo, hi)

    def choice(self, label, options):
        options = list(options)
        i = self._choose(label, len(options))
        self.picked[label] = options[i]
        return options[i]

    def flag(self, label):
        return self.choice(label, [False, True])

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def mat(self, rows):
        """matrix from nested lists of scalars"""
        rows = [list(r) for r in rows]
        sh = (len(rows), len(rows[0]) if rows else 0)
        return self._mkarr(sh, [v for r in rows for v in r])

    def vec(self, xs):
        xs = list(xs)
        return self._mkarr((len(xs),), xs)

    def state(self, name, n, p, m, dt=None, d=True, a=None):
        """State model with symbolic data (n == 0 gives a static gain)"""
        D = self.array(name + 'd', (p, m)) if d is True else (
            self._mkarr((p, m), [self.const(0)] * (p * m)) if d is False else d)
        if n == 0:
            return self.H.State(D, dt=dt)
        A = self.array(name + 'a', (n, n)) if a is None else a
        B = self.array(name + 'b', (n, m))
        C = self.array(name + 'c', (p, n))
        return self.H.State(A, B, C, D, dt)

    def raises(self, excs, fn, label):
        """fn() must raise one of excs"""
        try:
            fn()
        except excs:
            self.note(label)
            return
        except Exception as e:
            self.fail(label, 'raised %s instead: %s' % (type(e).__name__, e))
            return
        self.fail(label, 'no exception raised')

    def noraise(self, fn, label):
        """fn() must succeed; returns its value"""
        try:
            return fn()
        except Exception as e:
            self.fail(label, 'raised %s: %s' % (type(e).__name__, e))
            raise

    def is_none(self, v, label):
        self.true(v is None, label)

    def same(self, a, b, label):
        """concrete python equality (shapes, types, flags, strings)"""
        r = a == b
        if isinstance(r, SymBool):
            self.true(r, label)
            return
        if not r:
            self.fail(label, '%r != %r' % (a, b))
        else:
            self.note(label)


# ------------------------------------------------------------------ symbolic
class SymX(Ctx):
    sym = True

    def __init__(self, path, tier, opts):
        super().__init__(tier, opts)
        self.path = path
        self.H = loader.sym_package().pkg
        self.np = shim.NP
        self.sla = shim.SLA
        self.picked = {}
        self.cands = []          # (label, formula or None, msg)
        self.asserts = 0
        self.discharged = 0
        self.unknowns = []
        self.confirm_budget = opts.get('confirm_s', 3.0)
        self.nf_only = 0

    def const(self, v):
        return lift(v)

    def real(self, name, lo=None, hi=None):
        return self.path.input(name, lo, hi)

    def eps(self, name, K, lo=Fraction(1, 64), hi=Fraction(1, 8)):
        """formal power series variable: powers above K are dropped"""
        v = self.path.input(name, lo, hi)
        self.path.space.nil.append((self.path._idx(v), K))
        return v

    def nat(self, name, lo, hi):
        """symbolic integer"""
        v = self.path.input(name, lo, hi)
        self.path.intvars.add(self.path._idx(v))
        return v

    def _mkarr(self, shape, xs):
        return mkarr(tuple(shape), [lift(v) for v in xs])

    def intarray(self, name, shape, lo, hi):
        """integer dtype array with symbolic entries"""
        xs = []
        for k in np.ndindex(*shape):
            v = self.nat(name + ''.join('_%d' % i for i in k), lo, hi)
            self.path.intinputs.add(self.path._idx(v))
            xs.append(v)
        r = mkarr(shape, xs)
        r.kind = 'i'
        return r

    def _choose(self, label, n):
        return self.path.choose(label, n)

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                S.steer(S.Infeasible('assumption false'))
            return
        if isinstance(cond, SArr):
            cond = cond.all()
            return self.assume(cond)
        self.path.assume(S.fof(cond))

    def hook(self, name, fn):
        self.path.hooks[name] = fn

    def note(self, label):
        self.asserts += 1
        self.discharged += 1
        self.reach.add(label)

    def fail(self, label, msg=''):
        self.asserts += 1
        self.reach.add(label)
        self.cands.append((label, None, msg))

    def true(self, cond, label):
        if isinstance(cond, SArr):
            cond = cond.all()
        if isinstance(cond, L.Opaque):
            S.unsupported('assertion on an opaque value: ' + label)
        if isinstance(cond, SymBool):
            self._goal(cond.f, label)
        elif not cond:
            self.fail(label, 'condition is false')
        else:
            self.note(label)

    def _goal(self, f, label):
        """must hold: f"""
        self.asserts += 1
        self.reach.add(label)
        path = self.path
        if path.known.get(f):
            self.discharged += 1
            return
        neg = S.f_not(f)
        r, m = path.solve([neg], timeout=self.opts.get('goal_ms', 8000))
        if r == 'unsat':
            self.discharged += 1
        elif r == 'sat':
            self.cands.append((label, neg, ''))
        else:
            self.unknowns.append((label, neg))

    def eq(self, a, b, label, tol=None, scale=None):
        """a == b entrywise (exact in symbolic mode)"""
        A, B = raw(a), raw(b)
        A, B = np.asarray(A if isinstance(A, np.ndarray) else [A], dtype=object), \
            np.asarray(B if isinstance(B, np.ndarray) else [B], dtype=object)
        self.reach.add(label)
        if A.shape != B.shape:
            if B.size == 1 or A.size == 1:
                A, B = np.broadcast_arrays(A, B)
            else:
                self.fail(label, 'shapes %s and %s' % (A.shape, B.shape))
                return
        self.obs.append((label, A))
        self.asserts += 1
        pairs = []
        for u, v in zip(A.reshape(-1), B.reshape(-1)):
            if isinstance(u, L.Opaque) or isinstance(v, L.Opaque):
                S.unsupported('assertion on an opaque value: ' + label)
            if isinstance(u, float) or isinstance(v, float):
                fu, fv = isinstance(u, float), isinstance(v, float)
                if fu and fv and (u == v or (u != u and v != v)):
                    continue
                self.cands.append((label, None, 'inf/nan mismatch'))
                continue
            if isinstance(u, SymComplex) or isinstance(v, SymComplex):
                pairs.append((u.real, v.real))
                pairs.append((u.imag, v.imag))
            else:
                pairs.append((u, v))
        bad, zero = [], []
        for u, v in pairs:
            d = u - v
            if not isinstance(d, SymReal):
                S.unsupported('difference of %r' % (d,))
            if d.n.t:
                f = S.atom(d.n, '==')
                if self.path.known.get(f):
                    continue
                bad.append(S.f_not(f))
            else:
                zero.append((u, v))
        if bad:
            neg = S.f_or(bad)
            if neg == S.TRUE:
                self.cands.append((label, None, 'always different'))
                return
            r, m = self.path.solve([neg], timeout=self.opts.get('goal_ms', 8000))
            if r == 'sat':
                self.cands.append((label, neg, ''))
                return
            if r == 'unknown':
                self.unknowns.append((label, neg))
                return
        if zero:
            self._confirm(zero)
        self.discharged += 1

    def _confirm(self, pairs):
        """The normal form of every difference is zero; let the solver refute
        the disequality of the two (separately built) terms as well."""
        path = self.path
        t0 = time.time()
        ne = []
        size = 0
        for u, v in pairs:
            if u is v or (u.n == v.n and u.d == v.d and not u.d):
                # syntactically the same polynomial on both sides
                e1 = S.p_z3(u.n, path)
                ne.append(e1 != S.p_z3(P.Poly(dict(v.n.t)), path))
                size += len(u.n.t)
                continue
            size += len(u.n.t) + len(v.n.t)
            l, r = S.p_z3(u.n, path), S.p_z3(v.n, path)
            for f, e in v.d.items():
                for _ in range(e):
                    l = l * S.p_z3(f, path)
            for f, e in u.d.items():
                for _ in range(e):
                    r = r * S.p_z3(f, path)
            ne.append(l != r)
        if self.confirm_budget <= 0 or size > 4000:
            self.nf_only += 1
            return
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 1500)
        vs = set()
        for u, v in pairs:
            for w in (u, v):
                vs.update(w.n.vars())
        for i in list(vs):
            for ax in path.daxioms.get(i, ()):
                s.add(S.f_z3(ax, path))
        s.add(z3.Or(*ne) if len(ne) > 1 else ne[0])
        r = str(s.check())
        dt = time.time() - t0
        self.confirm_budget -= dt
        STATS.queries += 1
        STATS.solver_s += dt
        setattr(STATS, r, getattr(STATS, r) + 1)
        if r != 'unsat':
            self.nf_only += 1

    def finite(self, a, label):
        A = np.asarray(raw(a) if isinstance(raw(a), np.ndarray) else [raw(a)])
        if any(isinstance(v, float) for v in A.reshape(-1)):
            self.fail(label, 'not finite')
        else:
            self.note(label)

    def branch(self, cond):
        """python truth value of a condition (explores both sides)"""
        return bool(cond)


# ------------------------------------------------------------------ concrete
class RealX(Ctx):
    def __init__(self, values, choices, tier, opts, tol=TOL):
        super().__init__(tier, opts)
        self.values = values
        self.choices = list(choices)
        self.ci = 0
        self.H = loader.real_package()
        self.np = np
        import scipy.linalg
        self.sla = scipy.linalg
        self.picked = {}
        self.tol = opts.get('tol', tol)
        self.failures = []

    def const(self, v):
        return float(v)

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            # an input the symbolic run had not created yet
            l = -2.0 if lo is None else float(lo)
            h = l + 4 if hi is None else float(hi)
            l = h - 4 if lo is None and hi is not None else l
            v = round(random.Random(name).uniform(l, h) * 8) / 8
            v = min(max(v, l), h)
            self.values[name] = v
        return float(v)

    def eps(self, name, K, lo=Fraction(1, 64), hi=Fraction(1, 8)):
        return self.real(name, lo, hi)

    def nat(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = random.Random(name).randint(int(lo), int(hi))
            self.values[name] = v
        return int(v)

    def intarray(self, name, shape, lo, hi):
        r = np.zeros(shape, dtype=int)
        for k in np.ndindex(*shape):
            r[k] = self.nat(name + ''.join('_%d' % i for i in k), lo, hi)
        return r

    def _mkarr(self, shape, xs):
        xs = list(xs)
        if any(isinstance(v, complex) for v in xs):
            return np.array(xs, dtype=complex).reshape(shape)
        return np.array(xs, dtype=float).reshape(shape)

    def _choose(self, label, n):
        if self.ci < len(self.choices):
            i = self.choices[self.ci][1]
        else:
            i = 0
        self.ci += 1
        return min(i, n - 1)

    def assume(self, cond):
        if not np.all(cond):
            raise Skip()

    def hook(self, name, fn):
        pass

    def note(self, label):
        self.reach.add(label)

    def fail(self, label, msg=''):
        self.failures.append((label, msg))
        raise AssertFail(label, msg)

    def true(self, cond, label):
        if not np.all(cond):
            self.fail(label, 'condition is false')
        self.reach.add(label)

    def eq(self, a, b, label, tol=None, scale=None):
        A, B = np.atleast_1d(np.asarray(a)), np.atleast_1d(np.asarray(b))
        if A.shape != B.shape:
            if B.size == 1 or A.size == 1:
                A, B = np.broadcast_arrays(A, B)
            else:
                self.fail(label, 'shapes %s and %s' % (A.shape, B.shape))
        self.obs.append((label, A))
        if A.size == 0:
            return
        A = A.astype(complex)
        B = B.astype(complex)
        bothnan = np.isnan(A) & np.isnan(B)
        same = (A == B) | bothnan
        if same.all():
            return
        t = self.tol if tol is None else tol
        fin = np.abs(np.concatenate([A[np.isfinite(A)], B[np.isfinite(B)], [1e-3]]))
        sc = fin.max() if scale is None else max(abs(float(scale)), fin.max())
        with np.errstate(all='ignore'):
            ok = same | (np.abs(A - B) <= t * sc)
        if not ok.all():
            k = np.argwhere(~ok)[0]
            self.fail(label, 'got %s expected %s at %s' % (
                A[tuple(k)], B[tuple(k)], k.tolist()))
        self.reach.add(label)

    def finite(self, a, label):
        if not np.all(np.isfinite(a)):
            self.fail(label, 'not finite')
        self.reach.add(label)

    def branch(self, cond):
        return bool(cond)


# ------------------------------------------------------------------ running
class Harness:
    def __init__(self, name, fn, opts, tiers):
        self.name = name
        self.fn = fn
        self.opts = opts
        self.tiers = tiers


def in_code_under_test():
    root = os.path.join(loader.REPO, loader.PKG)
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_filename.startswith(root):
            return True
        f = f.f_back
    return False


HANG_S = 30


class Hang(BaseException):
    pass


def run_real(h, values, choices, tier, tol=None):
    """('ok'|'fail'|'skip', label, msg, ctx)

    A run that takes milliseconds when it terminates is given HANG_S seconds
    of processor time, so that a slow machine is not taken for a loop."""
    def on_alarm(sig, frm):
        raise Hang
    left = signal.getitimer(signal.ITIMER_REAL)[0]
    t0 = time.time()
    signal.setitimer(signal.ITIMER_REAL, 0)
    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_S)
    try:
        return _run_real(h, values, choices, tier, tol)
    except Hang:
        return 'fail', 'termination', 'no result after %d s' % HANG_S, \
            RealX(dict(values), choices, tier, dict(h.opts), tol or TOL)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        if left:
            # paused, not extended, for the usual short run
            signal.setitimer(signal.ITIMER_REAL,
                             max(left - min(time.time() - t0, 5), 0.5))


def _run_real(h, values, choices, tier, tol=None):
    opts = dict(h.opts)
    x = RealX(dict(values), choices, tier, opts, tol or TOL)
    st = np.random.get_state()
    np.random.seed(1)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            h.fn(x)
        return 'ok', None, None, x
    except AssertFail as e:
        return 'fail', e.label, e.msg, x
    except Skip:
        return 'skip', None, None, x
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [t for t in tb if '/harold/' in t.filename]
        w = '%s:%s' % (os.path.basename(loc[-1].filename), loc[-1].lineno) \
            if loc else '%s:%s' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        return 'fail', 'exception', '%s at %s: %s' % (
            type(e).__name__, w, str(e)[:200]), x
    finally:
        np.random.set_state(st)


def model_values(path, model):
    vals = {}
    for name, i in path.inputs.items():
        v = model.get(i, Fraction(0))
        vals[name] = float(v)
    return vals


class PathResult:
    def __init__(self):
        self.status = 'ok'
        self.note = ''
        self.violations = []
        self.alts = []
        self.asserts = 0
        self.discharged = 0
        self.inconclusive = []
        self.validated = 0
        self.disagree = []
        self.stubs = set()
        self.reach = set()
        self.choices = {}
        self.decisions = 0
        self.sample = None
        self.divs = 0
        self.nf_only = 0
        self.bands = False


def _where(e, n=6):
    tb = traceback.extract_tb(e.__traceback__, limit=-n)
    return ' < '.join('%s:%d' % (os.path.basename(t.filename), t.lineno)
                      for t in tb[::-1])


def explore_one(h, prefix, model, tier, seed=1):
    """run one path of harness h; returns PathResult"""
    res = PathResult()
    opts = dict(h.opts)
    opts['seed'] = seed
    t_path = opts.get('path_s', 25)
    path = S.Path(prefix, model, opts)
    path.need_frames = True
    S.set_path(path)
    x = SymX(path, tier, opts)
    exc = None

    def on_alarm(sig, frm):
        if path.aborted is None:
            path.aborted = Timeout('path time limit')
        raise Timeout('path time limit')
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, t_path)
    status = 'ok'
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            h.fn(x)
    except S.Infeasible:
        status = 'infeasible'
    except S.DivZero as e:
        status = 'divzero'
        res.note = str(e)
    except (S.Steer, P.PolyTooBig, RecursionError, MemoryError) as e:
        status = 'unsupported'
        res.note = '%s: %s @ %s' % (type(e).__name__, str(e)[:160], _where(e))
    except Exception as e:
        status = 'exception'
        exc = e
        res.note = '%s: %s @ %s' % (type(e).__name__, str(e)[:160], _where(e))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    # a path-ending signal swallowed by the code under test still ends the path
    if path.aborted is not None and status in ('ok', 'exception'):
        status = 'infeasible' if isinstance(path.aborted, S.Infeasible) else (
            'divzero' if isinstance(path.aborted, S.DivZero) else 'unsupported')
        res.note = 'swallowed: %s' % path.aborted
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, max(t_path, 30))
    try:
        _judge(h, path, x, status, res, tier)
    except (Timeout, P.PolyTooBig, S.Steer) as e:
        res.inconclusive.append('post-processing: %s' % e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    res.status = status
    res.alts = path.alts
    res.asserts = x.asserts
    res.discharged = x.discharged
    res.stubs = path.stubs
    res.reach = x.reach
    res.choices = dict(x.picked)
    res.decisions = len(path.decisions)
    res.nf_only = x.nf_only
    res.bands = bool(path.bands)
    S.set_path(None)
    return res


def _viol(res, h, path, x, values, label, msg, kind):
    res.violations.append(dict(
        harness=h.name, label=label, msg=msg, kind=kind, values=values,
        choices=path.choices, picked={k: repr(v) for k, v in x.picked.items()},
        tier=x.tier))


def _try_models(h, path, x, models, tier, res, kind, want=None):
    seen = 0
    for m in models:
        if m is None:
            continue
        seen += 1
        v = model_values(path, m)
        r, label, msg, rx = run_real(h, v, path.choices, tier)
        if r == 'fail':
            _viol(res, h, path, x, rx.values, label, msg, kind)
            return True
    return False


def _models_for(path, neg, n=8):
    """models of the path condition and neg, nice ones first"""
    out = 0
    fs = [neg] if neg is not None else []
    for _ in range(n):
        m = path.sample(fs, tries=40)
        if m is None:
            break
        yield m
        out += 1
    if out < 2:
        r, m = path.solve(fs, slice_=False, timeout=6000, bound=6)
        if r == 'sat':
            yield m
        r, m = path.solve(fs, slice_=False, timeout=6000)
        if r == 'sat':
            yield m


def _judge(h, path, x, status, res, tier):
    t0 = time.time()
    if status == 'infeasible':
        return
    # 1. assertion candidates
    seen = set()
    for label, neg, msg in x.cands:
        if label in seen:
            continue
        if _try_models(h, path, x, _models_for(path, neg), tier, res, 'assert'):
            seen.add(label)
            break
        res.inconclusive.append('counterexample for %r did not reproduce (%s)'
                                % (label, msg))
    for label, neg in x.unknowns:
        if _try_models(h, path, x, _models_for(path, neg, 4), tier, res, 'assert'):
            break
        res.inconclusive.append('solver gave up on %r' % label)
    if res.violations:
        return
    # 2. how did the path end
    if status == 'exception':
        if _try_models(h, path, x, _models_for(path, None, 3), tier, res, 'exception'):
            return
        res.inconclusive.append('exception only in the symbolic run: ' + res.note)
        return
    if status in ('unsupported', 'divzero'):
        if _try_models(h, path, x, _models_for(path, None, 5), tier, res, 'witness'):
            return
        if path.solve([], slice_=False, timeout=6000)[0] == 'unsat':
            return
        res.inconclusive.append(status + ': ' + res.note)
        return
    # 3. witness: reachability and agreement with the real code
    ok = path.have_model()
    if ok:
        v = model_values(path, path.model)
        r, label, msg, rx = run_real(h, v, path.choices, tier)
        if r == 'fail':
            # give rounding a second opinion before believing it
            v2 = None
            for m in _models_for(path, None, 3):
                v2 = model_values(path, m)
                r2, label2, msg2, rx2 = run_real(h, v2, path.choices, tier)
                if r2 == 'fail':
                    _viol(res, h, path, x, rx2.values, label2, msg2, 'witness')
                    return
            r3, label3, msg3, rx3 = run_real(h, v, path.choices, tier, 2e-3)
            if r3 == 'fail':
                _viol(res, h, path, x, rx.values, label3, msg3, 'witness')
                return
            res.disagree.append('%s: %s' % (label, msg))
        elif r == 'ok':
            res.validated += 1
            res.sample = dict(values=v, choices={k: repr(z) for k, z in
                                                 x.picked.items()})
            _compare_obs(path, x, rx, res)
        else:
            res.disagree.append('assumption not met by the witness')
    else:
        res.inconclusive.append('no witness found for the path')
    # 4. inputs that make a denominator of the code under test vanish
    n = 0
    for k, m in path.divs:
        if n >= 4 or time.time() - t0 > 10:
            break
        n += 1
        full = path.pc
        path.pc = full[:k]
        kn = path.known
        try:
            path.known = {}
            r, mod = path.solve([S.atom(m, '==')], slice_=False, timeout=2000,
                                bound=6)
        finally:
            path.pc = full
            path.known = kn
        if r == 'sat':
            res.divs += 1
            if _try_models(h, path, x, [mod], tier, res, 'division'):
                return


def _evalsym(v, vals):
    if isinstance(v, SymComplex):
        return complex(_evalsym(v.re, vals), _evalsym(v.im, vals))
    if isinstance(v, SymReal):
        r = complex(v.n.eval(vals))
        for f, e in v.d.items():
            r /= complex(f.eval(vals)) ** e
        return r
    return complex(v)


def _compare_obs(path, x, rx, res):
    """encoding vs implementation on the same input"""
    if path.opts.get('nondet') or path.space.nil:
        return
    vals, _ = path._vals(path.model)
    for (la, A), (lb, B) in zip(x.obs, rx.obs):
        if la != lb or A.shape != B.shape:
            res.disagree.append('shape of %s' % la)
            return
        for u, w in zip(A.reshape(-1), B.reshape(-1)):
            try:
                z = _evalsym(u, vals)
            except (TypeError, ZeroDivisionError, OverflowError, KeyError):
                continue
            if z != z:
                continue
            w = complex(w)
            if abs(z - w) > 1e-4 * max(1.0, abs(z), abs(w)):
                res.disagree.append('%s: encoding %s, code %s' % (la, z, w))
                return
