"""Imports for harness modules."""
from fractions import Fraction
import numpy as np
from .engine import Harness, Ctx


def harness(reg, name=None, tiers=('quick', 'thorough'), **opts):
    def deco(fn):
        reg.append(Harness(name or fn.__name__, fn, opts, tiers))
        return fn
    return deco


def flags(x, G, siso, static, label):
    """single channel and static flags, where the model has them"""
    for name, want in (('_isSISO', siso), ('_isgain', static)):
        if want is not None:
            x.same(bool(getattr(G, name, want)), want, label)
