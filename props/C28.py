"""Calls leave their arguments unchanged.

The harnesses of the other properties are run again with their own assertions
switched off: every public call made there compares its array, list and model
arguments before and after the call, and every model built by a harness is
compared with its data at construction when the harness ends (which covers
the operators)."""
import importlib
import re
from symx.api import *
from symx.watch import watched

HARNESSES = []
FUNCTIONS = ['every public function and constructor except '
             'random_state_model', 'State and Transfer operators']
BOUNDS = {
    'quick': 'inputs of the quick harnesses of C01, C02 and C06 to C27 and C29',
    'thorough': 'inputs of the harnesses of C01 to C27 and C29'}
ASSUMPTIONS = ['those of the properties whose harnesses are run']

# harnesses that assign attributes on purpose
SKIP = {'C26': 'history|multichannel|transfer_zeros|assigned|cancelled', 'C10': None,
        'C28': None, 'C29': '^bode$|automatic'}

# harnesses that record a discretisation method on a model they built
ASSIGNS = {'C11': 'undiscretize|recorded', 'C12': 'inverse',
           'C17': 'hinf_scaled'}

for k in list(range(1, 28)) + [29]:
    pid = 'C%02d' % k
    if SKIP.get(pid, '') is None:
        continue
    mod = importlib.import_module('props.' + pid)
    for h in mod.HARNESSES:
        if pid in SKIP and re.search(SKIP[pid], h.name):
            continue
        HARNESSES.append(watched(
            h, pid, bool(re.search(ASSIGNS.get(pid, '^$'), h.name))))
        if pid in ('C03', 'C04', 'C05'):
            HARNESSES[-1].tiers = tuple(t for t in h.tiers if t == 'thorough')
