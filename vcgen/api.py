"""Registration of contracts."""
import os
import sys

REG = {}


class C:
    def __init__(self, prop, name, specs, fn, setup=None, budget=240, thorough=False):
        self.prop = prop
        self.name = name
        self.specs = [(s, ('conex',)) if isinstance(s, str) else (s[0], tuple(s[1])) for s in specs]
        self.fn = fn
        self.setup = setup
        self.budget = budget
        self.thorough = thorough


def contract(prop, name, specs, setup=None, budget=240, thorough=False):
    def deco(fn):
        REG.setdefault(prop, []).append(C(prop, name, specs, fn, setup, budget, thorough))
        return fn
    return deco


def share(prop, other, pattern):
    """contracts of another property on which this one depends as well"""
    import importlib, re
    importlib.import_module(other.lower())
    for c in list(REG[other]):
        if re.fullmatch(pattern, c.name) and c not in REG.get(prop, []):
            REG.setdefault(prop, []).append(c)
