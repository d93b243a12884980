"""Registry of contracts (shared by the symbolic and the concrete mode)."""


class Contract:
    def __init__(self, fn, name, funcs, max_paths, samples, bounded, max_time, note, seconds):
        self.fn, self.name, self.funcs = fn, name, funcs
        self.max_paths, self.samples, self.bounded, self.max_time = max_paths, samples, bounded, max_time
        self.note = note
        self.seconds = seconds


REG = []
_LOADED = {}


def contract(name, funcs=(), max_paths=300, samples=150, bounded=False, max_time=240, note='', seconds=6):
    """name: what is specified; funcs: the functions of /repo whose code the obligations are generated from"""
    def deco(fn):
        REG.append(Contract(fn, name, list(funcs), max_paths, samples, bounded, max_time, note, seconds))
        return fn
    return deco


def load(prop):
    import importlib
    import os
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    if prop not in _LOADED:
        importlib.import_module('contracts.' + prop.lower())
        _LOADED[prop] = [c for c in REG if c.fn.__module__ == 'contracts.' + prop.lower()]
    return _LOADED[prop]
