"""Dedicated rules: functions of the project yielding (status, key, where, detail), registered per property."""
import importlib
import os
import pkgutil

RULES = []


def rule(props):
    def d(f):
        RULES.append((props.split(), f))
        return f
    return d


def _load():
    for m in pkgutil.iter_modules([os.path.dirname(os.path.abspath(__file__))]):
        importlib.import_module(__name__ + '.' + m.name)


def for_property(pid):
    _load()
    return [f for ps, f in RULES if pid in ps]
