"""Registry of checks: property id -> function(ctx)."""
CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def _load():
    import importlib
    import os
    for name in sorted(os.listdir(os.path.dirname(__file__))):
        if name.endswith(".py") and name != "__init__.py":
            importlib.import_module("checks." + name[:-3])


_load()
