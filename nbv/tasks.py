"""Registry of verification tasks: property -> [(name, function, cfg)]."""
TASKS = {}


def task(prop, name, **cfg):
    def deco(fn):
        TASKS.setdefault(prop, []).append((name, fn, cfg))
        return fn
    return deco


def add(prop, name, fn, **cfg):
    TASKS.setdefault(prop, []).append((name, fn, cfg))
