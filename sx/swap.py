"""Replacement of library functions while a harness runs."""
import importlib
import types
from contextlib import contextmanager


@contextmanager
def swapped(mod, *subst):
    """Replace library functions, given as (name of the library module, name
    of the function, replacement), in that module, and wherever `mod` has
    bound the function or the library module to a name of its own."""
    undo = []

    def put(o, k, v):
        undo.append((o, k, o.__dict__[k] if k in o.__dict__ else undo))
        setattr(o, k, v)
    try:
        for lib, name, repl in subst:
            real = mod if lib == mod.__name__ else importlib.import_module(lib)
            own = [real] + [v for v in list(vars(mod).values()) if isinstance(v, types.ModuleType) and vars(v).get('_real') is real]
            old = [getattr(o, name) for o in own if hasattr(o, name)]
            for o in own:
                put(o, name, repl)
            for k, v in list(vars(mod).items()):
                if any(v is f for f in old):
                    put(mod, k, repl)
        yield
    finally:
        for o, k, v in reversed(undo):
            if v is undo:
                delattr(o, k)
            else:
                setattr(o, k, v)


@contextmanager
def without(c, flag, *mods, on=True):
    """Run as if an optional package were not installed."""
    old = []
    try:
        for nm in mods if on else ():
            m = c.mod(nm)
            if hasattr(m, flag):
                old.append((m, getattr(m, flag)))
                setattr(m, flag, False)
        yield
    finally:
        for m, v in old:
            setattr(m, flag, v)
