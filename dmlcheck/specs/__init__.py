"""Driver programs per part of the library."""
import importlib
import pkgutil
import re

DRIVERS = []          # (name, src, props, params, tier)
_loaded = False
EVENT_PROPS = {"P08", "P09", "P11", "P24"}


def driver(name, src, params=None, tier="quick", events=True, extra=()):
    """register a driver program; the properties it serves are read off its obligation labels"""
    props = set(re.findall(r"\bP\d\d\b", src)) | set(extra)
    if events:
        props |= EVENT_PROPS
    DRIVERS.append(dict(name=name, src=src, props=props, params=params or {}, tier=tier, events=events))


def load():
    global _loaded
    if not _loaded:
        _loaded = True
        for m in sorted(pkgutil.iter_modules(__path__), key=lambda m: m.name):
            importlib.import_module(f"{__name__}.{m.name}")
        names = [d["name"] for d in DRIVERS]
        dup = {x for x in names if names.count(x) > 1}
        assert not dup, dup
    return DRIVERS
