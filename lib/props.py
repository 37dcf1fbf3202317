"""All properties and the suites that decide them."""
import importlib, glob, os

MODULES = sorted(os.path.basename(f)[:-3] for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p_*.py")))


def table():
    t = {}
    for m in MODULES:
        t.update(importlib.import_module(m).PROPS)
    return t


def get(pid):
    return table()[pid]
