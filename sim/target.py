"""Import paths of the code under test: always /repo's working tree."""
import importlib
import os
import sys
import types

REPO = os.environ.get("CPESIM_REPO", "/repo")

PATHS = [
    "src",
    "wip/keywordparser",
    "wip/determinesystem",
    "wip/setenvironment/src",
]


def setup():
    for p in reversed(PATHS):
        sys.path.insert(0, os.path.join(REPO, p))
    import linecache
    linecache.checkcache()


def cpe():
    return importlib.import_module("configparserenhanced")


def parser_class():
    return cpe().ConfigParserEnhanced


def where(mod):
    f = getattr(mod, "__file__", "") or ""
    if not os.path.abspath(f).startswith(REPO + os.sep):
        raise RuntimeError(f"harness: {mod.__name__} was imported from {f}, not from {REPO}")
    return mod
