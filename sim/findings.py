"""The committed list of known findings (KNOWN_FINDINGS.txt). Only read, never written."""
import contextlib
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")
_off = [0]
_cache = {}


def entries(pid):
    """[(id, text)] of the open findings of a property."""
    if pid not in _cache:
        out = []
        with open(FILE, encoding="utf-8") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3).strip()))
        _cache[pid] = out
    return _cache[pid]


def listed(pid):
    """Ids of the open findings, none inside ignored()."""
    return frozenset() if _off[0] else frozenset(i for i, _ in entries(pid))


@contextlib.contextmanager
def ignored():
    _off[0] += 1
    try:
        yield
    finally:
        _off[0] -= 1
