"""
Every way of asking a parser for configuration, as JSON operations, with the answer the
reference model gives.  Answers are normalised to plain data so that only observable
content is compared (no message text, no order where none is promised).
"""
import io

from . import model as M

FAIL = "FAIL"      # the model says: this must raise


class MW:
    """Model of one loaded configuration: raw parser + handled operations + settings."""

    def __init__(self, cp, handled=(), default="DEFAULT", level=4, extra=None):
        self.cp = cp
        self.walk = M.Walk(cp, set(handled), default)
        self.level = level
        self._cache = {}

    def names(self):
        return self.cp.sections()

    def content(self, sec):
        """dict or FAIL"""
        if sec not in self._cache:
            try:
                d = self.walk.content(sec)
                if self.level >= 5 and any(e[0] == "cycle" for e in self.walk.events(sec)):
                    d = FAIL
            except M.ModelError:
                d = FAIL
            self._cache[sec] = d
        return self._cache[sec]

    def all_ok(self):
        return all(self.content(s) is not FAIL for s in self.names())


def perform(p, op):
    """Execute one access on the real parser p; the result is plain data."""
    k = op[0]
    if k == "raw":
        return M.raw_dump(p.configparserdata)
    d = p.configparserenhanceddata
    if k == "get":
        return dict(d.get(op[1]))
    if k == "getopt":
        return d.get(op[1], op[2])
    if k == "item":
        return dict(d[op[1]])
    if k == "options":
        return dict(d.options(op[1]))
    if k == "items":
        return dict(d.items(op[1]))
    if k == "all":
        return {s: dict(v) for s, v in d.items()}
    if k == "sections":
        return list(d.sections(op[1]))
    if k == "keys":
        return list(d.keys())
    if k == "iter":
        return list(iter(d))
    if k == "len":
        return len(d)
    if k == "has_sec":
        return bool(d.has_section(op[1]))
    if k == "has_opt":
        return bool(d.has_option(op[1], op[2]))
    if k == "parse":
        p.parse_section(op[1], *op[2:])
        return None
    if k == "parse_all":
        p.parse_all_sections()
        return None
    if k == "export":
        return p.unroll_to_str(section=op[1], space_around_delimiters=op[2], use_base_class_parser=op[3])
    if k == "write":
        f = io.StringIO()
        r = p.write(f, space_around_delimiters=op[2], section=op[1], use_base_class_parser=op[3])
        if r != 0:
            raise RuntimeError(f"write returned {r!r}")
        return f.getvalue()
    if k == "assert_sec":
        return p.assert_section_all_options_handled(op[1], do_raise=op[2])
    if k == "assert_file":
        return p.assert_file_all_sections_handled()
    raise ValueError(f"harness: unknown access {op!r}")


def expect(op, mw):
    """What the model says: FAIL, or a predicate-friendly value (see same())."""
    k = op[0]
    if k == "raw":
        return M.raw_dump(mw.cp)
    if k in ("get", "item", "options", "items"):
        return mw.content(op[1])
    if k == "getopt":
        c = mw.content(op[1])
        if c is FAIL or op[2] not in c:
            return FAIL
        return c[op[2]]
    if k == "all":
        return {s: mw.content(s) for s in mw.names()} if mw.all_ok() else FAIL
    if k == "sections":
        if op[1] is not False and not mw.all_ok():
            return FAIL
        return list(mw.names())
    if k in ("keys", "iter"):
        return list(mw.names())
    if k == "len":
        return len(mw.names())
    if k == "has_sec":
        if op[1] not in mw.names():
            return False
        return FAIL if mw.content(op[1]) is FAIL else True
    if k == "has_opt":
        c = mw.content(op[1])
        return FAIL if c is FAIL else op[2] in c
    if k == "parse":
        return FAIL if mw.content(op[1]) is FAIL else None
    if k == "parse_all":
        return None if mw.all_ok() else FAIL
    raise ValueError(f"harness: no model answer for {op!r}")


def same(op, mw, out):
    """Does the outcome agree with the model? (fault-free execution)"""
    k = op[0]
    want = expect(op, mw)
    if k == "has_opt" and op[1] not in mw.names():
        return (not out.ok) or out.value is False
    if want is FAIL:
        return not out.ok
    if not out.ok:
        return False
    if k == "all":
        # a parser may know further (explicitly added) sections; see the callers
        return out.value == want
    return out.value == want and type(out.value) is type(want)


def brief(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
