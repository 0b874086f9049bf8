"""
Executable reference model: what the .ini files mean, independent of the code under test.

The raw layer is the Python standard library's ConfigParser over the text of the files; the
expansion of sections is a depth-first walk written here from the documentation.
"""
import configparser
import io
import re
import shlex

COMMON = "CONFIGPARSERENHANCED_COMMON"


class ModelError(Exception):
    """The model says that the operation fails. `want` is what the exception has to be."""

    def __init__(self, want, why):
        super().__init__(why)
        self.want = want
        self.why = why


def raw_load(contents, delimiters=("=", ":")):
    """Merge the file contents (bytes) in order. Raises any exception if they are not valid."""
    cp = configparser.ConfigParser(allow_no_value=True, delimiters=tuple(delimiters), default_section=COMMON)
    cp.optionxform = str
    for b in contents:
        cp.read_file(io.TextIOWrapper(io.BytesIO(b), encoding="utf-8"), source="model")
    return cp


def raw_dump(cp):
    """Section order and raw content (uninterpolated), as plain data."""
    return [(s, cp.items(s, raw=True)) for s in cp.sections()]


def try_load(contents, delimiters=("=", ":")):
    try:
        return raw_load(contents, delimiters)
    except Exception:
        return None


def options_of(cp, section):
    """(key, value or exception) pairs of one section in file order."""
    proxy = cp[section]
    for k in list(proxy.keys()):
        try:
            v = proxy[k]
        except Exception as ex:     # interpolation errors, interpolation of an absent value
            yield k, ex
            return
        yield k, v


def clean(k, v):
    k = str(k).strip()
    if v is not None:
        v = str(v).strip().strip('"')
    return k, v


RE_OP = re.compile(r"^[\w\-]+$")


def split_key(k):
    """(op, params) or None if the key is a plain option. May raise ValueError."""
    tok = shlex.split(k)
    if not RE_OP.match(tok[0]):
        return None
    return tok[0].replace("-", "_"), tok[1:]


class Walk:
    """Depth-first expansion of one root section."""

    MAX = 200000

    def __init__(self, cp, handled, default="DEFAULT"):
        self.cp = cp
        self.handled = handled           # set of operations with handlers (besides `use`)
        self.default = default

    def events(self, root):
        """Generate events:
           ("init", root)
           ("op", section, op, params, key, value)
           ("gen", section, key, value, op or None, params)
           ("cycle", section, target)
           ("missing", section, target) / ("bad", section, why)   -> the parse fails here
           ("fin", root)
        """
        yield ("init", root)
        open_ = [root]
        if root != self.default and self.cp.has_section(self.default):
            yield from self._section(self.default, open_ + [self.default])
        yield from self._section(root, open_)
        yield ("fin", root)

    def _section(self, sec, open_):
        if not self.cp.has_section(sec):
            yield ("missing", sec, sec)
            return
        for k, v in options_of(self.cp, sec):
            if isinstance(v, Exception):
                yield ("bad", sec, "interpolation")
                return
            k, v = clean(k, v)
            try:
                sp = split_key(k)
            except ValueError:
                yield ("bad", sec, "quoting")
                return
            if sp is None:
                yield ("gen", sec, k, v, None, None)
                continue
            op, params = sp
            if op == "use" and "use" not in self.handled:
                if not params:
                    yield ("bad", sec, "use without target")
                    return
                t = params[0]
                yield ("use", sec, t, k, v)
                if t in open_:
                    yield ("cycle", sec, t)
                else:
                    yield from self._section(t, open_ + [t])
            elif op in self.handled:
                yield ("op", sec, op, params, k, v)
            else:
                yield ("gen", sec, k, v, op, params)

    def content(self, root):
        """Options and values of the fully expanded section; ModelError if it cannot be expanded."""
        data = {}
        n = 0
        for e in self.events(root):
            n += 1
            if n > self.MAX:
                raise ModelError(None, "too big")
            if e[0] in ("missing", "bad"):
                raise ModelError(Exception, e)
            if e[0] == "gen":
                data[e[2]] = e[3]
        return data

    def fails(self, root):
        try:
            self.content(root)
            return False
        except ModelError:
            return True
