"""What an exported text must contain."""
from . import access as A
from . import model as M


def content_of_text(text, delims):
    """{section: {key: value}} as a parser without handlers would serve the text; None if it does not load."""
    cp = M.try_load([text.encode("utf-8")], delims)
    if cp is None:
        return None
    out = {}
    for s in cp.sections():
        d = {}
        for k, v in M.options_of(cp, s):
            if isinstance(v, Exception):
                return None
            k, v = M.clean(k, v)
            d[k] = "" if v is None else v
        out[s] = d
    return out


def export_same(op, mw, out, delims):
    """Does an export outcome agree with the model mw? op = [export|write, section, space, base]"""
    sec = op[1]
    names = mw.names() if sec is None else [sec]
    contents = {s: mw.content(s) for s in names}
    if any(c is A.FAIL for c in contents.values()):
        return not out.ok
    if not out.ok:
        return False
    want = {s: {k: ("" if v is None else v) for k, v in c.items()} for s, c in contents.items()}
    return content_of_text(out.value, delims) == want
