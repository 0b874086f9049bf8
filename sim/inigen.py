"""Generators of .ini files (as lists of lines) and related pieces."""

NAMES = ["A", "B", "C", "D", "E", "SEC F", "G-1", "h_2"]
KEYS = ["k1", "k2", "k3", "key four", "k-5", "k.6", "op1", "op-two", "K1", "'q 1' x", "p/7", "k8 extra", "-x", "é9"]
VALUES = ["v1", "v 2", "", None, '"quoted"', "a=b", "x:y", "100%%", "v3 # not a comment", "ünï", "l1\nl2", "a\n\nb",
          "$HOME", "1.0", '"  pad "', "; semi", "'single'", "%(k1)s", '"half', '""twice""', '"', 'in"ner', '" x', 'y "', '"\tpad\t"',
          "%%" * 12, '"\u00a0nb"', "a\u2028b", "x" * 300]


def header(name):
    return f"[{name}]"


def option_lines(key, value, delim=":", space=True):
    sp = " " if space else ""
    if value is None:
        return [key]
    lines = value.split("\n")
    out = [f"{key}{sp}{delim}{sp}{lines[0]}".rstrip()]
    for l in lines[1:]:
        out.append(("    " + l) if l else "")
    return out


def use_key(rng, target):
    if " " in target:
        return f"use '{target}'" if rng.random() < 0.5 else f'use "{target}"'
    return rng.choice([f"use {target}", f"use '{target}'", f"use {target}"])


def sections_text(rng, names, ops, delims=("=", ":"), p_use=0.5, p_missing=0.0, p_cycle=0.15, p_bad=0.0,
                  values=None, keys=None, max_opts=5, default="DEFAULT", p_default=0.35, allow_interp=False,
                  targets=None):
    """Lines of one .ini file. `ops` are operation names that may have handlers."""
    values = values or [v for v in VALUES if allow_interp or v is None or "%(" not in v]
    keys = list(keys or KEYS)
    delims = list(delims)
    secs = list(names)
    if rng.random() < p_default:
        secs.insert(rng.randrange(len(secs) + 1), default)
    lines = []
    n = len(secs)
    tgt = list(targets or secs)
    for si, s in enumerate(secs):
        lines.append(header(s))
        used = set()
        for _ in range(rng.randrange(max_opts + 1)):
            r = rng.random()
            d = rng.choice(delims)
            if r < p_use * 0.6:
                q = rng.random()
                if q < p_missing:
                    t = rng.choice(["NOPE", "missing one"])
                elif q < p_missing + p_cycle or si == n - 1:
                    t = rng.choice(tgt)
                else:
                    t = rng.choice(secs[si + 1:])
                key, val = use_key(rng, t), rng.choice([None, "", "x"])
            elif ops and r < p_use * 0.6 + 0.25:
                o = rng.choice(ops)
                key = rng.choice([o, o + " p1", o + " p1 'p 2'", o.replace("_", "-") + " z"])
                val = rng.choice(values)
            elif rng.random() < p_bad:
                key = rng.choice(["it's", "use", 'bad "quote'])
                val = rng.choice(values)
            else:
                key = rng.choice(keys)
                val = rng.choice(values)
            if any(x in key for x in delims) or key in used:
                continue
            used.add(key)
            if rng.random() < 0.08:
                lines.append(rng.choice(["# comment", "; other", "", "   # indented comment"]))
            lines += option_lines(key, val, d, rng.random() < 0.8)
        if rng.random() < 0.5:
            lines.append("")
    return lines


def text(lines):
    return "\n".join(lines) + ("\n" if lines else "")
