"""
Reference model of environment sections: the actions that a section means, and what each does
to an environment.  Written from the documentation of SetEnvironment; shared by C13, C14, C15
and C19.
"""
import os
import re

from . import inigen
from . import model as M

ENVVAR_OPS = ["append", "assert_not_empty", "find_in_path", "prepend", "remove", "remove_path_entry", "remove_substr",
              "set", "set_if_empty", "unset"]
MODULE_OPS = ["load", "purge", "remove", "swap", "unload", "use"]
HANDLED = {"envvar_" + o for o in ENVVAR_OPS} | {"module_" + o for o in MODULE_OPS}


class Fail(Exception):
    """The action fails (an exception reaches the caller)."""


def actions(cp, section):
    """The recorded actions of a section, or M.ModelError if it cannot be expanded.

    [("envvar", op, name, value) | ("module", op, name, value)]
    """
    out = []
    for e in M.Walk(cp, HANDLED).events(section):
        if e[0] in ("missing", "bad"):
            raise M.ModelError(Exception, e)
        if e[0] != "op":
            continue
        _, _, op, params, _, value = e
        kind, op = op.split("_", 1)
        name = params[0] if params else None
        if kind == "envvar" or op == "remove":
            if name is None:
                raise M.ModelError(Exception, "no name")
        if op == "remove":
            if kind == "envvar":
                out = [a for a in out if a[0] != "envvar" or a[2] != name]
            else:
                out = [a for a in out if a[0] != "module" or (a[2] != name and (a[3] is None or name not in a[3]))]
            continue
        if kind == "envvar" and op == "assert_not_empty" and value is None:
            value = ""
        out.append((kind, op, name, value))
    return out


_VAR = re.compile(r"\$(\w+|\{[^}]*\})", re.ASCII)


def expand(text, env):
    """$NAME and ${NAME} of set variables; everything else as it is."""
    if text is None or "$" not in text:
        return text

    def sub(m):
        n = m.group(1)
        if n.startswith("{"):
            n = n[1:-1]
        return env[n] if n in env else m.group(0)

    return _VAR.sub(sub, text)


def which(name, env, tools):
    """tools: absolute paths of the executable files that exist."""
    if not name:
        return None
    if os.path.dirname(name):
        return name if name in tools else None
    p = env.get("PATH", "/bin:/usr/bin")
    if not p:
        return None
    for d in p.split(":"):
        c = os.path.join(d, name)
        if c in tools:
            return c
    return None


def envvar(env, op, name, value, tools):
    """The environment after one envvar action; Fail if it fails."""
    if op != "unset" and value is None:
        raise Fail("no value")
    env = dict(env)
    value = expand(value, env)

    def put(v):
        if name == "" or "=" in name or "\0" in name or "\0" in v:
            raise Fail("not a variable")
        env[name] = v

    old = env.get(name)
    if op == "set":
        put(value)
    elif op == "set_if_empty":
        if not old:
            put(value)
    elif op == "append":
        put(value if old is None else old + ":" + value)
    elif op == "prepend":
        put(value if old is None else value + ":" + old)
    elif op == "unset":
        env.pop(name, None)
    elif op == "remove_substr":
        if old is not None:
            put(old.replace(value, "") if value else old)
    elif op == "remove_path_entry":
        if old is not None:
            put(":".join(x for x in old.split(":") if x != value))
    elif op == "find_in_path":
        put(which(value, env, tools) or "")
    elif op == "assert_not_empty":
        if not old:
            raise Fail("assertion")
    else:
        raise Fail("unknown")
    return env


def module_command(op, name, value):
    """Arguments of the module command; Fail if the action has none."""
    if op == "purge":
        return ["purge"]
    if op == "use":
        if value is None:
            raise Fail("no path")
        return ["use"] + value.split()
    if name is None:
        raise Fail("no module")
    if op == "load":
        return ["load"] + (name if value in (None, "") else name + "/" + value).split()
    if op == "unload":
        return ["unload"] + name.split()
    if op == "swap":
        if value is None:
            raise Fail("no module")
        return ["swap", name, value]
    raise Fail("unknown")


def module_effect(env, ops):
    env = dict(env)
    for o, v, x in ops:
        if o == "set":
            env[v] = x
        elif o == "add":
            env[v] = env.get(v, "") + x
        else:
            env.pop(v, None)
    return env


# ---------------------------------------------------------------------- generation
VARS = ["VA", "VB", "VC", "VP", "VAX"]
VALS = ["a", "b", "/p/one", "/p/two", "a:b", "/p/one:/p/two", "x y", "$VA", "${VB}", "$VA/lib:$VC", "$VAX", "${VA}X", "${NOPE}", "", "ünï",
        "q'uo\"te", "back\\slash", "$", "aXbXa", "X", "-n", "*", "~", "a;b", "`x`", "#h", "${VA", "%%", "é:é", "1", "a  b", "$$x",
        "l1\nl2", "&", "(x)", "!", "{a,b}", "a=b", "\U0001f600", "/d/\U0001f600\u20ac/x"]
MODS = ["gcc", "boost", "dummy-gcc"]


def gen_option(rng, tag, names=VARS, vals=VALS, ops=None, mods=MODS, p_bad=0.03, p_module=0.2,
               bad_names=("''", "", "'V D'")):
    """(key, value)"""
    if rng.random() < p_module:
        op = rng.choice(MODULE_OPS + ["load", "load"])
        if op == "purge":
            return "module-purge", rng.choice([None, ""])
        if op == "use":
            return f"module-use {tag}" if rng.random() < 0.3 else "module-use", rng.choice(["/m/p", "/m/a b", "$VA/m"])
        m = rng.choice(mods)
        if op in ("load", "swap"):
            v = rng.choice(["1.0", "2", "1.0/x", "default", "0"]) if op == "load" else rng.choice(mods) + "/3"
            if op == "load" and rng.random() < 0.3:
                v = rng.choice(["", None])
        else:
            v = rng.choice(["", None])
        if rng.random() < p_bad:
            return f"module-{op}", v
        return f"module-{op} {m}" + (f" t{tag}" if rng.random() < 0.2 else ""), v
    op = rng.choice(ops or ["set", "set", "append", "prepend", "unset", "remove_substr", "remove_path_entry", "find_in_path",
                            "set_if_empty", "assert_not_empty", "remove", "append", "prepend"])
    n = rng.choice(names)
    if rng.random() < p_bad:
        n = rng.choice(bad_names)
    v = rng.choice(vals)
    if op == "unset" and n == "PATH":
        n = "VP"            # without a PATH the search would reach the real system
    if op in ("unset", "remove"):
        v = rng.choice([None, "", "$VA"])
    elif op == "find_in_path":
        v = rng.choice(["simtool1", "simtool2", "nosuchtool", "${VA}", "", "$VB/simtool1"])
    elif op in ("remove_path_entry",):
        v = rng.choice(["/p/one", "/p/two", "a", "b", "", "$VA", "x y", "/p"])
    elif op == "remove_substr":
        v = rng.choice(["a", "X", "/p", ":", "one", "", "$VA", "bXa", "x y", " "])
    elif op == "assert_not_empty":
        v = rng.choice([None, "", "a message", "$VA missing"])
    if rng.random() < p_bad:
        v = None
    o = op.replace("_", "-") if rng.random() < 0.7 else op
    return f"envvar-{o} {n}" + (f" t{tag}" if rng.random() < 0.6 else ""), v


def gen_file(rng, secs_, p_use=0.25, p_missing=0.04, p_default=0.25, max_opts=6, options=gen_option, p_plain=0.06, **kw):
    """Lines of an .ini file whose sections hold environment actions."""
    secs = list(secs_)
    if rng.random() < p_default:
        secs.insert(rng.randrange(len(secs) + 1), "DEFAULT")
    lines = []
    for i, s in enumerate(secs):
        lines.append(f"[{s}]")
        used = set()
        for t in range(rng.randrange(0, max_opts + 1)):
            if rng.random() < p_use:
                tgt = rng.choice(secs[i + 1:] or ["NOPE"]) if rng.random() > p_missing else "NOPE"
                if tgt == "NOPE" and rng.random() > p_missing:
                    continue
                key, val = inigen.use_key(rng, tgt), None
            elif rng.random() < p_plain:
                key, val = f"plain {t}", "x"
            else:
                key, val = options(rng, t, **kw)
            if key in used:
                continue
            used.add(key)
            lines += inigen.option_lines(key, val, rng.choice(":="))
    return lines
