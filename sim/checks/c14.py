"""Generated scripts against apply: real bash and Python execution of the generated text."""
import os
import re
import shutil
import subprocess

from .. import access as A
from .. import findings
from .. import model as M
from .. import setenv as S
from .. import target
from ..base import Check
from ..procs import Modules
from ..world import Violation, Inadmissible, REAL
from .c13 import delta, gen_outcomes, NAMES

IGNORE = {"_", "SHLVL", "PWD", "OLDPWD"}
BASH = shutil.which("bash", path="/usr/local/bin:/usr/bin:/bin")
ENVBIN = shutil.which("env", path="/usr/local/bin:/usr/bin:/bin")

# references are to identifiers; other uses of $ mean different things to a shell
VALS = ["a", "b", "/p/one", "/p/two", "a:b", "/p/one:/p/two", "x y", "$VA", "${VB}", "$VA/lib:$VC", "", "ünï",
        "q'uo\"te", "back\\slash", "$", "aXbXa", "X", "-n", "*", "~", "a;b", "`x`", "#h", "é:é", "1", "a  b", "l1\nl2",
        "&", "(x)", "!", "!x", "{a,b}", "a=b", "${NOPE}", "$NOPE/x", "a\\", "\\$VA", "\\\\", "x # y", "a\tb", "<a>", "|", "'", "a\"b",
        "$VA$VB", "pre$VA", "%%", "\\n", "?", "[ab]", "\\\"", "tick`VA`s", "ends$", "\U0001f600", "/d/\U0001f600\u20ac/x"]
SIMPLE = re.compile(r"^[A-Za-z0-9/_:.,é-]*$")
PLAIN = re.compile(r"^[A-Za-z0-9/_:,é-]*$")
REF = re.compile(r"\$(?:([A-Za-z_]\w*)|\{([A-Za-z_]\w*)\})", re.ASCII)


def bash_expand(text, env):
    """A double quoted bash word of the domain above: unset references vanish."""
    out = []
    i = 0
    for m in REF.finditer(text):
        out.append(text[i:m.start()])
        out.append(env.get(m.group(1) or m.group(2), ""))
        i = m.end()
    out.append(text[i:])
    return "".join(out)


class Outside(Exception):
    """Input on which the recorded findings make the bash result unpredictable."""


def bash_step(env, op, name, value, tools, known):
    """What the functions of the generated bash header are known to do wrong, exactly.
    Returns [(environment, aborted, finding or None)]."""
    used = None
    if op != "unset":
        if value is None:
            raise S.Fail()
        v = bash_expand(value, env)
        if v != S.expand(value, env):
            used = "bash-unset-reference"
    else:
        v = ""
    old = env.get(name)
    new = dict(env)

    def res(e, ab, f=None):
        return [(e, ab, f or used)]

    if op in ("append", "prepend", "remove_substr", "remove_path_entry") and v == "":
        return res(new, True, "bash-empty-argument")
    if op == "remove_substr":
        if "#" in v:
            return res(new, False, "bash-remove-substr")
        if old is None:
            new[name] = ""
            return res(new, False, "bash-remove-substr")
        if not PLAIN.match(v) or not SIMPLE.match(old) or old.startswith("-"):
            raise Outside("bash-remove-substr-word")
    if op == "remove_path_entry":
        o = old or ""
        if not SIMPLE.match(o) or not PLAIN.match(v):
            raise Outside("bash-remove-substr-word")
        r = (":" + o + ":").replace(":" + v + ":", ":")
        if r.startswith(":1"):
            r = r[2:]
        new[name] = r
        return res(new, False, "bash-remove-path-entry")
    if op == "find_in_path" and (not SIMPLE.match(v) or v.startswith("-")):
        raise Outside("bash-find-in-path-word")
    try:
        new = S.envvar(env, op, name, v.replace("$", "\0"), tools)
    except S.Fail:
        if "\0" in v.replace("$", "\0") and op != "assert_not_empty":
            try:
                new = envvar_noexpand(env, op, name, v)
            except S.Fail:
                return res(dict(env), True)
            return res(new, False)
        return res(dict(env), True)
    return res(new, False)


def envvar_noexpand(env, op, name, v):
    old = env.get(name)
    env = dict(env)
    if op == "set" or op == "set_if_empty" and not old:
        env[name] = v
    elif op == "append":
        env[name] = v if old is None else old + ":" + v
    elif op == "prepend":
        env[name] = v if old is None else v + ":" + old
    elif op == "set_if_empty":
        pass
    else:
        raise Outside("bash-find-in-path-word")
    return env


def prelude(w, out, outcomes):
    """Shell text in front of the script: the module command and the recording of the end."""
    import shlex
    L = [f"trap '{ENVBIN} -0 > {out}.env' EXIT", "_sim_n=0", "module() {",
         f"  printf '%s\\0' \"$@\" >> {out}.mod; printf '\\n\\0' >> {out}.mod", "  _sim_n=$((_sim_n+1))", "  case $_sim_n in"]
    for i, o in enumerate(outcomes):
        L.append(f"  {i + 1})")
        for k, v, x in o["ops"]:
            if k == "set":
                L.append(f"    export {v}={shlex.quote(x)}")
            elif k == "add":
                L.append(f"    export {v}=\"${{{v}}}\"{shlex.quote(x)}")
            else:
                L.append(f"    unset {v}")
        L.append("    : ;;")
    L += ["  *) : ;;", "  esac", "  return 0", "}"]
    return "\n".join(L) + "\n"


class C14(Check):
    id = "C14"
    quick_n = 6000
    thorough_n = 150000
    rule = "distinct history in which a script ran after earlier queries, failures or applies"
    real = ["setenvironment.SetEnvironment, ModuleHelper", "configparserenhanced", "the generated scripts",
            "bash, sed, which, env (real processes, single threaded)"]
    stub = ["modulecmd processes (python) and the module function (bash)", "raw file system calls", "stdout/stderr"]

    def gen(self, rng, tier):
        pre = []
        for _ in range(rng.randrange(0, 4)):
            pre.append([rng.choice(["query", "parse", "apply", "script", "fault", "level", "bad", "other"]), rng.choice(NAMES),
                        rng.choice([0, 1, 3, 4])])
        env = {}
        for v in S.VARS:
            if rng.random() < 0.55:
                env[v] = rng.choice(["a", "a:b:a", "", "/p/one:/p/two:/p/one", "aXbXaXb", "x y", "simtool1", "1a:b", "*", "q\"'"])
        vals = VALS if rng.random() < 0.6 else ["a", "/p/one", "a:b", "$VA", "${VB}", "X", "x y"]
        ops = None
        if rng.random() < 0.4:
            ops = ["set", "append", "prepend", "unset", "set_if_empty", "find_in_path", "assert_not_empty", "remove"]
        n = rng.randrange(2, 5)
        return {"file": S.gen_file(rng, NAMES[:n], names=S.VARS, vals=vals, ops=ops, p_bad=0.01, bad_names=("",), p_missing=0.01),
                "pre": pre, "env": env, "section": rng.choice(NAMES[:n]), "outcomes": [dict(o, kind="ok", rc=0, err="") for o in gen_outcomes(rng, 4, 0)],
                "split": rng.random() < 0.2, "write": rng.random() < 0.5, "shebang": rng.random() < 0.7,
                "order": rng.choice(["apply", "script"])}

    def environ(self, case, w):
        env = dict(case["env"])
        env["PATH"] = w.path("bin") + ":" + w.path("other")
        env["HOME"] = w.path("home")
        env["KEEP"] = "untouched"
        return env

    def setup(self, w):
        tools = set()
        for t in ("bin/modulecmd", "bin/simtool1", "other/simtool2", "other/simtool1"):
            w.put(t, "#!/bin/false\n")
            with w:
                os.chmod(w.path(t), 0o755)
            tools.add(w.path(t))
        with w:
            for t in ("sed", "which"):
                REAL["os.symlink"](shutil.which(t, path="/usr/bin:/bin"), w.path("bin/" + t))
                tools.add(w.path("bin/" + t))
        return tools

    def run(self, case, w):
        senv = target.where(__import__("setenvironment.SetEnvironment", fromlist=["x"])).SetEnvironment
        tools = self.setup(w)
        text = "\n".join(case["file"]) + "\n"
        if re.search(r"^module.*\$", text, re.M) or "$(" in text:
            text = re.sub(r"(?m)^(module.*)\$VA", r"\1/x", text)
        w.put("env.ini", text)
        cp = M.try_load([text.encode()])
        if cp is None:
            raise Inadmissible()
        start = dict(os.environ)
        s = case["section"]
        p = senv(w.path("env.ini"))
        for k, s2, n in case["pre"]:
            w.procs = Modules(w, case["outcomes"])
            if k == "fault":
                w.arm({"op": "*", "path": "env.ini", "act": "EIO", "nth": 0, "span": 9})
                w.call(p.generate_actions_script, s2)
                w.heal()
            elif k == "level":
                p.exception_control_level = n
            elif k == "bad":
                w.call(p.generate_actions_script, s2, interp="perl")
            elif k == "query":
                w.call(lambda: p.configparserenhanceddata[s2])
            elif k == "parse":
                w.call(p.parse_section, s2)
            elif k == "apply":
                w.call(p.apply, s2)
            elif k == "other":
                w.call(senv(w.path("env.ini")).apply, s2)
            else:
                w.call(p.generate_actions_script, s2, interp="python")
            w.take_output()
            self.reset(start)
            w.count("fault.history." + k)
        scripts = {}

        def generate():
            for interp in ("bash", "python"):
                scripts[interp] = self.generate(case, w, p, s, interp)
                if dict(os.environ) != start:
                    raise Violation("generation-changed", f"generating a script changed {delta(start, dict(os.environ))}")

        if case["order"] == "script":
            generate()
        # what apply does
        w.procs = m = Modules(w, case["outcomes"])
        out = w.call(p.apply, s)
        w.take_output()
        ref = {"env": dict(os.environ), "ok": out.ok and out.value == 0, "mods": [c[2:] for c in m.log]}
        w.note("apply", ref["ok"], sorted(delta(start, ref["env"])))
        self.reset(start)
        if case["order"] != "script":
            generate()
        for interp in ("python", "bash"):
            g = scripts[interp]
            if not g.ok:
                if ref["ok"]:
                    raise Violation("not-generated", f"{interp} script of [{s}]: {g!r}, but apply succeeded")
                w.probe("not-generated")
                continue
            got = self.run_python(w, g.value, case) if interp == "python" else self.run_bash(w, g.value, case, start)
            self.reset(start)
            w.note(interp, got["ok"], sorted(delta(start, got["env"])), got["mods"])
            if got["ok"] == ref["ok"] and got["env"] == ref["env"] and got["mods"] == ref["mods"]:
                w.probe(interp + (".same" if ref["ok"] else ".same_failure"))
                continue
            if interp == "bash" and self.known(cp, s, start, case, tools, got, w):
                continue
            raise Violation("script-differs", f"[{s}]: the {interp} script {'succeeded' if got['ok'] else 'failed'} with changes "
                            f"{delta(start, got['env'])} and module commands {got['mods']} {got.get('why', '')}; apply "
                            f"{'succeeded' if ref['ok'] else 'failed'} ({out.exc!r}) with changes {delta(start, ref['env'])} and "
                            f"module commands {ref['mods']}".replace(w.root, "@"))

    @staticmethod
    def reset(env):
        os.environ.clear()
        os.environ.update(env)

    def generate(self, case, w, p, s, interp):
        """The script as a list of parts to be run one after the other."""
        def one(hdr, body, name):
            if case["write"]:
                f = w.path(name)
                r = p.write_actions_to_file(f, s, include_header=hdr, include_body=body, include_shebang=case["shebang"],
                                            interpreter=interp)
                if r != 0:
                    raise RuntimeError("write_actions_to_file returned %r" % (r,))
                return w.get(name).decode()
            return p.generate_actions_script(s, incl_hdr=hdr, incl_body=body, incl_shebang=case["shebang"], interp=interp)

        def all_():
            if case["split"]:
                return [one(True, False, "hdr." + interp), one(False, True, "body." + interp)]
            return [one(True, True, "all." + interp)]

        o = w.call(all_)
        w.take_output()
        w.note("generate", interp, o.ok)
        return o

    def run_python(self, w, parts, case):
        w.procs = m = Modules(w, case["outcomes"])
        ns = {"__name__": "__main__"}

        def go():
            for t in parts:
                exec(compile(t, "script.py", "exec"), ns)

        o = w.call(go)
        w.take_output()
        return {"ok": o.ok, "env": dict(os.environ), "mods": [c[2:] for c in m.log], "why": "" if o.ok else repr(o.exc)}

    def run_bash(self, w, parts, case, start):
        out = w.path("end")
        text = prelude(w, out, case["outcomes"])
        for i, t in enumerate(parts):
            w.put(f"part{i}.sh", t)
            text += f". {w.path('part%d.sh' % i)}\n"
        text += f": > {out}.ok\n"
        w.put("run.sh", text)
        with w:
            pr = REAL["Popen"]([BASH, "--norc", "--noprofile", w.path("run.sh")], env=dict(start), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=w.root)
            so, _ = pr.communicate(timeout=60)
        w.steps += 1
        e = w.get("end.env")
        if e is None:
            return {"ok": False, "env": {}, "mods": [], "why": so.decode("utf-8", "replace")[-300:]}
        env = {}
        for kv in e.decode("utf-8", "surrogateescape").split("\0"):
            if kv:
                k, _, v = kv.partition("=")
                if k not in IGNORE or k in start:
                    env[k] = v
        mods = []
        cur = []
        for a in (w.get("end.mod") or b"").decode().split("\0")[:-1]:
            if a == "\n":
                mods.append(cur)
                cur = []
            else:
                cur.append(a)
        ok = w.get("end.ok") is not None
        return {"ok": ok, "env": env, "mods": mods, "why": so.decode("utf-8", "replace")[-300:].replace(w.root, "@")}

    def known(self, cp, s, start, case, tools, got, w):
        """Is the difference exactly one of the listed findings?"""
        listed = findings.listed("C14")
        try:
            acts = S.actions(cp, s)
        except M.ModelError:
            return False
        states = [(dict(start), None, [], frozenset())]
        try:
            for kind, op, name, value in acts:
                nxt = []
                for env, ab, mods, used in states:
                    if ab:
                        nxt.append((env, ab, mods, used))
                        continue
                    if kind == "module":
                        cmd = S.module_command(op, name, value)
                        o = case["outcomes"][len(mods)] if len(mods) < len(case["outcomes"]) else {"ops": []}
                        nxt.append((S.module_effect(env, o["ops"]), None, mods + [cmd], used))
                        continue
                    try:
                        nxt.append((S.envvar(env, op, name, value, tools), None, mods, used))
                    except S.Fail:
                        nxt.append((env, True, mods, used))
                    for e2, ab2, f in bash_step(env, op, name, value, tools, listed):
                        nxt.append((e2, ab2 or None, mods, used | ({f} if f else set())))
                states = []
                for x in nxt:
                    if x not in states:
                        states.append(x)
                states = states[:256]
        except Outside as ex:
            w.probe("outside." + ex.args[0])
            return ex.args[0] in listed
        except S.Fail:
            return False
        for env, ab, mods, used in states:
            if used and used <= listed and got["ok"] == (not ab) and got["env"] == env and got["mods"] == mods:
                for f in used:
                    w.probe("known." + f)
                return True
        return False

    # ------------------------------------------------------------------ recorded findings
    DEMOS = {
        "bash-empty-argument": ({"VA": "a"}, ["envvar-append VA :"]),
        "bash-remove-path-entry": ({"VA": "/a:/b"}, ["envvar-remove-path-entry VA : /b"]),
        "bash-remove-substr": ({}, ["envvar-remove-substr VA : x"]),
        "bash-remove-substr-word": ({"VA": "a b"}, ["envvar-remove-substr VA : x"]),
        "bash-find-in-path-word": ({}, ["envvar-find-in-path VA : simtool1 simtool2"]),
        "bash-unset-reference": ({}, ["envvar-set VA : ${NOPE}/x"]),
        "bash-function-locals": ({}, ["envvar-set op : x"]),
    }

    def known_findings(self):
        from ..runner import execute, Scratch
        from ..world import World
        out = []
        for fid, text in findings.entries("C14"):
            if fid not in self.DEMOS:
                continue
            env, lines = self.DEMOS[fid]
            case = {"file": ["[S]"] + lines, "pre": [], "env": env, "section": "S", "outcomes": [], "split": False, "write": False,
                    "shebang": True, "order": "apply"}
            with Scratch() as root, findings.ignored():
                v, _ = execute(self, case, root)
            if v is not None:
                out.append(f"KNOWN-FINDING: property=C14 {fid}: {text}")
        return out


CHECK = C14()
