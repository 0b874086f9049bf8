"""The module command: every outcome of the external command, over histories of commands."""
import importlib.util
import os
import shlex
import sys
import types

from .. import access as A
from .. import target
from ..base import Check
from ..procs import Modules, SimPopen
from ..world import Violation, Inadmissible

ENVV = ["MA", "MB", "MC", "LOADEDMODULES"]
COMMANDS = [["load", "gcc/1.0"], ["load", "gcc/1.0 boost/2"], ["load", "gcc", "boost"], ["unload", "gcc"], ["swap", "gcc", "gcc/2"],
            ["purge"], ["purge", ""], ["use", "/some/dir"], [["load"], "x"], [["swap", "a"], "b"], ["load", "a b", "c d"],
            ["swap", "gcc/1.0 gcc/2"], ["swap", "gcc/2"], ["unload", "a/1 b/2  c"], ["load", "-f", "x/1"]]
KINDS = ["ok", "ok", "ok", "ok", "rc", "rc", "sig", "err", "err", "mlfalse", "mltrue", "raise", "syntax", "exit", "kbd", "spawn",
         "badutf8", "badutf8err", "warn"]


def changes(rng):
    """Python text as modulecmd prints it, and what it does to the environment: [[op, var, value]]"""
    ops = []
    for _ in range(rng.randrange(0, 4)):
        v = rng.choice(ENVV)
        ops.append(rng.choice([["set", v, rng.choice(["x", "a b", "q'uote", "ünï", ""])], ["add", v, "+1"], ["del", v, ""]]))
    return ops


def text_of(ops):
    out = ["import os"]
    for o, v, x in ops:
        if o == "set":
            out.append(f"os.environ[{v!r}] = {x!r}")
        elif o == "add":
            out.append(f"os.environ[{v!r}] = os.environ.get({v!r}, '') + {x!r}")
        else:
            out.append(f"os.environ.pop({v!r}, None)")
    return out


def gen_outcome(rng, kinds=KINDS):
    k = rng.choice(kinds)
    ops = changes(rng)
    lines = text_of(ops)
    o = {"kind": k, "ops": ops, "rc": 0, "err": rng.choice(["", "", "note: something\n"])}
    if k == "rc":
        o["rc"] = rng.choice([1, 2, 127, 255])
    elif k == "sig":
        o["rc"] = rng.choice([-9, -15, -11])
    elif k == "err":
        o["rc"] = rng.choice([0, 0, 1, -9])
        o["err"] = rng.choice(["ERROR: not found\n", "some text\nModule ERROR: 105\n", "x" * 200 + "ERROR:",
                               "ERROR: early\n" + "more text\n" * rng.choice([1, 4, 12, 400]),
                               "text\n" * rng.choice([3, 30]) + "ERROR: in the middle\n" + "text\n" * 30])
    elif k == "mlfalse":
        lines.append("_mlstatus = False")
    elif k == "mltrue":
        lines.append("_mlstatus = True")
    elif k == "raise":
        lines.insert(rng.randrange(1, len(lines) + 1), rng.choice(["raise RuntimeError('x')", "undefined_name", "1/0", "import nosuchmod_"]))
    elif k == "syntax":
        lines.insert(rng.randrange(0, len(lines) + 1), "this is not python")
    elif k == "exit":
        lines.insert(rng.randrange(1, len(lines) + 1), rng.choice(["raise SystemExit(0)", "import sys; sys.exit(1)"]))
    elif k == "kbd":
        lines.insert(rng.randrange(1, len(lines) + 1), "raise KeyboardInterrupt()")
    elif k == "spawn":
        o["spawn"] = rng.choice(["ENOENT", "EACCES", "ENOMEM", "EAGAIN", "ENOEXEC", "EMFILE"])
    elif k == "warn":
        o["err"] = rng.choice(["Error: lower case is only a note\n", "WARNING: x\n", "ERRORS none\n"])
    o["out"] = "\n".join(lines) + "\n"
    if k == "badutf8":
        o["out"] += "\udcff"
    elif k == "badutf8err":
        o["err"] += "ERROR: \udcff"
    if rng.random() < 0.3:
        o["lag"] = rng.randrange(1, 4)
    if rng.random() < 0.3:
        o["dur"] = rng.choice([2, 40, 10000])
    return o


def shell_status(cmd, loaded, there):
    """Status of a command a shell runs to look at the modules; None if it is none of those known here."""
    if set(cmd) & set("<>$`(){}*?\\"):
        return None
    try:
        lex = shlex.shlex(cmd, posix=True, punctuation_chars="&|;")
        lex.commenters = ""
        lex.whitespace_split = True
        toks = list(lex)
    except ValueError:
        return None
    status, run, cur, parts = 0, True, [], []
    for t in toks + [";"]:
        if t in ("&&", "||", ";"):
            parts.append((cur, t))
            cur = []
        else:
            cur.append(t)
    for words, sep in parts:
        if not words:
            return None
        if run:
            neg = words[0] == "!"
            w = words[1:] if neg else words
            if w[:2] == ["module", "is-loaded"]:
                s = 0 if w[2:] and all(x in loaded for x in w[2:]) else 1
            elif w == ["true"] or w == ["false"]:
                s = 0 if w == ["true"] else 1
            elif len(w) == 4 and w[:2] == ["[", "-e"] and w[3] == "]" or len(w) == 3 and w[:2] == ["test", "-e"]:
                s = 0 if w[2] in there else 1
            else:
                return None
            status = (0 if s else 1) if neg else s
        run = sep == ";" or (sep == "&&") == (status == 0)
    return status


def effect(want, loaded, there):
    """True / False: the module command certainly did / did not do what was asked; None if that is open."""
    verb, names = want[0], [x for a in want[1:] for x in a.split()]
    if verb == "load":
        return True if all(x in loaded for x in names) else False if names[0] not in loaded else None
    if verb == "unload":
        return names[0] not in loaded
    if verb == "swap":
        return names[0] not in loaded and names[1] in loaded
    if verb == "use":
        return names[0] in there
    return None


def model(env, ops):
    env = dict(env)
    for o, v, x in ops:
        if o == "set":
            env[v] = x
        elif o == "add":
            env[v] = env.get(v, "") + x
        else:
            env.pop(v, None)
    return env


class C16(Check):
    id = "C16"
    quick_n = 16000
    thorough_n = 600000
    rule = "history in which a module command failed in an injected way"
    real = ["setenvironment.ModuleHelper (modulecmd and lmod variants)"]
    stub = ["modulecmd / lmod / shell processes", "stdout/stderr", "process environment"]

    def gen(self, rng, tier):
        if rng.random() < 0.3:
            return self.gen_lmod(rng, tier)
        exe = rng.choice(["path", "path", "path", "path", "func", "funcbad", "none", "functwice"])
        calls = []
        for _ in range(rng.randrange(1, 5 if tier == "quick" else 9)):
            calls.append({"cmd": rng.choice(COMMANDS), "res": gen_outcome(rng)})
            if rng.random() < 0.12:
                calls[-1]["fault"] = rng.choice([{"op": "communicate", "act": rng.choice(["EIO", "kbd", "mem"])},
                                                 {"op": "stdout", "act": "EPIPE", "nth": rng.choice([0, 2])},
                                                 {"op": "spawn", "act": rng.choice(["EAGAIN", "ENOMEM", "kbd"])}])
        return {"mode": "modulecmd", "exe": exe, "calls": calls, "env": {v: "0" for v in rng.sample(ENVV, rng.randrange(0, 4))}}

    def gen_lmod(self, rng, tier):
        calls = []
        for _ in range(rng.randrange(1, 5)):
            calls.append({"cmd": rng.choice(COMMANDS[:4] + COMMANDS[4:5] + [["purge"], ["use", "/d"], [["load", "x"]], [["swap", "a"], "b"]]),
                          "ops": changes(rng),
                          "kind": rng.choice(["ok", "ok", "ok", "stderr", "name", "raise", "exit", "kbd", "note"]),
                          "say": rng.random() < 0.5,
                          "mods": rng.choice([None, [n for n in ["gcc", "gcc/1.0", "gcc/2", "boost", "boost/2", "x", "a", "b", "/d"]
                                                     if rng.random() < 0.6]]),
                          "status": [rng.choice([0, 0, 0, 256, 2, -1]), rng.choice([0, 0, 0, 256])]})
        return {"mode": "lmod", "calls": calls, "cmd_env": rng.choice(["/x/lmod"] * 5 + ["", None]),
                "env": {v: "0" for v in rng.sample(ENVV, rng.randrange(0, 4))}}

    def environ(self, case, w):
        env = dict(case["env"])
        env["PATH"] = w.path("bin")
        env["HOME"] = w.path("home")
        if case["mode"] == "lmod" and case["cmd_env"] is not None:
            env["LMOD_CMD"] = case["cmd_env"]
        return env

    def run(self, case, w):
        with w:
            os.makedirs(w.path("bin"), exist_ok=True)
            os.makedirs(w.path("other"), exist_ok=True)
        if case["mode"] == "lmod":
            return self.run_lmod(case, w)
        mh = target.where(__import__("setenvironment.ModuleHelper", fromlist=["module"]))
        exe = case["exe"]
        path = None
        typ = None
        if exe == "path":
            path = w.path("bin/modulecmd")
        elif exe != "none":
            path = w.path("other/modulecmd")
            typ = "module is a function\nmodule ()\n{\n    eval `%s bash $*`\n}\n" % path
            if exe == "functwice":
                typ += typ
        if path and exe != "funcbad":
            w.put(os.path.relpath(path, w.root), "#!/bin/false\n")
            with w:
                os.chmod(path, 0o755)
        found = exe in ("path", "func")
        for c in case["calls"]:
            if not c["cmd"]:
                raise Inadmissible()
            res = c["res"]
            w.procs = m = Modules(w, [res], typ)
            w.heal()
            if c.get("fault"):
                w.arm(c["fault"])
            before = dict(os.environ)
            w.note("module", c["cmd"], res["kind"])
            out = w.call(mh.module, *c["cmd"])
            w.heal_count = w.fault_count()
            hit = w.fault_count() > 0
            w.heal()
            printed = w.take_output()
            after = dict(os.environ)
            w.note("outcome", out.ok, out.value if out.ok else type(out.exc).__name__)
            if out.ok and not isinstance(out.value, int):
                raise Violation("status", f"{c['cmd']} returned {out.value!r}")
            good = out.ok and out.value == 0
            cmd, args = c["cmd"][0], c["cmd"][1:]
            want = [path, "python"] + (list(cmd) if isinstance(cmd, list) else [cmd])
            want += args[0].split() if len(args) == 1 else list(args)
            if m.log and (m.log != [want]):
                raise Violation("command", f"module{tuple(c['cmd'])} ran {m.log}, expected {[want]}")
            k = res["kind"]
            ran = bool(m.log)
            if good and not ran:
                raise Violation("failure-hidden", f"{c['cmd']} reported success, but modulecmd ({exe}) was not run")
            if hit:
                if good and after != model(before, res["ops"]):
                    raise Violation("effect", f"{c['cmd']} reported success; environment {self.delta(before, after)}")
                if k in ("rc", "sig", "err", "spawn", "badutf8err") and after != before:
                    raise Violation("failed-output-executed", f"{c['cmd']} ({k}) changed {self.delta(before, after)}")
                continue
            if not found:
                if good:
                    raise Violation("failure-hidden", f"{c['cmd']} reported success without a modulecmd executable ({exe})")
                if after != before:
                    raise Violation("failed-output-executed", f"{c['cmd']} without executable changed {self.delta(before, after)}")
                continue
            if k in ("ok", "mltrue", "warn"):
                if not good:
                    raise Violation("success-reported-as-failure", f"{c['cmd']} succeeded but gave {out!r}")
                if after != model(before, res["ops"]):
                    raise Violation("effect", f"{c['cmd']} printed {res['out']!r}; environment changed by "
                                    f"{self.delta(before, after)}, expected {self.delta(before, model(before, res['ops']))}")
                w.probe("success")
                continue
            w.probe("failed_command")
            if good:
                raise Violation("failure-hidden", f"{c['cmd']} with outcome {k} (rc {res['rc']}, stderr {res['err'][:60]!r}) "
                                "reported success")
            if k in ("rc", "sig", "err", "spawn", "badutf8err") and after != before:
                raise Violation("failed-output-executed", f"{c['cmd']} ({k}) changed {self.delta(before, after)}")

    @staticmethod
    def delta(a, b):
        return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}

    def run_lmod(self, case, w):
        calls = []
        st = {}

        def module(*args):
            calls.append(list(args))
            w.steps += 1
            c = st["call"]
            w.note("lmod", list(args), c["kind"])
            for k, v in model(dict(os.environ), c["ops"]).items():
                os.environ[k] = v
            if c.get("say"):
                print("Loading requirements")
            if c["kind"] == "stderr":
                w.count("fault.lmod.stderr")
                print("Lmod has detected the following error: x", file=sys.stderr)
            elif c["kind"] == "note":
                print("a note", file=sys.stderr)
            elif c["kind"] != "ok":
                w.count("fault.lmod." + c["kind"])
                raise {"name": NameError, "raise": RuntimeError, "exit": SystemExit, "kbd": KeyboardInterrupt}[c["kind"]]("x")

        stub = types.ModuleType("env_modules_python")
        stub.module = module
        saved = sys.modules.get("env_modules_python")
        sys.modules["env_modules_python"] = stub
        try:
            p = os.path.join(target.REPO, "wip/setenvironment/src/setenvironment/ModuleHelper.py")
            if "code" not in C16.__dict__:
                with open(p) as f:
                    C16.code = compile(f.read(), p, "exec")
            mh = types.ModuleType("mh_lmod")
            mh.__file__ = p
            exec(C16.code, mh.__dict__)
        finally:
            if saved is None:
                del sys.modules["env_modules_python"]
            else:
                sys.modules["env_modules_python"] = saved
        w.take_output()
        for c in case["calls"]:
            if not c["cmd"] or not c["cmd"][0]:
                raise Inadmissible()
            if not c["status"]:
                raise Inadmissible()
            st["call"] = c
            st["known"] = c.get("mods") is not None
            calls.clear()
            asked = []

            def system(w, cmd):
                s = None
                if c.get("mods") is not None:
                    s = shell_status(cmd if isinstance(cmd, str) else " ".join(cmd), c["mods"], c["mods"])
                    s = s and s << 8
                    w.probe("looked" if s is not None else "look_unknown")
                    st["known"] = st["known"] and s is not None
                if s is None:
                    s = c["status"][min(len(asked), len(c["status"]) - 1)]
                asked.append((cmd, s))
                w.note("system", s)
                if s:
                    w.count("fault.system.status")
                return s

            def shell(w, cmd, a, kw):
                s = system(w, cmd)
                return SimPopen(w, cmd, {"rc": s >> 8 if s > 255 else -s if s > 0 else s}, kw)

            w.system_model = system
            w.procs = shell
            out = w.call(mh.module, *c["cmd"])
            w.take_output()
            w.note("outcome", out.ok, out.value if out.ok else type(out.exc).__name__)
            good = out.ok and out.value == 0
            cmd, args = c["cmd"][0], c["cmd"][1:]
            want = (list(cmd) if isinstance(cmd, list) else [cmd]) + list(args)
            if not case["cmd_env"]:
                if good:
                    raise Violation("failure-hidden", f"{c['cmd']} reported success without LMOD")
                continue
            if calls != [want]:
                raise Violation("command", f"module{tuple(c['cmd'])} ran {calls}, expected {[want]}")
            bad = c["kind"] not in ("ok", "note") or any(s for _, s in asked)
            verb = want[0]
            need = {"load": 1, "unload": 1, "swap": 2, "use": 1}.get(verb, 0)
            if bad and good:
                raise Violation("failure-hidden", f"lmod {want} ({c['kind']}, checks {asked}) reported success")
            if good and len(asked) < need:
                raise Violation("unchecked", f"lmod {want} reported success without checking its effect: {asked}")
            if st["known"] and c["kind"] in ("ok", "note"):
                e = effect(want, c["mods"], c["mods"])
                if e is False and good:
                    raise Violation("failure-hidden", f"lmod {want} reported success though afterwards only {c['mods']} are there (checks {asked})")
                if e is True and not good:
                    raise Violation("success-reported-as-failure", f"lmod {want} did what was asked ({c['mods']} are there) but gave {out!r} (checks {asked})")
            if not bad and not good:
                raise Violation("success-reported-as-failure", f"lmod {want} succeeded but gave {out!r}")
            w.probe("success" if good else "failed_command")


CHECK = C16()
