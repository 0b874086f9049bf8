"""Applying environment sections: histories of applies with failing module commands and system calls."""
import os

from .. import access as A
from .. import model as M
from .. import setenv as S
from .. import target
from ..base import Check
from ..procs import Modules
from ..world import Violation, Inadmissible, SimCrash
from .c16 import gen_outcome

NAMES = ["SA", "SB", "SC", "SD"]
REAL_PUTENV, REAL_UNSETENV = os.putenv, os.unsetenv


def delta(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)}


def gen_outcomes(rng, n, p_fail=0.3):
    out = []
    for _ in range(n):
        o = gen_outcome(rng, ["rc", "sig", "err", "spawn", "raise0"] if rng.random() < p_fail else ["ok", "ok", "mltrue", "warn"])
        vs = {"MA": "VA", "MB": "MB", "MC": "VC", "LOADEDMODULES": "LOADEDMODULES"}
        for x in o["ops"]:
            new = vs[x[1]]
            o["out"] = o["out"].replace(repr(x[1]), repr(new))
            x[1] = new
        if o["kind"] == "raise0":
            o["out"] = "raise RuntimeError('x')\n" + o["out"]
        out.append(o)
    return out


class C13(Check):
    id = "C13"
    quick_n = 16000
    thorough_n = 500000
    rule = "history with a failed module command, a failed or interrupted environment change, or several applies"
    real = ["setenvironment.SetEnvironment, ModuleHelper", "configparserenhanced"]
    stub = ["modulecmd processes", "putenv/unsetenv (may fail)", "raw file system calls", "stdout/stderr"]

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.randrange(1, 4 if tier == "quick" else 7)):
            r = rng.random()
            if r < 0.2:
                ops.append(["level", rng.choice([0, 1, 1, 2, 3, 4])])
            elif r < 0.35:
                ops.append(["env", rng.choice(S.VARS), rng.choice(["a:b:a", "", "/p/one:/p/two:/p/one", "X", "aXbXaXb", None, "x y:a", " ", ":a:"])])
            elif r < 0.55:
                ops.append([rng.choice(["query", "print", "script", "parse", "parse"]), rng.choice(NAMES)])
            ap = ["apply", rng.choice(NAMES), gen_outcomes(rng, rng.randrange(0, 4))]
            if rng.random() < 0.2:
                ap.append({"op": rng.choice(["putenv", "putenv", "putenv", "unsetenv"]), "path": rng.choice(S.VARS + ["*"]),
                           "act": rng.choice(["ENOMEM", "kbd", "mem"]), "nth": rng.choice([0, 0, 1, 2])})
            elif rng.random() < 0.05:
                ap.append({"op": "communicate", "act": rng.choice(["EIO", "kbd"])})
            ops.append(ap)
        env = {}
        for v in S.VARS:
            if rng.random() < 0.5:
                env[v] = rng.choice(["a", "a:b:a", "", "/p/one:/p/two:/p/one", "aXbXaXb", "x y", "simtool1", " ", ":", "a::b"])
        names = S.VARS + (["PATH"] if rng.random() < 0.3 else [])
        vals = S.VALS + (["@/bin", "@/other", "@/other:@/bin"] if "PATH" in names else [])
        return {"file": S.gen_file(rng, NAMES[:rng.randrange(2, 5)], names=names, vals=vals), "ops": ops, "env": env,
                "debug": rng.choice([0, 0, 0, 5])}

    def environ(self, case, w):
        env = dict(case["env"])
        env["PATH"] = w.path("bin") + ":" + w.path("other")
        env["HOME"] = w.path("home")
        env["KEEP"] = "untouched"
        return env

    def run(self, case, w):
        senv = target.where(__import__("setenvironment.SetEnvironment", fromlist=["x"])).SetEnvironment
        tools = set()
        for t in ("bin/modulecmd", "bin/simtool1", "other/simtool2", "other/simtool1"):
            w.put(t, "#!/bin/false\n")
            with w:
                os.chmod(w.path(t), 0o755)
            tools.add(w.path(t))
        text = "\n".join(case["file"]).replace("@", w.root) + "\n"
        w.put("env.ini", text)
        cp = M.try_load([text.encode()])
        if cp is None:
            raise Inadmissible()
        p = senv(w.path("env.ini"))
        p.debug_level = case["debug"]
        level = p.exception_control_level
        applies = 0

        def guard(op, real):
            def f(name, *a):
                if not w.bypass and w._installed:
                    w.cross(op, os.fsdecode(name))
                return real(name, *a)
            return f

        try:
            for op in case["ops"]:
                k = op[0]
                before = dict(os.environ)
                if k == "level":
                    level = p.exception_control_level = op[1]
                    continue
                if k == "env":
                    if op[2] is None:
                        os.environ.pop(op[1], None)
                    else:
                        os.environ[op[1]] = op[2]
                    continue
                if k != "apply":
                    f = {"query": lambda: p.configparserenhanceddata[op[1]], "print": lambda: p.pretty_print_actions(op[1]),
                         "script": lambda: p.generate_actions_script(op[1], interp="python"),
                         "parse": lambda: p.parse_section(op[1])}[k]
                    o = w.call(f)
                    w.take_output()
                    if dict(os.environ) != before:
                        raise Violation("not-applied-but-changed", f"{k} of [{op[1]}] changed {delta(before, dict(os.environ))}")
                    continue
                s = op[1]
                fault = op[3] if len(op) > 3 else None
                w.procs = m = Modules(w, op[2])
                w.heal()
                os.putenv, os.unsetenv = guard("putenv", REAL_PUTENV), guard("unsetenv", REAL_UNSETENV)
                if fault:
                    w.arm(fault)
                w.note("apply", s)
                out = w.call(p.apply, s)
                hit = w.fault_count() > 0
                w.heal()
                os.putenv, os.unsetenv = REAL_PUTENV, REAL_UNSETENV
                after = dict(os.environ)
                w.take_output()
                applies += 1
                if applies == 2:
                    w.count("fault.history.applied_again")
                got = "raise" if not out.ok else 0 if out.value == 0 else "nonzero"
                w.note("outcome", got)
                if out.ok and (not isinstance(out.value, int) or isinstance(out.value, bool)):
                    raise Violation("status", f"apply returned {out.value!r}")
                log = [c[2:] for c in m.log]
                for c in m.log:
                    if c[:2] != [S.which("modulecmd", {"PATH": os.path.dirname(c[0])}, tools), "python"]:
                        raise Violation("module-command", f"ran {c}")
                acc = self.acceptable(cp, s, before, level, op[2], tools, fault if hit else None)
                if not any(self.agrees(a, got, after, log) for a in acc):
                    e, r, l = acc[0][:3]
                    raise Violation("apply", f"apply [{s}] at level {level}{' with ' + str(fault) if hit else ''}: result "
                                    f"{got} {out.exc!r}, changes {delta(before, after)}, module commands {log}; expected result {r}, "
                                    f"changes {delta(before, e)}, module commands {l}".replace(w.root, "@"))
                w.probe("result." + str(got))
        finally:
            os.putenv, os.unsetenv = REAL_PUTENV, REAL_UNSETENV

    @staticmethod
    def agrees(a, got, after, log):
        env, res, cmds = a
        return got == res and after == env and log == cmds

    def acceptable(self, cp, s, env, level, outcomes, tools, fault):
        """[(environment, result, module commands)] that the property allows."""
        try:
            acts = S.actions(cp, s)
        except M.ModelError:
            return [(env, "raise", [])]
        res = []
        if fault:
            # the failure may have hit any action that the fault can reach
            self.walk(acts, 0, dict(env), 0, [], level, outcomes, tools, res, fault)
            return [r for r in res] or [(env, "raise", [])]
        self.walk(acts, 0, dict(env), 0, [], level, outcomes, tools, res, None)
        return res

    def walk(self, acts, i, env, rc, cmds, level, outcomes, tools, res, fault):
        while i < len(acts):
            kind, op, name, value = acts[i]
            i += 1
            if kind == "envvar":
                if fault and fault["op"] in ("putenv", "unsetenv") and fault.get("path", "*") in ("*", name):
                    res.append((dict(env), "raise", list(cmds)))
                try:
                    env = S.envvar(env, op, name, value, tools)
                except S.Fail:
                    res.append((env, "raise", cmds))
                    return
                continue
            try:
                cmd = S.module_command(op, name, value)
            except S.Fail:
                res.append((env, "raise", cmds))
                return
            if S.which("modulecmd", env, tools) is None:
                res.append((env, "raise", cmds))
                if level < 2:
                    self.walk(acts, i, dict(env), "nonzero", list(cmds), level, outcomes, tools, res, fault)
                return
            o = outcomes[len(cmds)] if len(cmds) < len(outcomes) else {"kind": "ok", "ops": []}
            cmds = cmds + [cmd]
            if fault and fault["op"] == "communicate":
                res.append((dict(env), "raise", list(cmds)))
                if level < 2 and fault["act"] not in ("kbd",):
                    self.walk(acts, i, dict(env), "nonzero", list(cmds), level, outcomes, tools, res, fault)
            if o["kind"] in ("ok", "mltrue", "warn"):
                if fault and fault["op"] in ("putenv", "unsetenv"):
                    for j, (_, v, _) in enumerate(o["ops"]):
                        if fault.get("path", "*") in ("*", v):
                            e = S.module_effect(env, o["ops"][:j])
                            res.append((e, "raise", list(cmds)))
                env = S.module_effect(env, o["ops"])
                continue
            if o["kind"] in ("spawn", "raise0"):
                res.append((dict(env), "raise", list(cmds)))
                if level < 2:
                    self.walk(acts, i, dict(env), "nonzero", list(cmds), level, outcomes, tools, res, fault)
                return
            if level >= 2:
                res.append((env, "raise", cmds))
                return
            rc = "nonzero"
        res.append((env, rc, cmds))


CHECK = C13()
