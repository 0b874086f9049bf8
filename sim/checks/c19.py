"""LoadEnv: whole runs of the tool with failing disks, hosts, module commands and crashes, over one surviving disk."""
import gc
import importlib
import os
import re
import sys
import types

from .. import model as M
from .. import setenv as S
from .. import target
from ..base import Check
from ..procs import Modules
from ..world import Violation, Inadmissible
from . import c13, c17, c18

SYSTEMS = ["sys-1", "sys-2", "rhel7"]
ENVS = ["intel-18.0.5", "intel-18", "gnu-7", "cuda-gnu-7", "g++-9", "clang.10", "cuda-10_gnu-7", "gnu-7_mpi"]
ALIASES = ["intel", "default-env", "gnu", "cuda", "clang", "c++", "gnu-7.1", "GNU", "Intel-X", "mpi", "a1"]
INPUTS = ["load-env.ini", "systems.ini", "envs.ini", "specs.ini"]
REAL_PUTENV, REAL_UNSETENV = os.putenv, os.unsetenv


def module():
    if "LoadEnv" not in sys.modules:
        pkg = types.ModuleType("LoadEnv")
        pkg.__path__ = [target.REPO + "/wip/loadenv"]
        sys.modules["LoadEnv"] = pkg
        d = target.REPO + "/wip/loadenv"
        if d not in sys.path:
            sys.path.append(d)
    m = target.where(importlib.import_module("LoadEnv.load_env"))
    target.where(sys.modules[m.EnvKeywordParser.__module__])
    return m


# ---------------------------------------------------------------------- model
def env_tables(cp, system):
    """(environment names, aliases by environment) of one system; Reject if the file does not allow them."""
    if cp is None or not cp.has_section(system):
        raise c18.Reject("no such system")
    try:
        content = M.Walk(cp, set()).content(system)
    except M.ModelError:
        raise c18.Reject("not expandable")
    al = {n: c18.values(content, n) for n in content}
    flat = [a for v in al.values() for a in v]
    if len(set(flat)) != len(flat):
        raise c18.Reject("alias of two environments")
    return list(content), al


DECOY = {"systems": ["[decoy]", "anyhost", "host1", "node7"], "envs": ["[decoy]", "gnu-7:", "    decoy-gnu"], "specs": ["[decoy_gnu-7]", "set A: 1"],
         "flags": ["[configure-flags]", "decoy: SELECT_ONE", "    d1"], "configs": ["[decoy]", "opt-set: DECOY"]}


def decoys(rng, case, names):
    """The tool's own configuration names other files for some inputs; every run gives the right ones as options."""
    if rng.random() > 0.15:
        return
    case["decoy"] = d = rng.sample(names, rng.randrange(1, len(names) + 1))
    case["ini"] = [re.sub(r"(%s)\.ini" % "|".join(d), r"d-\1.ini", l) for l in case["ini"]]

    def given():
        return [n for n in names if n in d or rng.random() < 0.4]
    for r in case.get("runs", []):
        r["args"] = given()
    if "new" in case:
        case["new"][3] = given()


def file_args(w, args, names):
    """Options that name the input files: all of them, or those listed."""
    out = []
    for a, n in names:
        if args is True or args and n in args:
            out += ["--" + a, w.path(n + ".ini")]
    return out


FILE_ARGS = [("supported-systems", "systems"), ("supported-envs", "envs"), ("environment-specs", "specs")]


def inside(word, build):
    """The word stands in the build name between delimiters."""
    i = -1
    while True:
        i = build.find(word, i + 1)
        if i < 0:
            return False
        j = i + len(word)
        if (i == 0 or build[i - 1] == "_") and (j == len(build) or build[j] == "_"):
            return True


def env_name(cp, system, build):
    names, al = env_tables(cp, system)
    hits = sorted((n for n in names if inside(n, build)), key=len, reverse=True)
    if hits:
        return f"{system}_{hits[0]}"
    hits = sorted(((a, n) for n in names for a in al[n] if inside(a, build)), key=lambda x: len(x[0]), reverse=True)
    if not hits:
        raise c18.Reject("no environment in the build name")
    return f"{system}_{hits[0][1]}"


def stripped(cp_sys, cp_env, system, build):
    names, al = env_tables(cp_env, system)
    drop = set(names) | {a for v in al.values() for a in v} | {s for s in cp_sys.sections() if s != "DEFAULT"}
    return "_".join(x for x in build.split("_") if x not in drop)


def specs_ok(cp):
    """Every section can be expanded and every option in it has a handler. Cycles are not generated."""
    if cp is None:
        return False
    for s in cp.sections():
        for e in M.Walk(cp, S.HANDLED).events(s):
            if e[0] == "cycle":
                raise Inadmissible()
            if e[0] in ("missing", "bad", "gen"):
                return False
        try:
            S.actions(cp, s)
        except M.ModelError:
            return False
    return True


# ---------------------------------------------------------------------- generation
def gen_envs(rng, systems, p_bad):
    lines = []
    for s in systems:
        if rng.random() < p_bad * 0.3:
            continue
        lines.append(f"[{s}]")
        pool = list(ALIASES)
        rng.shuffle(pool)
        for e in rng.sample(ENVS, rng.randrange(1, 4)):
            lines.append(f"{e}:")
            for _ in range(rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 5])):
                a = pool.pop() if pool else "zz"
                if rng.random() < p_bad * 0.2:
                    a = rng.choice(["two words", "under_score", "_lead", "trail_", e, rng.choice(ALIASES)])
                lines.append("    " + a + rng.choice(["", "", "  # note", " #x"]))
    return lines or ["[none]"]


def env_keys(lines):
    out, sec = [], None
    for l in lines:
        if l.startswith("["):
            sec = l[1:-1]
        elif not l.startswith(" ") and l.endswith(":"):
            out.append((sec, l[:-1]))
    return out


def gen_specs(rng, envs, p_bad):
    secs = [f"{s}_{e}" for s, e in env_keys(envs)]
    if p_bad and rng.random() < 0.3 and secs:
        secs.pop(rng.randrange(len(secs)))
    rng.shuffle(secs)
    secs = secs[:5] + ["COMMON-A", "COMMON-B"][:rng.randrange(0, 3)]
    lines = S.gen_file(rng, secs, p_use=0.25, p_missing=0.1 * p_bad, p_default=0.2, max_opts=5, p_plain=0.05 * p_bad,
                       p_bad=0.03 * p_bad, ops=["set", "set", "append", "prepend", "unset", "remove_substr", "find_in_path",
                                                "set_if_empty", "remove", "append"] + (["assert_not_empty"] if rng.random() < 0.4 else []))
    return lines


def gen_build(rng, envs):
    keys = env_keys(envs)
    parts = []
    if rng.random() < 0.25:
        parts.append(rng.choice(SYSTEMS))
    if keys and rng.random() < 0.6:
        parts.append(rng.choice(keys)[1])
    elif rng.random() < 0.8:
        parts.append(rng.choice(ALIASES + ENVS))
    for _ in range(rng.randrange(0, 3)):
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(["opt", "dbg", "intel-18x0.5", "intel-180", "clang-10", "g+-9"] + ALIASES[:4]))
    if keys and rng.random() < 0.2:
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(keys)[1])
    al = [l.split()[0] for l in envs if l.startswith(" ") and l.split()]
    if al and rng.random() < 0.35:
        if rng.random() < 0.5:
            parts = [x for x in parts if x in SYSTEMS]
        for _ in range(rng.choice([1, 2, 2, 3])):
            parts.insert(rng.randrange(len(parts) + 1), rng.choice(al))
    if parts and rng.random() < 0.06:
        k = rng.randrange(len(parts))
        parts[k] = rng.choice(["{}-x", "x-{}", "{}x", "{}.1", "{}-", "{0}-{0}", "{}+"]).format(parts[k])
    if parts and rng.random() < 0.08:
        k = rng.randrange(len(parts))
        parts[k] = rng.choice([parts[k].upper(), parts[k].capitalize()])
    return "_".join(parts)


FAULTS_READ = ["EIO", "EACCES", "ESTALE", "kbd", "mem", "crash", "EMFILE", "vanish"]


def gen_faults(rng, crash=True):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        q = rng.random()
        if q < 0.2:
            out.append({"op": rng.choice(["open_r", "read", "stat", "close"]), "path": rng.choice(INPUTS), "act": rng.choice(FAULTS_READ[:-1]),
                        "nth": rng.choice([0, 0, 1, 2])})
        elif q < 0.26:
            out.append({"op": "hostname", "act": rng.choice(["EIO", "kbd", "crash"])})
        elif q < 0.34:
            out.append({"op": "stdout", "act": rng.choice(["EPIPE", "kbd", "crash"]), "nth": rng.choice([0, 1, 2, 3])})
        elif q < 0.42:
            out.append({"op": rng.choice(["putenv", "putenv", "unsetenv"]), "path": rng.choice(S.VARS + ["*"]),
                        "act": rng.choice(["ENOMEM", "kbd", "mem", "crash"]), "nth": rng.choice([0, 0, 1, 2])})
        elif q < 0.46:
            out.append({"op": "communicate", "act": rng.choice(["EIO", "kbd", "crash"])})
        elif q < 0.72:
            out.append({"op": "write", "path": rng.choice(["*", "*", "~u/", "loc", "out.sh"]),
                        "act": rng.choice(["ENOSPC", "EIO", "short", "torn", "torn", "EDQUOT", "kbd", "crash", "torncrash", "torncrash"]),
                        "n": rng.choice([1, 7, 20, 100, 1000]), "nth": rng.choice([0, 0, 0, 1, 2, 3]), "span": rng.choice([1, 1, 1, 3])})
        elif q < 0.82:
            out.append({"op": "open_w", "path": rng.choice(["*", "~u/", "loc", "out.sh"]),
                        "act": rng.choice(["EACCES", "EROFS", "ENOSPC", "EMFILE", "kbd", "crash"]), "nth": rng.choice([0, 0, 1, 2, 3])})
        elif q < 0.9:
            out.append({"op": "close", "path": rng.choice(["*", "~u/", "loc", "out.sh"]), "act": rng.choice(["EIO", "ENOSPC", "EDQUOT", "crash"]),
                        "nth": rng.choice([0, 0, 1, 2])})
        elif q < 0.95:
            out.append({"op": "stat", "path": rng.choice(["~u", "out.sh", "loc"]), "act": rng.choice(["EACCES", "EIO", "crash"])})
        else:
            out.append({"op": rng.choice(["rename", "unlink", "mkdir", "mkdir"]), "path": "*", "act": rng.choice(["EIO", "ENOSPC", "EACCES", "crash"])})
    if not crash:
        out = [f for f in out if "crash" not in f["act"]]
    return out


class C19(Check):
    id = "C19"
    quick_n = 9000
    thorough_n = 300000
    rule = "a run of the tool in which a read, a host-name call, a module command, an environment change or a write failed or the process crashed"
    real = ["wip/loadenv load_env.py main and LoadEnv, EnvKeywordParser", "setenvironment", "determinesystem", "keywordparser",
            "configparserenhanced"]
    stub = ["raw file system calls (interposed on a scratch directory)", "host name", "user name", "uuid4", "modulecmd processes",
            "putenv/unsetenv (may fail)", "stdout/stderr"]

    def gen(self, rng, tier):
        p_bad = rng.choice([0.0, 0.0, 0.0, 1.0])
        systems = rng.sample(SYSTEMS, rng.randrange(1, 4))
        sysl = []
        for s in systems:
            sysl += [f"[{s}]"] + rng.sample(["host1", "host2", "node[0-9]+", "login  # x", "gw$"], rng.randrange(0, 3))
        if rng.random() < 0.8:
            sysl.insert(1, "anyhost")
        envs = gen_envs(rng, systems, p_bad)
        ini = ["[load-env]", "supported-systems: systems.ini", "supported-envs: @/envs.ini", "environment-specs: specs.ini"]
        if p_bad and rng.random() < 0.2:
            k = rng.randrange(4)
            ini[k] = rng.choice([ini[k].split(":")[0] + ":", "# gone"] if k else ["[other]"])
        env = {}
        for v in S.VARS:
            if rng.random() < 0.5:
                env[v] = rng.choice(["a", "a:b:a", "", "/p/one:/p/two:/p/one", "aXbXaXb", "x y", "simtool1"])
        case = {"mode": rng.choice(["main", "main", "api"]), "ini": ini, "systems": sysl, "envs": envs, "specs": gen_specs(rng, envs, p_bad), "env": env,
                "chunk": rng.choice([None, None, 64, 700]), "out": rng.choice(["out.sh", "out.sh", "new/dir/out.sh"])}

        def host():
            return "anyhost" if rng.random() < 0.8 else rng.choice(["host1", "node7", "nowhere", "gw"])

        def outcomes():
            return c13.gen_outcomes(rng, rng.randrange(0, 4), p_fail=0.15)

        if case["mode"] == "main":
            runs = []
            for _ in range(rng.randrange(1, 4 if tier == "quick" else 7)):
                runs.append({"host": host(), "build": gen_build(rng, envs), "force": rng.random() < 0.4, "out": rng.random() < 0.5,
                             "loc": rng.random() < 0.9, "list": rng.random() < 0.06, "args": rng.random() < 0.4, "outcomes": outcomes(),
                             "specs": gen_specs(rng, envs, 1.0) if rng.random() < 0.15 else None,
                             "faults": gen_faults(rng) if rng.random() < 0.7 else []})
            case["runs"] = runs
        else:
            case["host"] = host()
            case["new"] = [gen_build(rng, envs), rng.random() < 0.4, rng.random() < 0.5, rng.random() < 0.4]
            ops = []
            for _ in range(rng.randrange(2, 7 if tier == "quick" else 14)):
                k = rng.choice(["apply", "apply", "write", "write", "name", "stripped", "system", "build"])
                if k == "build":
                    last = next((o[1] for o in reversed(ops) if o[0] == "build"), case["new"][0])
                    ops.append([k, rng.choice([gen_build(rng, envs)] * 3 + [last.upper(), last.lower(), last + "_opt", "x_" + last, ""])])
                    before = [o[0] for o in ops if o[0] != "build"]
                    if before and rng.random() < 0.6:       # the same question again
                        ops.append([before[-1], [], outcomes() if before[-1] == "apply" else []])
                else:
                    ops.append([k, gen_faults(rng, crash=False) if rng.random() < 0.4 else [], outcomes() if k == "apply" else []])
            case["ops"] = ops
        decoys(rng, case, ["systems", "envs", "specs"])
        return case

    def environ(self, case, w):
        env = dict(case["env"])
        env["PATH"] = w.path("bin") + ":" + w.path("other")
        env["HOME"] = w.path("home")
        env["KEEP"] = "untouched"
        user = os.path.relpath(w.path("u"), "/tmp")
        for v in ("LOGNAME", "USER", "LNAME", "USERNAME"):
            env[v] = user
        return env

    # ------------------------------------------------------------------
    def run(self, case, w):
        mod = module()
        base = mod.LoadEnv
        self.out = case["out"]
        ini = w.path("load-env.ini")

        class Tool(base):
            def __init__(self, argv):
                super().__init__(argv, load_env_ini_file=ini)

        self.tools = set()
        for t in ("bin/modulecmd", "bin/simtool1", "other/simtool2", "other/simtool1"):
            w.put(t, "#!/bin/false\n")
            with w:
                os.chmod(w.path(t), 0o755)
            self.tools.add(w.path(t))
        w.chunk = case["chunk"]
        self.put(w, "load-env.ini", case["ini"])
        for n in case.get("decoy", []):
            self.put(w, f"d-{n}.ini", DECOY[n])
        self.put(w, "systems.ini", case["systems"])
        self.put(w, "envs.ini", case["envs"])
        self.put(w, "specs.ini", case["specs"])
        self.cp_sys = M.try_load([w.get("systems.ini")])
        self.cp_env = M.try_load([w.get("envs.ini")])
        cpi = M.try_load([w.get("load-env.ini")])
        self.ini_ok = (cpi is not None and cpi.has_section("load-env") and
                       all(cpi.has_option("load-env", k) and cpi["load-env"][k]
                           for k in ("supported-systems", "supported-envs", "environment-specs")))
        senv = target.where(__import__("setenvironment.SetEnvironment", fromlist=["x"])).SetEnvironment
        env0 = dict(os.environ)
        mod.LoadEnv = Tool
        os.putenv, os.unsetenv = self.guard(w, "putenv", REAL_PUTENV), self.guard(w, "unsetenv", REAL_UNSETENV)
        try:
            if case["mode"] == "main":
                for r in case["runs"]:
                    self.one(case, r, w, mod, senv, env0)
            else:
                self.api(case, w, mod, senv)
        finally:
            mod.LoadEnv = base
            os.putenv, os.unsetenv = REAL_PUTENV, REAL_UNSETENV
            w.on_disk_change = None

    @staticmethod
    def put(w, name, lines):
        w.put(name, "\n".join(lines).replace("@", w.root) + "\n")

    @staticmethod
    def guard(w, op, real):
        def f(name, *a):
            if not w.bypass and w._installed:
                w.cross(op, os.fsdecode(name))
            return real(name, *a)
        return f

    def script(self, w, senv, name):
        """The complete script of one environment, from a new object; None if there is none."""
        save = (w.chunk, w.log, w.steps, w.faults)
        w.heal()
        w.chunk, w.log = None, []
        try:
            q = senv(w.path("specs.ini"))
            q.exception_control_level = 5
            o = w.call(q.generate_actions_script, name, True, True, True, "bash")
            w.take_output()
        finally:
            w.chunk, w.log, w.steps, w.faults = save
        return (o.value + f"export LOADED_ENV_NAME={name}").encode() if o.ok else None

    def names(self, host, build, force):
        """(system, environment section); Reject."""
        if self.cp_sys is None:
            raise c18.Reject("systems file")
        system = c17.decide(self.cp_sys, host, build, force)
        if system is None:
            raise c18.Reject("no system")
        return system, env_name(self.cp_env, system, build)

    # ------------------------------------------------------------------ whole runs
    def one(self, case, r, w, mod, senv, env0):
        w.heal()
        w.crashed = False
        os.environ.clear()
        os.environ.update(env0)
        w.hostname = r["host"]
        if r["specs"] is not None:
            self.put(w, "specs.ini", r["specs"])
        cp = M.try_load([w.get("specs.ini")])
        valid_specs = specs_ok(cp)
        name = why = script = None
        after, cmds = dict(env0), []
        good = False
        try:
            if not self.ini_ok:
                raise c18.Reject("load-env.ini")
            if r["list"]:
                if self.cp_sys is None:
                    raise c18.Reject("systems file")
                system = c17.decide(self.cp_sys, r["host"], r["build"], r["force"])
                if system is None:
                    raise c18.Reject("no system")
                env_tables(self.cp_env, system)
                good = True
            else:
                system, name = self.names(r["host"], r["build"], r["force"])
                if not valid_specs:
                    raise c18.Reject("environment-specs")
                acc = c13.CHECK.acceptable(cp, name, env0, 5, r["outcomes"], self.tools, None)
                after, res, cmds = acc[0]
                if res != 0:
                    raise c18.Reject("application")
                script = self.script(w, senv, name)
                good = script is not None
        except c18.Reject as ex:
            why = str(ex)
        w.procs = m = Modules(w, r["outcomes"])
        argv = []
        argv += file_args(w, r["args"], FILE_ARGS)
        if r["out"]:
            argv += ["-o", w.path(self.out)]
        if r["loc"]:
            argv += ["--load-matching-env-location", w.path("loc")]
        if r["force"]:
            argv.append("--force")
        if r["list"]:
            argv.append("--list-envs")
        argv.append(r["build"])
        desc = f"load_env {' '.join(a.replace(w.root, '.') for a in argv)} on {r['host']}"
        w.note("run", desc)
        start = {n: w.get(n) for n in ("loc", self.out)}
        bad = []

        def published():
            c = w.get("loc")
            if c is None or c == start["loc"]:
                return None
            p = os.path.normpath(os.path.join(w.root, c.decode("utf-8", "replace")))
            if not p.startswith(w.root + os.sep):
                return None
            t = w.get(p[len(w.root) + 1:])
            return t

        def invariant():
            t = published()
            if t is None or bad:
                return
            w.probe("published")
            if not good or r["list"]:
                bad.append(("published-invalid", f"the location was published although the run is not valid ({why})"))
            elif t != script:
                bad.append(("published-incomplete", f"the published script has {len(t)} bytes, the complete script of {name} has {len(script)}"))
            elif dict(os.environ) != after or [c[2:] for c in m.log] != cmds:
                bad.append(("published-early", f"the location was published before the environment was applied: {c13.delta(after, dict(os.environ))}"))

        w.on_disk_change = invariant
        for f in r["faults"]:
            w.arm(f)
        out = w.call(mod.main, argv)
        fired = [f for f in w.faults if f.get("fired") and f["act"] != "short"]
        crashed = w.crashed
        w.heal()
        ok = out.ok or isinstance(out.exc, SystemExit) and out.exc.code in (None, 0)
        err = "" if ok else repr(out)
        w.note("outcome", ok, crashed)
        del out
        if crashed:
            gc.collect()
        w.crashed = False
        if not bad:
            invariant()
        w.on_disk_change = None
        w.take_output()
        fs = f" with faults {[(f['op'], f.get('path', '*'), f['act'], f.get('nth', 0)) for f in fired]}" if fired else ""
        if bad:
            raise Violation(bad[0][0], f"{desc}{fs}: {bad[0][1]}")
        end = {n: w.get(n) for n in ("loc", self.out)}
        early = all(f["op"] in ("hostname", "putenv", "unsetenv", "communicate") or f.get("path") in INPUTS for f in fired)
        if r["list"] or not good or not ok and fired and early:
            if end != start:
                n = [x for x in end if end[x] != start[x]]
                raise Violation("published-by-failed-run", f"{desc}{fs} ({why or err}) changed {n}")
        if ok and not good:
            raise Violation("success", f"{desc}{fs} reported success; expected a failure ({why})")
        if not ok and good and not fired:
            raise Violation("spurious-failure", f"{desc} failed: {err}")
        if not ok:
            w.probe("crashed" if crashed else "failed" if fired else "rejected")
            return
        if r["list"]:
            w.probe("listed")
            return
        if r["loc"] and published() != script:
            raise Violation("not-published", f"{desc}{fs} reported success; the location file holds {end['loc']!r} and names no complete script")
        if r["out"] and end[self.out] != script:
            raise Violation("incomplete-output", f"{desc}{fs} reported success; the output has "
                            f"{None if end['out.sh'] is None else len(end['out.sh'])} bytes, the script {len(script)}")
        if not r["loc"] and script not in w.tree().values():
            raise Violation("incomplete-output", f"{desc}{fs} reported success; no complete script was written")
        if dict(os.environ) != after or [c[2:] for c in m.log] != cmds:
            raise Violation("not-applied", f"{desc}{fs} reported success; environment {c13.delta(after, dict(os.environ))}, module commands "
                            f"{[c[2:] for c in m.log]} instead of {cmds}")
        w.probe("ok" + (".through_fault" if fired else ""))

    # ------------------------------------------------------------------ one object, many requests
    def api(self, case, w, mod, senv):
        build, force, outp, args = case["new"]
        w.hostname = case["host"]
        argv = []
        argv += file_args(w, args, FILE_ARGS)
        if outp:
            argv += ["-o", w.path(self.out)]
        if force:
            argv.append("-f")
        o = w.call(mod.LoadEnv, argv + [build])
        if not o.ok:
            if self.ini_ok and self.cp_sys is not None:
                raise Violation("constructor", f"{o!r} for valid files")
            return
        if not self.ini_ok or self.cp_sys is None:
            raise Violation("constructor", "an object was made from an invalid load-env.ini or systems file")
        le = o.value
        cp = M.try_load([w.get("specs.ini")])
        valid_specs = specs_ok(cp)
        failed = False
        for op in case["ops"]:
            k = op[0]
            if k == "build":
                build = op[1]
                le.build_name = build
                w.note("build", build)
                continue
            try:
                want = self.names(w.hostname, build, force)
                why = None
            except c18.Reject as ex:
                want, why = None, str(ex)
            if k in ("apply", "write") and not valid_specs:
                want, why = None, "environment-specs"
            acc = None
            env = dict(os.environ)
            script = None
            if want and k == "write":
                script = self.script(w, senv, want[1])
            before = w.get(self.out)
            w.procs = m = Modules(w, op[2])
            w.heal()
            for f in op[1]:
                w.arm(f)
            w.note(k, build)
            f = {"apply": lambda: le.apply_env(), "write": lambda: le.write_load_matching_env(), "name": lambda: le.parsed_env_name,
                 "stripped": lambda: le.env_stripped_build_name, "system": lambda: le.system_name}[k]
            o = w.call(f)
            fired = [f for f in w.faults if f.get("fired") and f["act"] != "short"]
            w.heal()
            w.take_output()
            w.note("outcome", o.ok)
            desc = f"{k} for build name {build!r} (force {force}, host {w.hostname}){' again' if failed else ''}" \
                   f"{' with faults ' + str([(f['op'], f.get('path', '*'), f['act']) for f in fired]) if fired else ''}"
            if failed:
                w.count("fault.history.asked_after_failure")
            failed = failed or not o.ok
            if k == "system":
                want_v = c17.decide(self.cp_sys, w.hostname, build, force)
            elif k == "name":
                want_v = want[1] if want else None
            elif k == "stripped":
                s = c17.decide(self.cp_sys, w.hostname, build, force)
                try:
                    want_v = stripped(self.cp_sys, self.cp_env, s, build) if s is not None else None
                except c18.Reject:
                    want_v = None
            if k in ("system", "name", "stripped"):
                if o.ok and o.value != want_v:
                    raise Violation("wrong-name", f"{desc} gave {o.value!r}; expected {want_v!r} ({why})")
                if not o.ok and not fired and want_v is not None:
                    raise Violation("wrong-name", f"{desc} raised {o!r}; expected {want_v!r}")
                if dict(os.environ) != env or w.get(self.out) != before:
                    raise Violation("side-effect", f"{desc} changed the environment or a file")
                continue
            if k == "write":
                if script is None:
                    if o.ok:
                        raise Violation("success", f"{desc} succeeded; expected a failure ({why})")
                    if w.get(self.out) != before:
                        raise Violation("published-by-failed-run", f"{desc} failed, but the output changed")
                    continue
                if o.ok:
                    files = [os.fspath(o.value)]
                    if outp:
                        files.append(w.path(self.out))
                    for x in files + [os.fspath(le.tmp_load_matching_env_file)]:
                        if w.get(os.path.relpath(x, w.root)) != script:
                            raise Violation("incomplete-output", f"{desc} succeeded; {os.path.basename(x)} is not the complete script of {want[1]}")
                    w.probe("written")
                elif not fired:
                    raise Violation("spurious-failure", f"{desc} raised {o!r}")
                if dict(os.environ) != env:
                    raise Violation("side-effect", f"{desc} changed the environment")
                continue
            # apply
            got = "ok" if o.ok else "raise"
            log = [c[2:] for c in m.log]
            now = dict(os.environ)
            if want is None:
                if o.ok:
                    raise Violation("success", f"{desc} succeeded; expected a failure ({why})")
                if now != env or log:
                    raise Violation("applied-invalid", f"{desc} is not valid ({why}), but it changed {c13.delta(env, now)} or ran {log}")
                w.probe("apply_rejected")
                continue
            acc = list(c13.CHECK.acceptable(cp, want[1], env, 5, op[2], self.tools, None))
            for x in fired:
                if x["op"] in ("putenv", "unsetenv", "communicate"):
                    acc += c13.CHECK.acceptable(cp, want[1], env, 5, op[2], self.tools, x)
                else:
                    acc.append((env, "raise", []))
            if not any((r == 0) == o.ok and e == now and l == log for e, r, l in acc):
                e, r, l = acc[0]
                raise Violation("wrong-application", f"{desc} gave {o!r}, environment {c13.delta(e, now)}, commands {log}; expected {r}, {l}")
            w.probe("applied" if o.ok else "apply_failed")

    def nontrivial(self, case, w):
        return any(k.startswith("fault.") and not k.endswith(".short") for k in w.counts)


CHECK = C19()
