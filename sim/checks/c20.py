"""GenConfig: whole runs of the tool with user answers, failing disks and crashes, over one surviving disk."""
import gc
import importlib
import os
import sys
import types

from .. import model as M
from .. import target
from ..base import Check
from ..world import Violation, Inadmissible, REAL
from . import c17, c18, c19

INPUTS = ["gen-config.ini", "load-env.ini", "systems.ini", "envs.ini", "specs.ini", "flags.ini", "configs.ini"]
ANSWERS = ["y", "n", "Y", "yes", "No", "Yep", "nope", "", "", "q", "maybe", " y", "0", "ny", "quit y", None]
LOC = "u/.bash_cmake_args_loc"
KEYS = [("gen-config", "supported-config-flags"), ("gen-config", "config-specs"), ("load-env", "supported-systems"),
        ("load-env", "supported-envs"), ("load-env", "environment-specs")]


class Options:
    """Stand-in for setprogramoptions.SetProgramOptionsCMake (not part of the repository)."""

    def __init__(self, filename=None):
        self.p = target.parser_class()(filename)

    def gen_option_list(self, section, generator="bash"):
        d = self.p.configparserenhanceddata
        if not d.has_section(section):
            raise KeyError(f"no configuration {section}")
        pairs = [(k, d[section][k]) for k in list(d[section].keys())]
        pairs += [p for p in pairs if p[1] == "twice"]      # the real package repeats options too
        if generator == "bash":
            return ["-D" + k + ("" if v is None else "=" + v) for k, v in pairs]
        if generator == "cmake_fragment":
            return [f'set({k} {v} CACHE STRING "")' for k, v in pairs]
        raise ValueError(generator)


def options(cp, section, generator):
    """The same from the model; None if there is none."""
    if cp is None or not cp.has_section(section):
        return None
    try:
        c = M.Walk(cp, set()).content(section)
    except M.ModelError:
        return None
    pairs = list(c.items())
    pairs += [p for p in pairs if p[1] == "twice"]
    if generator == "bash":
        return ["-D" + k + ("" if v is None else "=" + v) for k, v in pairs]
    return [f'set({k} {v} CACHE STRING "")' for k, v in pairs]


def module():
    c19.module()
    c18.ckp_class()
    if "setprogramoptions" not in sys.modules:
        m = types.ModuleType("setprogramoptions")
        m.SetProgramOptionsCMake = Options
        m.SetProgramOptions = Options
        sys.modules["setprogramoptions"] = m
    return target.where(importlib.import_module("gen_config"))


def consent(answers):
    """(outcome, answers consumed): True, False or None (end of input)."""
    for i, a in enumerate(answers):
        if a is None:
            return None, i + 1
        if a[:1] in ("y", "Y"):
            return True, i + 1
        if a[:1] in ("n", "N"):
            return False, i + 1
    return None, len(answers)


def gen_faults(rng, crash=True):
    out = []
    for f in c19.gen_faults(rng, crash):
        f = dict(f)
        if f.get("path") in c19.INPUTS:
            f["path"] = rng.choice(INPUTS)
        elif f.get("path") == "out.sh":
            f["path"] = "frag.cmake"
        elif f.get("path") == "loc":
            f["path"] = LOC
        if f["op"] in ("putenv", "unsetenv", "communicate"):
            f = {"op": "input", "act": rng.choice(["kbd", "EIO", "crash"] if crash else ["kbd", "EIO"]), "nth": rng.choice([0, 0, 1])}
        out.append(f)
    return out


class C20(Check):
    id = "C20"
    quick_n = 9000
    thorough_n = 300000
    rule = "a run in which a read, a prompt, a host-name call or a write failed, or the process crashed, or the user had to be asked"
    real = ["wip/genconfig gen_config.py main and GenConfig, ConfigKeywordParser", "wip/loadenv LoadEnv, EnvKeywordParser", "determinesystem",
            "keywordparser", "configparserenhanced"]
    stub = ["setprogramoptions (not in this repository): lists the expanded options of a section", "user (answers)",
            "raw file system calls (interposed on a scratch directory)", "host name", "user name", "uuid4", "stdout/stderr"]

    def gen(self, rng, tier):
        p_bad = rng.choice([0.0, 0.0, 1.0])
        systems = rng.sample(c19.SYSTEMS, rng.randrange(1, 3))
        sysl = []
        for i, s in enumerate(systems):
            sysl += [f"[{s}]"] + (["anyhost"] if i == 0 else rng.sample(["host1", "node[0-9]+"], 1))
        envs = c19.gen_envs(rng, systems, p_bad * 0.3)
        flags = c18.gen_flags(rng, p_bad * 0.3)
        ini = ["[gen-config]", "supported-config-flags: flags.ini", "config-specs: @/configs.ini", "[load-env]", "supported-systems: systems.ini",
               "supported-envs: envs.ini", "environment-specs: specs.ini"]
        if p_bad and rng.random() < 0.12:
            k = rng.randrange(7)
            ini[k] = rng.choice(["[other]"]) if ini[k][0] == "[" else rng.choice([ini[k].split(":")[0] + ":", "# gone", ini[k] + "x"])
        # complete configurations: names are put together like the tool does it
        cp_env = M.try_load([("\n".join(envs) + "\n").encode()])
        cp_flags = M.try_load([("\n".join(flags) + "\n").encode()])
        keys = c19.env_keys(envs)
        secs, builds = [], []
        content = None
        try:
            content = M.Walk(cp_flags, set()).content(c18.SECTION) if cp_flags is not None and cp_flags.has_section(c18.SECTION) else None
        except M.ModelError:
            pass
        opts = []
        if content:
            for n in content:
                try:
                    opts += c18.flag(content, n)[0]
                except c18.Reject:
                    pass
        for _ in range(rng.randrange(1, 5)):
            s, e = rng.choice(keys) if keys else ("sys-1", "gnu-7")
            b = "_".join([s, e] + rng.sample(opts, min(len(opts), rng.randrange(0, 3))))
            builds.append(b)
            name = b
            if content:
                try:
                    name = f"{s}_{e}" + c18.as_str(c18.selected(content, b))
                except c18.Reject:
                    pass
            if rng.random() < p_bad * 0.15:
                name = rng.choice([b, name + "_zz", name.replace("_", "-"), "some_thing", e, name[:1].upper() + name[1:],
                                   name.replace(s, s.upper(), 1), name.replace(e, e.upper(), 1), name.swapcase()])
            if name not in secs:
                secs.append(name)
        lines = []
        sup = ["COMMON", "MORE"]
        order = secs + sup
        rng.shuffle(order)
        for s in order:
            lines.append(f"[{s}]")
            if s not in sup and rng.random() < 0.5:
                lines.append("use COMMON")
            if s == "COMMON" and rng.random() < 0.3:
                lines.append("use MORE")
            if rng.random() < p_bad * 0.06:
                lines.append("use NOPE")
            for v in rng.sample(["VA", "VB", "Trilinos_X:BOOL", "PATHS:PATH"], rng.randrange(0, 4)):
                lines.append(f"{v.replace(':', '_')} = {rng.choice(['ON', 'OFF', '/p/q', 'ünï', '', 'a b', 'twice'])}")
        case = {"mode": rng.choice(["main", "main", "main", "api"]), "ini": ini, "systems": sysl, "envs": envs, "flags": flags, "configs": lines,
                "chunk": rng.choice([None, None, 64, 700])}

        def host():
            return "anyhost" if rng.random() < 0.85 else rng.choice(["host1", "node7", "nowhere"])

        def build():
            if builds and rng.random() < 0.75:
                b = rng.choice(builds).split("_", 1)
                return "_".join(b) if rng.random() < 0.6 else b[-1]
            return c19.gen_build(rng, envs)

        def answers():
            if rng.random() < 0.1:      # a user who does not understand the question for a while
                return [rng.choice(["", "maybe", "yess", "q"]) for _ in range(rng.randrange(4, 14))] + [rng.choice(ANSWERS)]
            return [rng.choice(ANSWERS) for _ in range(rng.randrange(0, 4))]

        if case["mode"] == "main":
            case["runs"] = [{"what": rng.choice(["fragment"] * 4 + ["bash"] * 4 + ["save", "list", "listflags"]), "host": host(), "build": build(),
                             "force": rng.random() < 0.5, "yes": rng.random() < 0.3, "answers": answers(), "args": rng.random() < 0.3,
                             "old": rng.choice([None, None, "keep", "keep", "old content\n", "", ["link", "linked\n"]]),
                             "faults": gen_faults(rng) if rng.random() < 0.6 else []}
                            for _ in range(rng.randrange(1, 4 if tier == "quick" else 7))]
        else:
            case["host"] = host()
            case["new"] = [build(), rng.random() < 0.5, rng.random() < 0.3, rng.random() < 0.3]
            case["old"] = rng.choice([None, "old content\n", "", ["link", "linked\n"]])
            case["ops"] = [[rng.choice(["complete", "flags", "flags", "fragment", "fragment", "validate", "name"]),
                            gen_faults(rng, crash=False) if rng.random() < 0.45 else [], answers()]
                           for _ in range(rng.randrange(2, 7 if tier == "quick" else 14))]
        case["frag"] = rng.choice(["frag.cmake"] * 3 + ["new/dir/frag.cmake", "new/frag"])
        c19.decoys(rng, case, ["flags", "configs", "systems", "envs", "specs"])
        for o in case.get("runs", case.get("ops")):
            for f in o["faults"] if isinstance(o, dict) else o[1]:
                if f.get("path") == "frag.cmake":
                    f["path"] = case["frag"]
        return case

    def environ(self, case, w):
        env = {"PATH": w.path("bin"), "HOME": w.path("home")}
        user = os.path.relpath(w.path("u"), "/tmp")
        for v in ("LOGNAME", "USER", "LNAME", "USERNAME"):
            env[v] = user
        return env

    # ------------------------------------------------------------------
    def run(self, case, w):
        lm, mod = c19.module(), module()
        base_l, base_g = lm.LoadEnv, mod.GenConfig
        le_ini, gc_ini = w.path("load-env.ini"), w.path("gen-config.ini")

        class Tool(base_l):
            def __init__(self, argv):
                super().__init__(argv, load_env_ini_file=le_ini)

        class Gen(base_g):
            def __init__(self, argv):
                super().__init__(argv, gen_config_ini_file=gc_ini)

        self.frag = case["frag"]
        w.chunk = case["chunk"]
        put = c19.C19.put
        put(w, "load-env.ini", ["[load-env]", "supported-systems: nosuch.ini", "supported-envs: nosuch.ini", "environment-specs: nosuch.ini"])
        put(w, "specs.ini", ["[x]"])
        for n in ("gen-config", "systems", "envs", "flags", "configs"):
            put(w, n + ".ini", case["ini" if n == "gen-config" else n])
        for n in case.get("decoy", []):
            put(w, f"d-{n}.ini", c19.DECOY[n])
        load = lambda n: M.try_load([w.get(n + ".ini")])    # noqa
        self.cp_sys, self.cp_env, self.cp_flags, self.cp_conf = load("systems"), load("envs"), load("flags"), load("configs")
        cpi = load("gen-config")
        self.ini_ok = cpi is not None and all(cpi.has_section(s) for s in ("gen-config", "load-env")) and \
            all(cpi.has_option(s, k) and cpi[s][k] and w.get(os.path.basename(cpi[s][k])) is not None for s, k in KEYS)
        self.content = None
        if self.cp_flags is not None and self.cp_flags.has_section(c18.SECTION):
            try:
                self.content = M.Walk(self.cp_flags, set()).content(c18.SECTION)
            except M.ModelError:
                pass
        lm.LoadEnv = mod.LoadEnv = Tool
        mod.GenConfig = Gen
        try:
            if case["mode"] == "main":
                for r in case["runs"]:
                    self.one(case, r, w, mod)
            else:
                self.api(case, w, mod)
        finally:
            lm.LoadEnv = mod.LoadEnv = base_l
            mod.GenConfig = base_g
            w.on_disk_change = None

    # ------------------------------------------------------------------ model
    def complete(self, host, build, force):
        if self.cp_sys is None:
            raise c18.Reject("systems file")
        if self.content is None:
            raise c18.Reject("flags file")
        s = c17.decide(self.cp_sys, host, build, force)
        if s is None:
            raise c18.Reject("no system")
        return c19.env_name(self.cp_env, s, build) + c18.as_str(c18.selected(self.content, build))

    def validate(self, host):
        if self.cp_conf is None:
            raise c18.Reject("config-specs file")
        if self.content is None or self.cp_sys is None:
            raise c18.Reject("files")
        for s in self.cp_conf.sections():
            if s.upper() != s and self.complete(host, s, True) != s:
                raise c18.Reject(f"section {s}")

    def decide(self, host, build, force, generator):
        """(text, None) or (None, why)"""
        try:
            if not self.ini_ok:
                raise c18.Reject("gen-config.ini")
            self.validate(host)
            o = options(self.cp_conf, self.complete(host, build, force), generator)
            if o is None:
                raise c18.Reject("no such configuration")
        except c18.Reject as ex:
            return None, str(ex)
        return ((" \\\n    " if generator == "bash" else "\n").join(o)).encode(), None

    def argv(self, w, build, force, yes, args):
        argv = c19.file_args(w, args, [("supported-config-flags", "flags"), ("config-specs", "configs")] + c19.FILE_ARGS)
        if force:
            argv.append("--force")
        if yes:
            argv.append("-y")
        return argv + [build]

    def place(self, w, old):
        """An existing fragment: a file, or a link to one."""
        if isinstance(old, list):
            w.put("kept/real.cmake", old[1])
            w.put(self.frag, "")
            w.drop(self.frag)
            with w:
                REAL["os.symlink"](w.path("kept/real.cmake"), w.path(self.frag))
        elif old is not None:
            w.put(self.frag, old)

    # ------------------------------------------------------------------ whole runs
    def one(self, case, r, w, mod):
        w.heal()
        w.crashed = False
        w.hostname = r["host"]
        if r["old"] != "keep":
            w.drop(self.frag)
            self.place(w, r["old"])
        what = r["what"]
        argv = self.argv(w, r["build"], r["force"], r["yes"], r["args"])
        argv = {"fragment": ["--cmake-fragment", w.path(self.frag)], "bash": [], "save": ["--save-load-env-args", w.path("saved")],
                "list": ["--list-configs"], "listflags": ["--list-config-flags"]}[what] + argv
        start = {n: w.get(n) for n in (self.frag, LOC)}
        text = why = None
        if what in ("fragment", "bash"):
            text, why = self.decide(r["host"], r["build"], r["force"], "bash" if what == "bash" else "cmake_fragment")
        good = text is not None
        agreed, used = True, 0
        if what == "fragment" and good and start[self.frag] is not None and not r["yes"]:
            agreed, used = consent(r["answers"])
            if not agreed:
                why = "no consent"
        w.answers = list(r["answers"])
        w.asked = 0
        bad = []
        desc = f"gen_config {' '.join(a.replace(w.root, '.') for a in argv)} on {r['host']}, answers {r['answers'][:used]}"
        w.note("run", desc)

        def published():
            c = w.get(LOC)
            if c is None or c == start[LOC]:
                return None
            p = os.path.normpath(os.path.join(w.root, c.decode("utf-8", "replace")))
            return w.get(p[len(w.root) + 1:]) if p.startswith(w.root + os.sep) else None

        def invariant():
            if bad:
                return
            t = published()
            if t is not None:
                w.probe("published")
                if not good or what != "bash":
                    bad.append(("published-invalid", f"an argument file was published although the run is not valid ({why})"))
                elif t != text:
                    bad.append(("published-incomplete", f"the published argument file has {len(t)} bytes, complete are {len(text)}"))
            f = w.get(self.frag)
            if f != start[self.frag]:
                if what != "fragment" or not good:
                    bad.append(("fragment-destroyed", f"the fragment changed although this run cannot write it ({why})"))
                elif start[self.frag] is not None and not r["yes"]:
                    given = r["answers"][:w.asked]
                    if consent(given)[0] is not True:
                        bad.append(("no-consent", f"the existing fragment was changed after the answers {given}"))

        w.on_disk_change = invariant
        for f in r["faults"]:
            w.arm(f)
        out = w.call(mod.main, argv)
        fired = [f for f in w.faults if f.get("fired") and f["act"] != "short"]
        crashed = w.crashed
        w.heal()
        ok = out.ok or isinstance(out.exc, SystemExit) and out.exc.code in (None, 0)
        err = "" if ok else repr(out)
        w.note("outcome", ok, crashed)
        del out
        if crashed:
            gc.collect()
        w.crashed = False
        invariant()
        w.on_disk_change = None
        printed = w.take_output()
        fs = f" with faults {[(f['op'], f.get('path', '*'), f['act'], f.get('nth', 0)) for f in fired]}" if fired else ""
        if bad:
            raise Violation(bad[0][0], f"{desc}{fs}: {bad[0][1]}")
        if w.asked:
            w.count("fault.user.asked", w.asked)
        end = {n: w.get(n) for n in start}
        if what in ("list", "listflags"):
            if end != start:
                raise Violation("side-effect", f"{desc}{fs} changed a file")
            return
        if what == "save":
            if end != start:
                raise Violation("side-effect", f"{desc}{fs} changed another file")
            if ok and not self.ini_ok:
                raise Violation("success", f"{desc}{fs} reported success with an invalid gen-config.ini")
            if ok:
                got = (w.get("saved") or b"").decode()
                want = ["--supported-systems", w.path("systems.ini"), "--supported-envs", w.path("envs.ini"), "--environment-specs",
                        w.path("specs.ini")] + (["--force"] if r["force"] else []) + ([r["build"]] if r["build"] else [])
                if got.split() != want:
                    raise Violation("wrong-arguments", f"{desc}{fs} saved {got.replace(w.root, '.')!r}")
            elif not fired and self.ini_ok:
                raise Violation("spurious-failure", f"{desc} failed: {err}")
            return
        expect = good and agreed is True
        early = all(f["op"] in ("hostname", "input") or f.get("path") in INPUTS for f in fired)
        if not expect or not ok and fired and early:
            if end != start:
                raise Violation("published-by-failed-run", f"{desc}{fs} ({why or err}) changed {[x for x in end if end[x] != start[x]]}")
        if ok and not expect:
            raise Violation("success", f"{desc}{fs} reported success; expected a failure ({why})")
        if not ok and expect and not fired:
            raise Violation("spurious-failure", f"{desc} failed: {err}")
        if not ok:
            w.probe(("crashed" if crashed else "failed" if fired else "declined" if good else "rejected") + "." + what)
            return
        if what == "fragment" and end[self.frag] != text:
            raise Violation("incomplete-fragment", f"{desc}{fs} reported success; the fragment is {end[self.frag]!r}, expected {text!r}")
        if what == "bash" and published() != text:
            raise Violation("not-published", f"{desc}{fs} reported success; the location file holds {end[LOC]!r}")
        w.probe("ok." + what + (".overwritten" if what == "fragment" and start[self.frag] is not None else ""))

    # ------------------------------------------------------------------ one object, many requests
    def api(self, case, w, mod):
        build, force, yes, args = case["new"]
        w.hostname = case["host"]
        self.place(w, case["old"])
        g = mod.GenConfig(["--cmake-fragment", w.path(self.frag)] + self.argv(w, build, force, yes, args))
        written = failed = maybe = False
        for k, faults, answers in case["ops"]:
            before = w.get(self.frag)
            w.answers = list(answers)
            w.asked = 0
            text = None
            try:
                if not self.ini_ok:
                    raise c18.Reject("gen-config.ini")
                if k == "validate":
                    self.validate(w.hostname)
                    want = None
                elif k == "complete":
                    want = self.complete(w.hostname, build, force)
                elif k == "name":
                    want = build
                else:
                    text, why = self.decide(w.hostname, build, force, "bash" if k == "flags" else "cmake_fragment")
                    if text is None:
                        raise c18.Reject(why)
                    want = text.decode() if k == "flags" else w.path("kept/real.cmake" if isinstance(case["old"], list) else self.frag)
                    if k == "fragment" and before is not None and not yes and not written and consent(answers)[0] is not True:
                        raise c18.Reject("no consent")
                why = None
                expect = True
            except c18.Reject as ex:
                expect, why = False, str(ex)
            bad = []

            def invariant():
                if w.get(self.frag) == before or bad:
                    return
                if k != "fragment" or text is None or written:
                    bad.append(("fragment-destroyed", f"the fragment changed although this request cannot write it ({why})"))
                elif before is not None and not yes and consent(answers[:w.asked])[0] is not True:
                    bad.append(("no-consent", f"the existing fragment was changed after the answers {answers[:w.asked]}"))

            w.heal()
            for f in faults:
                w.arm(f)
            w.note(k, build)
            f = {"complete": lambda: g.complete_config, "flags": lambda: g.generated_config_flags_str, "fragment": lambda: g.write_cmake_fragment(),
                 "validate": lambda: g.validate_config_specs_ini(), "name": lambda: g.args.build_name}[k]
            w.on_disk_change = invariant
            o = w.call(f)
            fired = [f for f in w.faults if f.get("fired") and f["act"] != "short"]
            w.heal()
            invariant()
            w.on_disk_change = None
            w.take_output()
            w.note("outcome", o.ok)
            if w.asked:
                w.count("fault.user.asked", w.asked)
            desc = f"{k} for build name {build!r} (force {force}, yes {yes}, host {w.hostname}){' again' if failed else ''}" \
                   f"{' with faults ' + str([(f['op'], f.get('path', '*'), f['act']) for f in fired]) if fired else ''}"
            if failed:
                w.count("fault.history.asked_after_failure")
            failed = failed or not o.ok
            if bad:
                raise Violation(bad[0][0], f"{desc}: {bad[0][1]}")
            if not expect:
                if o.ok and why == "no consent" and maybe and w.get(self.frag) == before:
                    written = True
                    continue
                if o.ok:
                    raise Violation("success", f"{desc} gave {o.value!r}; expected a failure ({why})")
                continue
            if not o.ok:
                if not fired:
                    raise Violation("spurious-failure", f"{desc} raised {o!r}")
                if k == "fragment" and w.get(self.frag) == text:
                    maybe = True            # complete on the disk; the failure came after it (or with the last step)
                continue
            if k != "validate" and (os.fspath(o.value) if k == "fragment" else o.value) != want:
                raise Violation("wrong-result", f"{desc} gave {o.value!r}; expected {want!r}")
            if k == "fragment" and not written and not (maybe and w.get(self.frag) == before):
                if w.get(self.frag) != text:
                    raise Violation("incomplete-fragment", f"{desc} succeeded; the fragment is {w.get(self.frag)!r}, expected {text!r}")
                written = True
            w.probe("api." + k)

    def nontrivial(self, case, w):
        return any(k.startswith("fault.") and not k.endswith(".short") for k in w.counts)


CHECK = C20()
