"""Debug level and warning flags are cosmetic: the same history at other levels gives the same answers."""
import os
import re

from .. import access as A
from .. import harness as H
from .. import hist
from .. import queries as Q
from .. import setenv as S
from .. import target
from ..base import Check
from ..procs import Modules
from ..world import Violation
from .c13 import NAMES, delta, gen_outcomes

TAG = re.compile(r"^\[D-(\d+)\]")


def visible(text):
    """(plain lines, debug levels used, number of skipped events) of what was printed."""
    plain, tags, skipped = [], [], 0
    for l in text.split("\n"):
        m = TAG.match(l)
        if m:
            tags.append(int(m.group(1)))
        elif l.startswith("!! EXCEPTION SKIPPED"):
            skipped += 1
        elif l.strip() and not l.startswith("!!"):
            plain.append(l.rstrip())
    return plain, tags, skipped


def within(a, b):
    """a is a subsequence of b."""
    it = iter(b)
    return all(x in it for x in a)


def gen_look(rng, n):
    """Cosmetic settings: [debug level, silent, compact] changed at some positions."""
    look = [[-1, rng.choice([0, 1, 2, 3, 4, 5, 5, 9]), rng.random() < 0.3, rng.random() < 0.3]]
    for i in range(n):
        if rng.random() < 0.25:
            look.append([i, rng.choice([0, 0, 1, 2, 3, 4, 5]), rng.random() < 0.3, rng.random() < 0.3])
    return look


class C25(Check):
    id = "C25"
    quick_n = 9000
    thorough_n = 300000
    keep = ("handlers",)
    rule = ("history in which a handler or the disk failed, an event was skipped, or a module command failed, run at two "
            "different sequences of debug levels and warning flags")
    real = ["configparserenhanced", "setenvironment.SetEnvironment, ModuleHelper"]
    stub = ["raw file system calls (interposed on a scratch directory)", "modulecmd processes", "stdout/stderr"]

    def gen(self, rng, tier):
        if rng.random() < 0.6:
            case = Q.gen_case(rng, tier, rng.random() < 0.5)
            ops = []
            for op in case["ops"]:
                if op[0] == "debug" or op[0] == "arm" and op[1]["op"] == "stdout":
                    continue
                ops.append(op)
                if rng.random() < 0.05:
                    ops.append(["level", rng.randrange(0, 6)])
            case["ops"] = ops
            if rng.random() < 0.3:
                hn = [h["op"] for h in case["handlers"]] + ["generic", "initialize", "finalize"]
                ops.insert(rng.randrange(len(ops)), ["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1, 2]), "act": "ret",
                                                              "rc": rng.choice([1, 7, 10, 11, -1, None])}])
            if rng.random() < 0.4:
                hn = [h["op"] for h in case["handlers"]] + ["generic", "initialize"]
                vals = [None, 0, 7, "x", "a\nb", "{x}", "%s", [1, "y"], {"k": None}, "\u00fc", "", 1.5, "@opaque", "@opaque"]
                ops.insert(0, ["plan", {"h": rng.choice(hn), "nth": 0, "span": 3, "act": "share", "items":
                                        [[rng.choice([1, None, "name", "other", ["t", 1], 2.5, True, ""]), rng.choice(vals)]
                                         for _ in range(rng.randrange(1, 4))]}])
            case["level"] = rng.randrange(0, 6)
            case["mode"] = "parser"
        else:
            ops = []
            for _ in range(rng.randrange(1, 4 if tier == "quick" else 8)):
                if rng.random() < 0.3:
                    ops.append(["level", rng.randrange(0, 6)])
                for _ in range(rng.randrange(0, 3)):
                    ops.append([rng.choice(["query", "print", "script", "bash", "parse", "write", "vars", "all"]), rng.choice(NAMES)])
                ops.append(["apply", rng.choice(NAMES), gen_outcomes(rng, rng.randrange(0, 4))])
            env = {v: rng.choice(["a", "a:b:a", "", "/p/one", "x y"]) for v in S.VARS if rng.random() < 0.5}
            case = {"mode": "env", "file": S.gen_file(rng, NAMES[:rng.randrange(2, 5)]), "ops": ops, "env": env}
        case["look"] = gen_look(rng, len(case["ops"]))
        return case

    def environ(self, case, w):
        if case["mode"] == "parser":
            return None
        env = dict(case["env"])
        env.update(PATH=w.path("bin") + ":" + w.path("other"), HOME=w.path("home"), KEEP="untouched")
        return env

    def nontrivial(self, case, w):
        return any(k.startswith("fault.") for k in w.counts) or "probe.skipped" in w.counts

    def run(self, case, w):
        one = self.history(case, w, [])
        w.heal()
        w.wipe()
        env = self.environ(case, w)
        if env is not None:
            for k in list(os.environ):
                del os.environ[k]
            os.environ.update(env)
        w.note("second")
        two = self.history(case, w, case["look"])
        for (op, a, ta), (_, b, tb) in zip(one, two):
            look = b.pop("look")
            a.pop("look")
            how = f"{op} with debug level {look[0]}, silent {look[1]}, compact {look[2]}"
            for k in a:
                if a[k] != b[k]:
                    raise Violation("result-changed", f"{how}: {k} is {A.brief(b[k], 300)}; at debug level 0 {A.brief(a[k], 300)}"
                                    .replace(w.root, "@"))
            pa, la, sa = visible(ta)
            pb, lb, sb = visible(tb)
            if sa:
                w.probe("skipped")
            if la:
                raise Violation("output", f"{op}: debug messages {la} at debug level 0")
            if lb and max(lb) > look[0]:
                raise Violation("output", f"{how}: a message of level {max(lb)} was printed")
            if sb != (0 if look[1] else sa):
                raise Violation("output", f"{how}: {sb} skipped events were reported, {sa} at debug level 0")
            if not within(pa, pb):
                raise Violation("output", f"{how}: {A.brief([x for x in pa if x not in pb] or pa)} is not printed, it is at debug level 0")

    @staticmethod
    def cosmetic(p, look, i):
        """Applies the settings that change at position i."""
        for j, d, s, c in look:
            if j == i:
                p.debug_level = d
                p.exception_control_silent_warnings = s
                p.exception_control_compact_warnings = c

    def outcome(self, out):
        return ["ok", A.brief(out.value, 100000)] if out.ok else ["raised", type(out.exc).__name__, str(out.exc)]

    def history(self, case, w, look):
        return self.parser(case, w, look) if case["mode"] == "parser" else self.env(case, w, look)

    def parser(self, case, w, look):
        hist.put_files(w, case["files"])
        p, sim = H.make_parser(w, case["handlers"], sorted(case["files"]), level=case["level"])
        if case["default"] != "DEFAULT":
            p.default_section_name = case["default"]
        self.cosmetic(p, look, -1)
        w.take_output()
        res = []
        for i, op in enumerate(case["ops"]):
            self.cosmetic(p, look, i)
            if op[0] == "plan":
                sim.arm(op[1])
            elif op[0] == "arm":
                w.arm(op[1])
            elif op[0] == "disarm":
                sim.disarm()
                w.heal()
            elif op[0] == "level":
                p.exception_control_level = op[1]
            else:
                w.note(*op)
                if op[0] == "set":
                    out = w.call(p.configparserenhanceddata.set, *op[1:])
                else:
                    out = w.call(A.perform, p, op[1])
                text = w.take_output()
                calls = [{k: v for k, v in e.items() if not k.startswith("nested")} for e in sim.take_events()]
                last = w.call(lambda: p.parse_section_last_result)
                lvl = p.exception_control_level
                res.append((op, {"outcome": self.outcome(out), "handler calls": calls, "last result": self.outcome(last), "level": lvl,
                                 "look": [p.debug_level, p.exception_control_silent_warnings, p.exception_control_compact_warnings]},
                            text))
                w.note("outcome", out.ok, len(calls))
        return res

    def env(self, case, w, look):
        senv = target.where(__import__("setenvironment.SetEnvironment", fromlist=["x"])).SetEnvironment
        for t in ("bin/modulecmd", "bin/simtool1", "other/simtool2", "other/simtool1"):
            w.put(t, "#!/bin/false\n")
            with w:
                os.chmod(w.path(t), 0o755)
        w.put("env.ini", "\n".join(case["file"]).replace("@", w.root) + "\n")
        p = senv(w.path("env.ini"))
        self.cosmetic(p, look, -1)
        w.take_output()
        res = []
        for i, op in enumerate(case["ops"]):
            self.cosmetic(p, look, i)
            k = op[0]
            if k == "level":
                p.exception_control_level = op[1]
                continue
            w.procs = m = Modules(w, op[2] if k == "apply" else [])
            before = dict(os.environ)
            w.note(k, op[1])
            f = {"query": lambda: dict(p.configparserenhanceddata[op[1]]), "print": lambda: p.pretty_print_actions(op[1]),
                 "script": lambda: p.generate_actions_script(op[1], interp="python"),
                 "bash": lambda: p.generate_actions_script(op[1], interp="bash"),
                 "parse": lambda: p.parse_section(op[1]), "all": lambda: p.assert_file_all_sections_handled(),
                 "write": lambda: p.write_actions_to_file(w.path("out.sh"), op[1]),
                 "vars": lambda: p.pretty_print_envvars(["V", "K"]),
                 "apply": lambda: p.apply(op[1])}[k]
            out = w.call(f)
            text = w.take_output()
            res.append((op[:2], {"outcome": self.outcome(out), "environment": delta(before, dict(os.environ)), "commands": m.log,
                                 "file": w.get("out.sh"), "look": [p.debug_level, p.exception_control_silent_warnings,
                                                                   p.exception_control_compact_warnings]}, text))
            w.note("outcome", out.ok)
        return res


CHECK = C25()
