import io

from .. import access as A
from .. import harness as H
from .. import hist
from .. import loadcheck as L
from ..base import Check
from ..world import Violation, Inadmissible, CALLBACK_ERRORS

SETTINGS = ["exception_control_level", "exception_control_silent_warnings", "exception_control_compact_warnings",
            "debug_level", "inifilepath", "configparser_delimiters", "default_section_name"]


class BadFile(io.StringIO):
    """A file object whose write fails."""

    def __init__(self, exc):
        super().__init__()
        self.exc = exc

    def write(self, s):
        raise self.exc("injected by the simulator")


class C09(Check):
    id = "C09"
    keep = ("handlers",)
    quick_n = 14000
    thorough_n = 500000
    rule = "history in which at least one operation failed because of an injected fault (handler, disk, stdout, file object)"

    def gen(self, rng, tier):
        handlers = H.gen_handlers(rng, ambiguous=rng.random() < 0.2)
        ops = [h["op"] for h in handlers] + ["op1"]
        broken = rng.random() < 0.4
        files, names = hist.gen_ini(rng, ops, rng.choice([1, 2]), p_missing=0.15 if broken else 0,
                                    p_bad=0.05 if broken else 0, allow_interp=broken, nmax=4)
        hn = [h["op"] for h in handlers] * 2 + ["generic", "generic", "initialize", "finalize"]
        seq = []
        for _ in range(rng.randrange(2, 8 if tier == "quick" else 14)):
            r = rng.random()
            if r < 0.18:
                seq.append(["user", "exception_control_level", rng.randrange(0, 6)])
            elif r < 0.26:
                seq.append(["user", rng.choice(["exception_control_silent_warnings",
                                                "exception_control_compact_warnings"]), rng.random() < 0.5])
            elif r < 0.32:
                seq.append(["user", "debug_level", rng.choice([0, 0, 1, 5])])
            elif r < 0.37:
                seq.append(["user", "default_section_name", rng.choice(["DEFAULT", rng.choice(names)])])
            elif r < 0.41:
                seq.append(["user", "configparser_delimiters", rng.choice([["=", ":"], [":"], ["="], ["=", ":", "|"],
                                                                         [":", "=", "=>", "|"]])])
            if rng.random() < 0.55:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 0, 1, 2, 4]),
                                     "span": rng.choice([1, 1, 2]),
                                     "act": rng.choice(sorted(CALLBACK_ERRORS))}])
            if rng.random() < 0.15:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1]), "act": "query", "pass": True,
                                     "ops": [rng.choice([["export", rng.choice(names), True, False],
                                                         ["get", rng.choice(names)],
                                                         ["assert_sec", rng.choice(names), True]])]}])
            if rng.random() < 0.15:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1]), "act": "ret",
                                     "rc": rng.choice([1, 11, None])}])
            if rng.random() < 0.25:
                seq.append(["arm", L.gen_fault(rng, sorted(files), None, allow_change=False)])
            if rng.random() < 0.12:
                seq.append(["arm", {"op": "stdout", "act": rng.choice(["EPIPE", "ENOSPC", "kbd"]),
                                    "nth": rng.choice([0, 1, 5, 20]), "span": 1}])
            s = rng.choice(names + ["NOPE"])
            seq.append(["op", rng.choice([
                ["export", s, True, False], ["export", None, True, False], ["export", s, True, True],
                ["export", None, False, True], ["write", s, True, False], ["write", None, True, True],
                ["badwrite", rng.choice(["err", "os", "kbd"]), s, rng.random() < 0.5],
                ["wrongtype", rng.choice(["file", "section", "level", "files", "delims", "parse"])],
                ["assert_sec", s, True], ["assert_sec", s, False], ["assert_file"],
                ["get", s], ["all"], ["parse", s], ["sections", "force"], ["has_opt", s, "k1"], ["parse_all"],
            ])])
            if rng.random() < 0.4:
                seq.append(["disarm"])
        return {"files": files, "handlers": handlers, "level": rng.choice([0, 3, 4, 4, 5]), "ops": seq}

    def run(self, case, w):
        hist.put_files(w, case["files"])
        order = sorted(case["files"])
        p, sim = H.make_parser(w, case["handlers"], order, level=case["level"])
        want = {n: getattr(p, n) for n in SETTINGS}
        want["inifilepath"] = list(want["inifilepath"])
        for op in case["ops"]:
            k = op[0]
            if k == "user":
                v = tuple(op[2]) if isinstance(op[2], list) else op[2]
                if v == ():
                    raise Inadmissible()
                setattr(p, op[1], v)
                want[op[1]] = v
            elif k == "plan":
                sim.arm(op[1])
            elif k == "arm":
                w.arm(op[1])
            elif k == "disarm":
                sim.disarm()
                w.heal()
            else:
                q = op[1]
                w.note("op", *q)
                sim.take_events()
                out = w.call(self.perform, p, q)
                w.note("outcome", out.ok)
                with w:
                    w.take_output()
                if not out.ok:
                    w.probe("failed_op")
                saved, w.faults = w.faults, []
                got = {n: getattr(p, n) for n in SETTINGS}
                w.faults = saved
                for n in SETTINGS:
                    if got[n] != want[n]:
                        raise Violation("setting-changed", f"{q} ({'ok' if out.ok else 'failed: ' + repr(out)}) left "
                                        f"{n} = {got[n]!r}, the user had set {want[n]!r}")

    def perform(self, p, q):
        if q[0] == "badwrite":
            return p.write(BadFile(CALLBACK_ERRORS[q[1]]), section=q[2], use_base_class_parser=q[3])
        if q[0] == "wrongtype":
            if q[1] == "file":
                return p.write("not a file")
            if q[1] == "section":
                return p.unroll_to_str(section=5)
            if q[1] == "level":
                p.exception_control_level = "high"
            if q[1] == "files":
                p.inifilepath = {"a": 1}
            if q[1] == "delims":
                p.configparser_delimiters = 7
            return p.parse_section(None)
        return A.perform(p, q)

    def nontrivial(self, case, w):
        return "probe.failed_op" in w.counts and any(k.startswith("fault.") for k in w.counts)


CHECK = C09()
