"""Shared by C03 and C04: histories of section queries, with failing handlers and disks."""
from . import access as A
from . import harness as H
from . import hist
from . import loadcheck as L
from . import model as M
from .base import Check
from .world import Violation, Inadmissible, CALLBACK_ERRORS


def gen_case(rng, tier, faulty):
    """faulty: weight of callback failures (C04: high, C03: low)."""
    handlers = H.gen_handlers(rng)
    ops = [h["op"] for h in handlers] + ["op1", "nohandler"]
    nfiles = rng.choice([1, 1, 1, 2, 3])
    broken = rng.random() < (0.45 if faulty else 0.25)
    files, names = hist.gen_ini(rng, ops, nfiles, p_missing=0.12 if broken else 0, p_bad=0.05 if broken else 0,
                                allow_interp=broken, p_default=0.4)
    default = rng.choice(["DEFAULT"] * 4 + names[:1])
    chatty = rng.random() < 0.25
    seq = [["debug", rng.choice([1, 2, 4, 5])]] if chatty else []
    n = rng.randrange(2, 9 if tier == "quick" else 16)
    hn = [h["op"] for h in handlers] * 2 + ["generic", "generic", "initialize", "finalize"]
    nested = []
    for _ in range(rng.randrange(0, 3)):
        nested.append(hist.gen_query(rng, names, parse=False))
    if rng.random() < 0.3:
        nested.append(["parse", rng.choice(names)])
    for _ in range(n):
        r = rng.random()
        if r < (0.45 if faulty else 0.18):
            plan = {"h": rng.choice(hn), "nth": rng.choice([0, 0, 1, 2, 3, 5]), "span": rng.choice([1, 1, 1, 2, 99]),
                    "act": rng.choice(sorted(CALLBACK_ERRORS))}
            seq.append(["plan", plan])
        elif r < 0.55 and nested:
            seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1, 2, 4]), "span": rng.choice([1, 2]),
                                 "act": "query", "pass": rng.random() < 0.3,
                                 "ops": rng.sample(nested, rng.randrange(1, len(nested) + 1))}])
        elif r < 0.62:
            seq.append(["set", rng.choice(names + ["NEW"]), rng.choice(["k1", "zz"]), "userset"])
        elif r < 0.68:
            seq.append(["arm", L.gen_fault(rng, sorted(files), None, allow_change=False)])
        elif r < 0.72:
            seq.append(["other", rng.choice([["export", rng.choice(names), True, True], ["export", None, True, False],
                                             ["assert_sec", rng.choice(names), False], ["assert_file"]])])
        if chatty and rng.random() < 0.4:
            seq.append(["arm", L.gen_stdout(rng)])
        if rng.random() < 0.3:
            seq.append(["disarm"])
        for _ in range(rng.randrange(1, 4)):
            seq.append(["q", hist.gen_query(rng, names)])
    seq.append(["disarm"])
    for s in rng.sample(names, len(names)):
        seq.append(["q", rng.choice([["get", s], ["item", s], ["options", s], ["items", s], ["has_sec", s]])])
    seq.append(["q", ["all"]])
    return {"files": files, "handlers": handlers, "default": default, "level": rng.choice([0, 1, 3, 4, 4, 4]),
            "ops": seq}


class QueryCheck(Check):
    keep = ("handlers",)

    def run(self, case, w):
        hist.put_files(w, case["files"])
        order = sorted(case["files"])
        try:
            cp = M.raw_load(hist.raw_bytes(case["files"], order))
        except Exception:
            raise Inadmissible()
        p, sim = H.make_parser(w, case["handlers"], order, level=case["level"])
        if case["default"] != "DEFAULT":
            p.default_section_name = case["default"]
        if "use" in sim.handled():
            raise Inadmissible()
        mw = A.MW(cp, sim.handled(), case["default"], case["level"])
        self.touched, self.added = set(), set()
        for op in case["ops"]:
            if op[0] == "plan":
                sim.arm(op[1])
            elif op[0] == "arm":
                w.arm(op[1])
            elif op[0] == "disarm":
                sim.disarm()
                w.heal()
            elif op[0] == "debug":
                p.debug_level = op[1]
            elif op[0] in ("set", "other", "q"):
                f0, r0, i0 = len(sim.fired), len(sim.raised), w.fault_count()
                sim.take_events()
                if op[0] == "set":
                    # what the user sets in a section is the user's; the others must not notice
                    (self.touched if op[1] in mw.names() else self.added).add(op[1])
                    out = w.call(p.configparserenhanceddata.set, *op[1:])
                else:
                    w.note("query", *op[1])
                    out = w.call(A.perform, p, op[1])
                w.take_output()
                w.note("outcome", out.ok)
                disturbed = len(sim.fired) > f0 or w.fault_count() > i0
                must_fail = 1 in sim.raised[r0:]
                if op[0] == "q":
                    self.judge(op[1], out, mw, disturbed, must_fail, w, case, "")
                elif must_fail and out.ok:
                    raise Violation("failure-hidden", f"{op} succeeded although a handler raised while it ran")
                self.nested(sim.take_events(), mw, w, case)

    def nested(self, events, mw, w, case):
        for e in events:
            for q, o, dist, mf, _ in e.get("nested", []):
                w.probe("nested_query")
                self.judge(q, o, mw, dist, mf, w, case, " (asked by a handler)")
            if "nested_events" in e:
                self.nested(e["nested_events"], mw, w, case)

    def judge(self, q, out, mw, disturbed, must_fail, w, case, how):
        if must_fail and out.ok:
            raise Violation("failure-hidden", f"{q}{how} answered {A.brief(out.value)} although a handler raised "
                            "while it ran")
        if len(q) > 1 and q[1] in self.touched | self.added and q[0] != "sections":
            return
        if disturbed and not out.ok:
            w.probe("failed_query")
            return
        if q[0] == "all" and out.ok:
            got = {s: v for s, v in out.value.items() if s not in self.touched | self.added}
            want = A.expect(q, mw)
            if want is not A.FAIL:
                want = {s: v for s, v in want.items() if s not in self.touched}
            if got != want:
                raise Violation(self.kind, f"{q}{how} answered {A.brief(got)}; expansion gives {A.brief(want)}")
            return
        if not A.same(q, mw, out):
            raise Violation(self.kind, f"{q}{how} gave {out!r}; depth-first expansion gives "
                            f"{A.brief(A.expect(q, mw))}")
