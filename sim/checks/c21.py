from .. import access as A
from .. import harness as H
from .. import hist
from .. import inigen as G
from .. import loadcheck as L
from .. import model as M
from ..base import Check
from ..world import Violation, Inadmissible, CALLBACK_ERRORS

# words that occur nowhere else in a message, so that being named can be told from the text
KEYS = ["zetakey1", "thetakey 2", "kappa-key3", "lambda.key4", "muékey5", "nukey6 'x y'", "xikey7/a", "-pikey8", "rhokey9"]
WORDS = {k: k for k in KEYS}
VALUES = ["v1", "v 2", "", None, '"quoted"', "l1\nl2", "100%%"]


class C21(Check):
    id = "C21"
    keep = ("handlers",)
    quick_n = 14000
    thorough_n = 500000
    rule = "history with at least two validations of which one followed or met an injected failure"

    def gen(self, rng, tier):
        handlers = H.gen_handlers(rng)
        hops = [h["op"] for h in handlers]
        few = rng.random() < 0.6              # most options handled: verdicts of both kinds
        broken = rng.random() < 0.25
        names = rng.sample(hist.SECS, rng.randrange(1, 6)) if rng.random() < 0.94 else ["DEFAULT"]
        sets = []
        for _ in range(rng.choice([1, 1, 2])):
            files = {}
            for i in range(rng.choice([1, 1, 2])):
                sub = names if i == 0 else rng.sample(names, rng.randrange(1, len(names) + 1))
                ops = (hops or ["nohandler"]) * (3 if few else 1)
                files[f"s{len(sets)}f{i}.ini"] = self.sections(rng, sub, names, ops, few, broken)
            sets.append(files)
        hn = hops * 2 + ["generic", "generic", "initialize", "finalize"]
        seq = []
        for _ in range(rng.randrange(2, 8 if tier == "quick" else 14)):
            r = rng.random()
            if r < 0.3:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 0, 1, 2, 4]),
                                     "span": rng.choice([1, 1, 2]), "act": rng.choice(sorted(CALLBACK_ERRORS))}])
            elif r < 0.4:
                seq.append(["arm", L.gen_fault(rng, sorted(sets[0]), None, allow_change=False)])
            elif r < 0.45:
                seq.append(["arm", {"op": "stdout", "act": rng.choice(["EPIPE", "kbd"]), "nth": rng.choice([0, 1, 5]),
                                    "span": 1}])
            if rng.random() < 0.25:
                seq.append(["level", rng.randrange(0, 6)])
            if rng.random() < 0.1:
                seq.append(["files", rng.randrange(len(sets))])
            if rng.random() < 0.1:
                seq.append(["silent", rng.random() < 0.7])
            if rng.random() < 0.4:
                seq.append(["q", rng.choice([hist.gen_query(rng, names), ["export", None, True, rng.random() < 0.5]])])
            s = rng.choice(names + (["NOPE"] if rng.random() < 0.1 else []))
            seq.append(["v", rng.choice([["assert_sec", s, True], ["assert_sec", s, True], ["assert_sec", s, False],
                                         ["assert_file"], ["assert_file"]])])
            if rng.random() < 0.35:
                seq.append(["disarm"])
        seq.append(["disarm"])
        seq.append(["level", rng.choice([2, 3, 4])])
        seq.append(["v", ["assert_file"]])
        for s in names:
            seq.append(["v", ["assert_sec", s, rng.random() < 0.6]])
        return {"sets": sets, "handlers": handlers, "level": rng.choice([0, 2, 3, 4, 4, 5]), "ops": seq}

    def sections(self, rng, sub, names, ops, few, broken):
        if not few:
            return G.sections_text(rng, sub, ops, values=VALUES, keys=KEYS, targets=names, p_default=0.3,
                                   p_missing=0.12 if broken else 0, p_bad=0.04 if broken else 0)
        # only handled operations, and now and then one plain option
        lines = []
        for s in sub + (["DEFAULT"] if rng.random() < 0.3 else []):
            lines.append(G.header(s))
            used = set()
            for _ in range(rng.randrange(0, 4)):
                if rng.random() < 0.4:
                    key = G.use_key(rng, rng.choice(names))
                elif rng.random() < 0.2:
                    key = rng.choice(KEYS)
                else:
                    key = rng.choice(ops) + rng.choice(["", " a", " b c"])
                if key not in used:
                    used.add(key)
                    lines += G.option_lines(key, rng.choice(VALUES))
        return lines

    def run(self, case, w):
        cps = []
        for files in case["sets"]:
            hist.put_files(w, files)
            cp = M.try_load(hist.raw_bytes(files))
            if cp is None or not files:
                raise Inadmissible()
            cps.append(cp)
        if not cps:
            raise Inadmissible()
        p, sim = H.make_parser(w, case["handlers"], sorted(case["sets"][0]), level=case["level"])
        level, silent = case["level"], False
        mws = [A.MW(cp, sim.handled(), "DEFAULT", 4) for cp in cps]
        mw = mws[0]
        self.n = 0
        for op in case["ops"]:
            k = op[0]
            if k == "plan":
                sim.arm(op[1])
            elif k == "arm":
                w.arm(op[1])
            elif k == "disarm":
                sim.disarm()
                w.heal()
            elif k == "level":
                level = op[1]
                p.exception_control_level = level
            elif k == "silent":
                p.exception_control_silent_warnings = op[1]
            elif k == "files":
                if op[1] >= len(mws):
                    raise Inadmissible()
                p.inifilepath = [w.path(n) for n in sorted(case["sets"][op[1]])]
                mw = mws[op[1]]
            elif k == "q":
                w.call(A.perform, p, op[1])
                w.take_output()
            elif k == "v":
                q = op[1]
                f0, r0, i0 = len(sim.fired), len(sim.raised), w.fault_count()
                w.note("validate", *q)
                out = w.call(A.perform, p, q)
                printed = w.take_output()
                w.note("outcome", out.ok)
                w.probe("validation")
                if not out.ok:
                    w.probe("validation_raised")
                disturbed = len(sim.fired) > f0 or w.fault_count() > i0
                must_fail = 1 in sim.raised[r0:]
                if must_fail and out.ok:
                    raise Violation("failure-hidden", f"{q} returned {A.brief(out.value)} although a handler raised "
                                    "while it ran")
                if disturbed and not out.ok:
                    continue
                self.judge(q, out, printed, mw, level)

    def judge(self, q, out, printed, mw, level):
        secs = mw.names() if q[0] == "assert_file" else [q[1]]
        cont = {s: mw.content(s) for s in secs}
        cyc = level >= 5 and any(e[0] == "cycle" for s in secs if s in mw.names() for e in mw.walk.events(s))
        if any(c is A.FAIL for c in cont.values()):
            if out.ok:
                bad = [s for s in secs if cont[s] is A.FAIL]
                raise Violation("parse-failure-hidden", f"{q} returned {A.brief(out.value)} although {bad} cannot be "
                                "expanded")
            return
        if cyc and not out.ok:
            return                 # a cycle is an error at this level, unless it was reported before
        bad = sorted({k for c in cont.values() for k in c})
        raising = level >= 3 and (q[0] == "assert_file" or q[2])
        if not bad:
            if not out.ok or type(out.value) is not int or out.value != 0:
                raise Violation("valid-rejected", f"{q} gave {A.brief(repr(out))} although every option has a handler")
            return
        if raising:
            if out.ok:
                raise Violation("invalid-accepted", f"{q} at level {level} returned {A.brief(out.value)}; no handler "
                                f"for {bad}")
            if not isinstance(out.exc, ValueError):
                raise Violation("wrong-error", f"{q} at level {level} raised {out!r}; no handler for {bad}")
        else:
            if not out.ok:
                raise Violation("raised-below-level", f"{q} at level {level} raised {out!r}")
            if out.value == 0 or out.value is None:
                raise Violation("invalid-accepted", f"{q} at level {level} returned {out.value!r}; no handler for {bad}")
        text = printed + (str(out.exc) if not out.ok else str(out.value))
        miss = [k for k in bad if k not in text]
        if miss:
            raise Violation("not-named", f"{q} at level {level} does not name {miss} of {bad}: {A.brief(text, 900)}")
        if q[0] == "assert_sec" and not out.ok or q[0] == "assert_sec" and isinstance(out.value, str):
            msg = str(out.exc) if not out.ok else out.value
            extra = [k for k in KEYS if k in msg and k not in bad and not any(k in b for b in bad)]
            if extra:
                raise Violation("wrongly-named", f"{q} names {extra}, unhandled are {bad}")

    def nontrivial(self, case, w):
        return w.counts.get("probe.validation", 0) >= 2 and any(k.startswith("fault.") for k in w.counts)


CHECK = C21()
