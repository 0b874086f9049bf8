import io
import os

from .. import access as A
from .. import exports as E
from .. import harness as H
from .. import hist
from .. import inigen as G
from .. import loadcheck as L
from .. import model as M
from ..base import Check
from ..world import Violation, Inadmissible, CALLBACK_ERRORS

VALUES = ["v1", "v 2", "", None, '"quoted"', "a=b", "x:y", "100%%", "%%(k1)s", "50%% of %%", "v3 # hash", "ünï — ©",
          "l1\nl2", "a\n\nb", "m1\nm2\nm3", "$HOME ${X}", '"  pad "', '"   "', "; semi", "'single'", "=x", ":y", "|z",
          ">w", "a\tb", '"  m\nn  "', "[not a header]", "a\u2028b", "nb\u00a0sp", '"" twice ""', "x # y ; z", "\\", "a\\",
          '" "in" "', "0", "a|b => c", '"\tpad\t"', '"\u00a0nb"', "%%" * 12,
          '"pad\n"', '"pad\n\n \tx "']
KEYS = ["k1", "k2", "key four", "k-5", "k.6", "op1", "'q 1' x", "p/7", "-x", "é9", "[half", "K1", "op-two p 'q r'",
        "k=1", "k:1", "a|b", "100%", "%(x)s"]
DELIMS = [["=", ":"], ["=", ":"], [":"], ["="], ["|"], ["=", "|"], ["=>", "="], ["=", "=>"], [":", "="],
          ["=", ":", "|"], ["|", "=", "=>"]]


class Sink(io.TextIOBase):
    """A file object of the user's (a socket, a pipe, an upload): what it accepted is kept, and it may fail once
    it has accepted a given number of characters."""

    def __init__(self, w, fault):
        self.w = w
        self.fault = fault
        self.text = ""
        self.failed = False

    def writable(self):
        return True

    def write(self, s):
        self.w.steps += 1
        self.w.note("sink", len(s))
        f = self.fault
        if f and len(self.text) + len(s) > f["room"] and f["times"] > 0:
            f["times"] -= 1
            self.text += s[:f["room"] - len(self.text)] if len(self.text) < f["room"] and f["part"] else ""
            self.failed = True
            self.w.count("fault.sink." + f["act"])
            raise CALLBACK_ERRORS[f["act"]]("injected by the simulator")
        self.text += s
        return len(s)


class C10(Check):
    id = "C10"
    keep = ("handlers",)
    quick_n = 12000
    thorough_n = 400000
    rule = "history with an export during which a handler, the source files or the destination file failed"

    def gen(self, rng, tier):
        handlers = H.gen_handlers(rng)
        hops = [h["op"] for h in handlers]
        delims = rng.choice(DELIMS)
        names = rng.sample(["A", "B", "C", "SEC D", "e-5"], rng.randrange(1, 5))
        interp = rng.random() < 0.15
        values = VALUES + (["%(k1)s"] if interp else [])
        if rng.random() < 0.06:
            n = rng.choice([100, 900, 4095, 9000, 70000])
            values = values + ["w" * n, "%% " * (n // 8) + "e", "\n".join(["line", "a=b", "[c]"] * min(n // 3, 700)), "ü" * n] * 2
        files = {}
        for i in range(rng.choice([1, 1, 2])):
            sub = names if i == 0 else rng.sample(names, rng.randrange(1, len(names) + 1))
            files[f"f{i}.ini"] = G.sections_text(rng, sub, hops + ["op1"], delims, values=values, keys=KEYS,
                                                 p_missing=0.05 if rng.random() < 0.2 else 0, p_default=0.35,
                                                 targets=names, max_opts=6)
        if rng.random() < 0.03:
            # a text as long as the usual sizes of buffers and chunks
            n = rng.choice([1024, 4096, 8192, 16384, 65536]) - rng.randrange(0, 24)
            files = {"f0.ini": [f"[{names[0]}]", f"k1 {delims[0]} " + "w" * n]}
        hn = hops * 2 + ["generic", "generic", "initialize", "finalize"]
        seq = []
        for _ in range(rng.randrange(1, 5)):
            r = rng.random()
            if r < 0.2:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 0, 1, 2, 4]),
                                     "act": rng.choice(sorted(CALLBACK_ERRORS))}])
            elif r < 0.3:
                seq.append(["arm", L.gen_fault(rng, sorted(files), None, allow_change=False)])
            elif r < 0.65:
                f = {"op": rng.choice(["write", "write", "write", "close"]), "path": "out.ini",
                     "act": rng.choice(["ENOSPC", "EIO", "EDQUOT", "kbd", "torn", "short", "short", "EINTR"]),
                     "nth": rng.choice([0, 0, 1, 2]), "span": rng.choice([1, 1, 3]), "n": rng.randrange(0, 200)}
                if f["op"] == "close" and f["act"] in ("torn", "short"):
                    f["act"] = "EIO"
                seq.append(["arm", f])
            elif r < 0.7:
                seq.append(["level", rng.choice([0, 1, 3, 5])])
            if rng.random() < 0.3:
                seq.append(["q", hist.gen_query(rng, names)])
            s = rng.choice([None, None, rng.choice(names), rng.choice(names), "NOPE"])
            base = rng.random() < 0.5
            space = rng.random() < 0.6
            if rng.random() < 0.2:
                fault = {"act": rng.choice(["os", "os", "val", "kbd", "mem"]), "room": rng.choice([0, 0, 10, 60, 300]),
                         "times": rng.choice([1, 1, 9]), "part": rng.random() < 0.5}
                seq.append(["sink", ["write", s, space, base], fault if rng.random() < 0.8 else None])
            elif rng.random() < 0.5:
                seq.append(["file", ["write", s, space, base], rng.choice([-1, -1, 16, 64, 1])])
            else:
                seq.append(["x", [rng.choice(["export", "write"]), s, space, base]])
            if rng.random() < 0.5:
                seq.append(["disarm"])
        seq.append(["disarm"])
        seq.append(["level", 4])
        seq.append(["x", ["export", None, True, rng.random() < 0.5]])
        seq.append(["file", ["write", None, True, rng.random() < 0.5], -1])
        return {"files": files, "handlers": handlers, "delims": delims, "ops": seq, "level": rng.choice([0, 1, 2, 3, 4, 4, 4, 5]),
                "default": rng.choice(names + ["ABSENT"]) if rng.random() < 0.25 else "DEFAULT",
                "chunk": rng.choice([None, None, 1, 5, 40])}

    def run(self, case, w):
        hist.put_files(w, case["files"])
        order = sorted(case["files"])
        delims = case["delims"]
        cp = M.try_load(hist.raw_bytes(case["files"], order), delims) if delims else None
        if cp is None:
            raise Inadmissible()
        p, sim = H.make_parser(w, case["handlers"], order)
        p.configparser_delimiters = tuple(delims)
        p.exception_control_level = case["level"]
        dflt = case["default"]
        if dflt != "DEFAULT":
            p.default_section_name = dflt
        sub = A.MW(cp, sim.handled(), dflt, 0)
        base = A.MW(cp, (), dflt, 0)
        for s in cp.sections():
            c = base.content(s)
            if c is not A.FAIL:
                for v in c.values():
                    if v and "%(" in v and "\n" in v:
                        raise Inadmissible()
        for op in case["ops"]:
            k = op[0]
            if k == "plan":
                sim.arm(op[1])
            elif k == "arm":
                w.arm(op[1])
            elif k == "disarm":
                sim.disarm()
                w.heal()
            elif k == "level":
                p.exception_control_level = op[1]
            elif k == "q":
                w.call(A.perform, p, op[1])
                w.take_output()
            elif k == "x":
                f0, i0 = len(sim.fired), w.fault_count()
                w.note("export", *op[1])
                out = w.call(A.perform, p, op[1])
                w.take_output()
                w.note("outcome", out.ok)
                self.judge(op[1], out, base if op[1][3] else sub, delims,
                           len(sim.fired) > f0 or w.fault_count() > i0, w)
            elif k == "sink":
                self.to_sink(p, sim, op, base if op[1][3] else sub, delims, w)
            elif k == "file":
                self.to_file(p, sim, op, base if op[1][3] else sub, delims, w, case)

    def judge(self, q, out, mw, delims, disturbed, w):
        if disturbed and not out.ok:
            w.probe("failed_export")
            return
        if not E.export_same(q, mw, out, delims):
            raise Violation("export-differs", f"{q} with delimiters {delims} gave {A.brief(repr(out), 700)}; queries say "
                            f"{A.brief({s: mw.content(s) for s in (mw.names() if q[1] is None else [q[1]])})}, loading the "
                            f"text gives {A.brief(E.content_of_text(out.value, delims) if out.ok else None)}")

    def to_sink(self, p, sim, op, mw, delims, w):
        q = op[1]
        f = Sink(w, dict(op[2]) if op[2] else None)
        f0, i0 = len(sim.fired), w.fault_count()
        w.note("write", *q)
        out = w.call(p.write, f, space_around_delimiters=q[2], section=q[1], use_base_class_parser=q[3])
        w.take_output()
        w.note("outcome", out.ok)
        if out.ok:
            if out.value != 0:
                raise Violation("write-status", f"{q} returned {out.value!r}")
            if not E.export_same(q, mw, type(out)(True, f.text), delims):
                raise Violation("truncated-success", f"{q} reported success but the file object was given "
                                f"{A.brief(f.text)}" + (" (it failed once)" if f.failed else ""))
            w.probe("written")
            return
        w.probe("failed_export")
        if not f.failed:
            self.judge(q, out, mw, delims, len(sim.fired) > f0 or w.fault_count() > i0, w)
            if f.text:
                raise Violation("partial-file", f"{q} could not be generated ({out!r}) but the file object was given "
                                f"{A.brief(f.text)}")

    def to_file(self, p, sim, op, mw, delims, w, case):
        q = op[1]
        w.drop("out.ini")
        w.chunk = None
        f = None
        f0, i0 = len(sim.fired), w.fault_count()
        try:
            f = open(w.path("out.ini"), "w", buffering=op[2], encoding="utf-8", newline="\n")
        except (OSError, KeyboardInterrupt):
            return
        w.note("write", *q)
        w.chunk = case.get("chunk")
        out = w.call(p.write, f, space_around_delimiters=q[2], section=q[1], use_base_class_parser=q[3])
        w.take_output()
        if out.ok and out.value != 0:
            raise Violation("write-status", f"{q} returned {out.value!r}")
        i1 = w.fault_count()
        gen_failed = not out.ok and len(sim.fired) > f0
        cl = w.call(f.close)
        w.note("outcome", out.ok, cl.ok)
        w.chunk = None
        w.heal()
        # release the descriptor whatever happened
        try:
            f.detach().detach().close()
        except Exception:
            pass
        data = w.get("out.ini")
        disturbed = len(sim.fired) > f0 or i1 > i0
        if out.ok and cl.ok:
            text = type(out)(True, data.decode("utf-8"))
            if not E.export_same(q, mw, text, delims):
                raise Violation("truncated-success", f"{q} and close reported success but the file holds "
                                f"{A.brief(data)}; queries say "
                                f"{A.brief({s: mw.content(s) for s in (mw.names() if q[1] is None else [q[1]])})}")
            w.probe("written")
            return
        w.probe("failed_export")
        if not out.ok and not disturbed:
            if E.export_same(q, mw, type(out)(False, None, out.exc), delims):
                if data:
                    raise Violation("partial-file", f"{q} could not be generated but the file holds {A.brief(data)}")
                return
            raise Violation("write-failed", f"{q} raised {out!r} without any fault")
        if gen_failed and i1 == i0 and data:
            raise Violation("partial-file", f"{q} could not be generated ({out!r}) but the file holds {A.brief(data)}")
        # a prefix of the text
        saved = sim.plans
        sim.plans = []
        full = w.call(A.perform, p, ["export"] + q[1:])
        sim.plans = saved
        w.take_output()
        if full.ok and not full.value.encode("utf-8").startswith(data):
            raise Violation("not-a-prefix", f"after {out!r}/{cl!r} the file holds {A.brief(data)}, the text is "
                            f"{A.brief(full.value)}")


CHECK = C10()
