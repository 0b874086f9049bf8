import itertools
from pathlib import Path

from .. import access as A
from .. import exports as E
from .. import harness as H
from .. import hist
from .. import inigen as G
from .. import loadcheck as L
from .. import model as M
from ..base import Check
from ..world import Violation, Inadmissible

NAMES = ["A", "B", "C"]
DELIMS = [["=", ":"], [":"], ["="], ["|"], [":", "|"], ["=>"], ["=", ":", "|"], ["=>", "|", ":", "="]]


def lines(rng, tag, delims, ops):
    """Content whose answers depend on the file version and on the delimiters."""
    if rng.random() < 0.07:         # nothing (yet)
        return rng.choice([[], ["# " + tag], ["", "; " + tag, ""]])
    out = []
    names = rng.sample(NAMES, rng.randrange(1, 4)) + (["DEFAULT"] if rng.random() < 0.25 else [])
    for s in names:
        out.append(f"[{s}]")
        for j in range(rng.randrange(1, 4)):
            k = rng.choice(["k1", "k2", "k3"] + ops) + (" x%d" % j)
            d = rng.choice(rng.choice([delims, ["=", ":"]]))
            out.append(f"{k} {d} {tag}-{s}-{j}")
        if rng.random() < 0.4:
            out.append(f"use {rng.choice(names)}")
    return out


class C08(Check):
    id = "C08"
    keep = ("handlers",)
    quick_n = 14000
    thorough_n = 500000
    rule = ("history in which files changed on disk, became unreadable, or the source was (validly or invalidly) "
            "reassigned, with queries before and after")

    def gen(self, rng, tier):
        if rng.random() < 0.3:
            return self.gen_senv(rng, tier)
        handlers = H.gen_handlers(rng, undeco=False)
        hops = [h["op"] for h in handlers]
        disk = ["a.ini", "b.ini", "d/c.ini"]
        tag = itertools.count()
        cur = rng.choice(DELIMS[:2] * 3 + DELIMS)
        ops = []
        for n in disk:
            ops.append(["put", n, lines(rng, "v%d" % next(tag), cur, hops)])
        ops.append(["delims", cur])
        ops.append(["files", rng.sample(disk, rng.choice([1, 1, 2, 3])), rng.choice(["str", "path"])])
        for _ in range(rng.randrange(2, 9 if tier == "quick" else 16)):
            r = rng.random()
            if r < 0.2:
                ops.append(["put", rng.choice(disk), lines(rng, "v%d" % next(tag), cur, hops)])
            elif r < 0.25:
                ops.append(["gone", rng.choice(disk), rng.choice(["drop", "dir", "garbage"])])
            elif r < 0.42:
                ops.append(["files", rng.sample(disk, rng.choice([1, 1, 2, 3])), rng.choice(["str", "path"])])
            elif r < 0.5:
                cur = rng.choice(DELIMS)
                ops.append(["delims", cur])
            elif r < 0.6:
                ops.append(["reject", rng.choice(["files", "delims"]),
                            rng.choice([["none"], ["int"], ["list_none"], ["list_int"], ["dict"]])])
            elif r < 0.68:
                ops.append(["arm", L.gen_fault(rng, disk, None, allow_change=False)])
            elif r < 0.73:
                ops.append(["heal"])
            elif r < 0.8:
                ops.append(["q", ["last"]])
            for _ in range(rng.randrange(1, 4)):
                s = rng.choice(NAMES)
                q = rng.choice([["raw"], ["get", s], ["items", s], ["item", s], ["has_opt", s, "k1 x0"], ["all"],
                                ["sections", True], ["sections", False], ["parse", s], ["len"], ["last"],
                                ["has_sec", s], ["export", rng.choice([None, s]), rng.random() < 0.5, True],
                                ["export", rng.choice([None, s]), rng.random() < 0.5, False],
                                ["write", s, True, rng.random() < 0.5]])
                ops.append(["q", q])
        ops += [["heal"], ["q", ["raw"]], ["q", ["all"]]]
        return {"mode": "parser", "handlers": handlers, "ops": ops}

    # ------------------------------------------------------------------ parser histories
    def run(self, case, w):
        if case["mode"] == "senv":
            return self.run_senv(case, w)
        p, sim = None, None
        cls = H.make_class(case["handlers"])
        handled = {h["op"] for h in case["handlers"]}
        plist, delims = None, ["=", ":"]
        loaded = None          # models of the load in force
        maybe = []             # contents that a failed access under a fault may have loaded
        parsed_since = False   # an access since the last assignment may have parsed something
        last = None

        p = cls()
        p._sim = sim = H.Sim(w, case["handlers"])

        def disk_models():
            bs = []
            for n in plist:
                b = w.get(n)
                if b is None:
                    return []
                bs.append(b)
            cp = M.try_load(bs, delims)
            return [A.MW(cp, handled)] if cp is not None else []

        for op in case["ops"]:
            k = op[0]
            if k == "put":
                w.drop(op[1])
                w.put(op[1], "\n".join(op[2]) + "\n")
                w.note("put", op[1])
                if loaded:
                    w.count("fault.disk.changed_after_load")
            elif k == "gone":
                w.drop(op[1])
                if op[2] == "dir":
                    L.place(w, op[1], {"dir": True})
                elif op[2] == "garbage":
                    w.put(op[1], b"\xff\xfe no header\n")
                w.count("fault.disk." + op[2])
            elif k == "arm":
                w.arm(op[1])
            elif k == "heal":
                w.heal()
            elif k in ("files", "delims"):
                if k == "files":
                    if not op[1]:
                        raise Inadmissible()
                    plist = list(op[1])
                    conv = Path if op[2] == "path" else str
                    arg = [conv(w.path(n)) for n in plist]
                    o = w.call(setattr, p, "inifilepath", arg if len(arg) > 1 else arg[0])
                else:
                    if not op[1]:
                        raise Inadmissible()
                    delims = list(op[1])
                    o = w.call(setattr, p, "configparser_delimiters", tuple(delims))
                w.note("assign", k)
                w.count("fault.source.assigned")
                if not o.ok:
                    raise Violation("assignment-failed", f"{op} raised {o!r}")
                loaded, maybe, last, parsed_since = None, [], None, False
            elif k == "reject":
                bad = {"none": None, "int": 5, "list_none": ["x.ini", None], "list_int": [3], "dict": {"a": 1}}
                if op[1] == "delims" and op[2][0] in ("list_none", "list_int"):
                    continue
                v = bad[op[2][0]]
                if isinstance(v, list) and v[0] == "x.ini":
                    v = [w.path("x.ini"), None]
                o = w.call(setattr, p, "inifilepath" if op[1] == "files" else "configparser_delimiters", v)
                w.take_output()
                w.note("reject", o.ok)
                w.count("fault.source.rejected")
                if o.ok:
                    raise Inadmissible()
            elif k == "q":
                q = op[1]
                if plist is None:
                    raise Inadmissible()
                if q[0] == "last":
                    o = w.call(lambda: p.parse_section_last_result)
                    self.judge_last(o, last, parsed_since)
                    continue
                i0 = w.fault_count()
                sim.take_events()
                w.note("query", *q)
                if q[0] == "parse":
                    res = w.call(p.parse_section, q[1])
                    out = type(res)(res.ok, None, res.exc)
                else:
                    res = out = w.call(A.perform, p, q)
                w.take_output()
                w.note("outcome", out.ok)
                faulty = w.fault_count() > i0
                now = disk_models()
                base_export = q[0] in ("export", "write") and q[3]
                if base_export:
                    # the base-class export reads the files itself: the load in force or what is on disk now
                    cands = list(loaded or []) + now + maybe
                    cands = [A.MW(c.cp, ()) for c in cands]
                    if faulty and not out.ok:
                        continue
                    if not out.ok and not now:
                        continue
                    if not cands or not any(E.export_same(q, c, out, delims) for c in cands):
                        raise Violation("stale-export", f"{q} gave {out!r}; the files now in force say "
                                        f"{A.brief([A.expect(['all'], c) for c in now])}")
                    continue
                cands = loaded if loaded is not None else now + maybe
                if loaded is None and faulty and not out.ok:
                    maybe = maybe + now
                    parsed_since = True
                    last = "unknown"
                    continue
                if loaded is None and not out.ok and not now:
                    parsed_since = True
                    last = "unknown"
                    continue
                fit = [c for c in cands if self.agrees(q, c, out, delims)]
                if not fit:
                    kind = "changed-between-assignments" if loaded is not None else "stale-answer"
                    raise Violation(kind, f"{q} gave {out!r}; " + ("the load in force says " if loaded else
                                                                   "the files and delimiters in force say ")
                                    + A.brief([A.expect(q, c) if q[0] not in ("export", "write") else
                                               A.expect(["all"], c) for c in cands]))
                loaded = fit
                if sim.events:
                    parsed_since = True
                    last = "unknown"
                if q[0] == "parse" and res.ok:
                    last = res.value
                    parsed_since = True

    def agrees(self, q, c, out, delims):
        if q[0] in ("export", "write"):
            return E.export_same(q, c, out, delims)
        return A.same(q, c, out)

    def judge_last(self, o, last, parsed_since):
        if not parsed_since:
            if o.ok and o.value not in (None, {}):
                raise Violation("stale-last-result", f"parse_section_last_result is {A.brief(o.value)} although nothing "
                                "was parsed since the source was assigned")
        elif last != "unknown" and last is not None:
            if not o.ok or o.value != last:
                raise Violation("wrong-last-result", f"parse_section_last_result is {o!r}, the last parse gave "
                                f"{A.brief(last)}")

    # ------------------------------------------------------------------ recorded environment actions
    def gen_senv(self, rng, tier):
        ops = []
        disk = ["a.ini", "b.ini"]
        tag = itertools.count()

        def content():
            out = []
            for s in rng.sample(NAMES, rng.randrange(1, 4)):
                out.append(f"[{s}]")
                for j in range(rng.choice([0, 1, 1, 2])):
                    d = rng.choice(["=", ":"])
                    out.append(f"envvar-set SIMV{j} {d} t{next(tag)}")
                if rng.random() < 0.3:
                    out.append(f"use {rng.choice(NAMES)}")
            return out

        for n in disk:
            ops.append(["put", n, content()])
        ops.append(["files", [rng.choice(disk)], "str"])
        for _ in range(rng.randrange(2, 8)):
            r = rng.random()
            if r < 0.25:
                ops.append(["put", rng.choice(disk), content()])
            elif r < 0.5:
                ops.append(["files", rng.sample(disk, rng.choice([1, 2])), "str"])
            elif r < 0.6:
                ops.append(["delims", rng.choice(DELIMS[:3])])
            elif r < 0.7:
                ops.append(["reject", "files", ["none"]])
            for _ in range(rng.randrange(1, 3)):
                ops.append(["do", rng.choice(["apply", "script", "parse", "print", "actions"]), rng.choice(NAMES)])
        return {"mode": "senv", "handlers": [], "ops": ops}

    def run_senv(self, case, w):
        import os
        from setenvironment import SetEnvironment
        p = SetEnvironment()
        plist, delims = None, ["=", ":"]
        loaded = None
        for op in case["ops"]:
            k = op[0]
            if k == "put":
                w.put(op[1], "\n".join(op[2]) + "\n")
                if loaded:
                    w.count("fault.disk.changed_after_load")
            elif k == "files":
                if not op[1]:
                    raise Inadmissible()
                plist = list(op[1])
                p.inifilepath = [w.path(n) for n in plist]
                loaded = None
                w.count("fault.source.assigned")
            elif k == "delims":
                if not op[1]:
                    raise Inadmissible()
                delims = list(op[1])
                p.configparser_delimiters = tuple(delims)
                loaded = None
                w.count("fault.source.assigned")
            elif k == "reject":
                w.call(setattr, p, "inifilepath", None)
                w.count("fault.source.rejected")
            else:
                if plist is None:
                    raise Inadmissible()
                what, s = op[1], op[2]
                if loaded is None:
                    bs = [w.get(n) for n in plist]
                    cp = None if None in bs else M.try_load(bs, delims)
                else:
                    cp = loaded
                want = self.actions_of(cp, s)
                w.note("do", what, s)
                for j in range(3):
                    os.environ.pop(f"SIMV{j}", None)
                if what == "apply":
                    out = w.call(p.apply, s)
                elif what == "script":
                    out = w.call(p.generate_actions_script, s, False, True, False, "python")
                elif what == "parse":
                    out = w.call(p.parse_section, s)
                elif what == "print":
                    out = w.call(p.pretty_print_actions, s)
                else:
                    out = w.call(lambda: dict(p.actions))
                w.take_output()
                w.note("outcome", out.ok)
                if what == "actions":
                    # whatever is recorded has to come from the configuration in force
                    if not out.ok:
                        raise Violation("actions", f"reading the recorded actions raised {out!r}")
                    for sec, acts in out.value.items():
                        if cp is None or not self.same_actions(acts, self.actions_of(cp, sec)):
                            raise Violation("stale-actions", f"recorded actions of [{sec}] are {A.brief(acts)}; the "
                                            f"files in force say {A.brief(self.actions_of(cp, sec))}")
                    continue
                if want is None:
                    if out.ok:
                        raise Violation("stale-actions", f"{what} of [{s}] succeeded with {A.brief(out.value)} although "
                                        "the files in force do not define it")
                    # an access may or may not have loaded the files
                    if cp is not None and loaded is None:
                        loaded = cp
                    continue
                loaded = cp
                if any(v is None for _, v in want) and what in ("apply", "script"):
                    if out.ok:
                        raise Violation("stale-actions", f"{what} of [{s}] succeeded although a value is missing")
                    continue
                if not out.ok:
                    raise Violation("failed", f"{what} of [{s}] raised {out!r}")
                if what == "apply":
                    env = {}
                    for n, v in want:
                        env[n] = v
                    got = {f"SIMV{j}": os.environ[f"SIMV{j}"] for j in range(3) if f"SIMV{j}" in os.environ}
                    if got != env:
                        raise Violation("stale-actions", f"applying [{s}] set {got}; the files in force say {env}")
                elif what == "script":
                    tags = [v for _, v in want]
                    import re
                    got = re.findall(r"\bt\d+\b", out.value)
                    if got != tags:
                        raise Violation("stale-actions", f"the script of [{s}] has the values {got}; the files in force "
                                        f"say {tags}")

    def actions_of(self, cp, s):
        """[(variable, value)] or None if the section cannot be expanded."""
        if cp is None:
            return None
        out = []
        for e in M.Walk(cp, {"envvar_set"}).events(s):
            if e[0] in ("missing", "bad"):
                return None
            if e[0] == "op":
                out.append((e[3][0] if e[3] else None, e[5]))
        return out

    def same_actions(self, acts, want):
        return want is not None and [(a.get("envvar"), a.get("value")) for a in acts] == want


CHECK = C08()
