from .. import access as A
from .. import harness as H
from .. import hist
from .. import target
from ..visits import Visits
from ..world import Violation, CALLBACK_ERRORS

REQ = {"SILENT": 5, "WARNING": 5, "MINOR": 4, "SERIOUS": 3, "CRITICAL": 2, "CATASTROPHIC": 0}
EXC = {"ValueError": ValueError, "RuntimeError": RuntimeError, "KeyError": KeyError, "OSError": OSError,
       "Exception": Exception, "TypeError": TypeError, "StopIteration": StopIteration,
       "ZeroDivisionError": ZeroDivisionError, "KeyboardInterrupt": KeyboardInterrupt,
       "SystemExit": SystemExit, "BaseException": BaseException}
LEVELS = [0, 1, 2, 3, 4, 5]


class C07(Visits):
    id = "C07"
    quick_n = 16000
    thorough_n = 500000
    rule = ("history in which an event (direct, handler return code, ambiguous handler, cycle) happened after or during "
            "a change of the exception control level")
    real = Visits.real

    def gen(self, rng, tier):
        if rng.random() < 0.35:
            return {"mode": "direct", "ops": self.gen_direct(rng)}
        handlers = H.gen_handlers(rng, ambiguous=True)
        ops = [h["op"] for h in handlers] * 2 + ["op1", "nohandler"]
        files, names = hist.gen_ini(rng, ops, 1, p_cycle=0.3, p_default=0.3, nmax=4)
        hn = [h["op"] for h in handlers] * 3 + ["generic", "initialize", "finalize"]
        seq = []
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r < 0.35:
                seq.append(["level", rng.choice(LEVELS)])
            if rng.random() < 0.2:
                seq.append(["silent", rng.random() < 0.5])
            if rng.random() < 0.15:
                seq.append(["compact", rng.random() < 0.5])
            if rng.random() < 0.5:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 0, 1, 2]), "span": rng.choice([1, 1, 3]),
                                     "act": "ret", "rc": rng.choice([0, 1, 5, 10, 11, 12, 99, -1, -20, None, "0",
                                                                     True, 3.5])}])
            if rng.random() < 0.3:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 0, 1, 2]), "act": "level",
                                     "level": rng.choice(LEVELS)}])
            if rng.random() < 0.15:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1, 2]),
                                     "act": rng.choice(sorted(CALLBACK_ERRORS))}])
            s = rng.choice(names)
            for _ in range(rng.randrange(1, 3)):
                seq.append(["q", rng.choice([["parse", s, True, True], ["parse", s, True, True], ["get", s],
                                             ["items", s], ["sections", "force"], ["parse_all"]])])
            if rng.random() < 0.5:
                seq.append(["disarm"])
        return {"mode": "parser", "files": files, "handlers": handlers, "default": "DEFAULT",
                "level": rng.choice(LEVELS), "ops": seq}

    def gen_direct(self, rng):
        ops = []
        for _ in range(rng.randrange(1, 14)):
            r = rng.random()
            if r < 0.25:
                ops.append(["level", rng.choice([-3, 0, 1, 2, 3, 4, 5, 9, "3", 2.9, True])])
            elif r < 0.33:
                ops.append(["silent", rng.choice([True, False])])
            elif r < 0.4:
                ops.append(["compact", rng.choice([True, False])])
            elif r < 0.48:
                ops.append(["bad", rng.choice(["level", "silent", "compact"]), rng.choice(["x", None, [1]])])
            else:
                ops.append(["event", rng.choice(sorted(REQ) + ["warning", "Serious"]), rng.choice(sorted(EXC)),
                            rng.choice([None, "msg", "", "line1\nline2", "é%s{}"])])
        return ops

    def run(self, case, w):
        if case["mode"] == "parser":
            super().run(case, w)
            return
        EC = target.cpe().ExceptionControl
        obj = type("Holder", (EC,), {})()
        level, silent = 4, False
        for op in case["ops"]:
            w.steps += 1
            w.note(*op)
            if op[0] == "level":
                obj.exception_control_level = op[1]
                level = min(5, max(0, int(op[1])))
                w.count("fault.level.change")
            elif op[0] == "silent":
                obj.exception_control_silent_warnings = op[1]
                silent = op[1]
            elif op[0] == "compact":
                obj.exception_control_compact_warnings = op[1]
            elif op[0] == "bad":
                name = {"level": "exception_control_level", "silent": "exception_control_silent_warnings",
                        "compact": "exception_control_compact_warnings"}[op[1]]
                o = w.call(setattr, obj, name, op[2])
                if o.ok:
                    raise Violation("bad-setting", f"{name} accepted {op[2]!r}")
                w.count("fault.setting.rejected")
            else:
                w.take_output()
                o = w.call(obj.exception_control_event, op[1], EXC[op[2]], op[3])
                printed = w.take_output()
                ev = op[1].upper()
                self.judge_event(op, ev, o, printed, level, silent)
            if obj.exception_control_level != level or obj.exception_control_silent_warnings != silent:
                raise Violation("setting-changed", f"after {op} level={obj.exception_control_level} silent="
                                f"{obj.exception_control_silent_warnings}, set were {level}, {silent}")

    def judge_event(self, op, ev, o, printed, level, silent):
        if level >= REQ[ev]:
            if o.ok or type(o.exc) is not EXC[op[2]]:
                raise Violation("not-raised", f"{op} at level {level}: {o!r}")
            if op[3] and op[3] not in str(o.exc) and repr(op[3]) not in str(o.exc):
                raise Violation("message-lost", f"{op} at level {level}: {o!r}")
        else:
            if not o.ok:
                raise Violation("raised", f"{op} at level {level}: {o!r}")
            want = level > 0 and not silent and ev != "SILENT"
            if want != bool(printed.strip()):
                raise Violation("warning", f"{op} at level {level} silent={silent} printed {A.brief(printed, 100)}")

    def after(self, q, out, printed, st, silent, case, io_fault):
        warned = st.get("warned", 0)
        stop = st.get("stop")
        w = st["w"]
        if warned:
            w.probe("warned")
        if bool(printed.strip()) != (warned > 0 and not silent):
            raise Violation("warning", f"{q} (silent={silent}, level now {st['level']}) met {warned} events that were "
                            f"not raised and printed {A.brief(printed, 120)}")
        if not out.ok and stop:
            want = {"cycle at level 5": ValueError, "ambiguous": target.cpe().AmbiguousHandlerError,
                    "return code": RuntimeError, "return type": TypeError}.get(stop)
            w.probe("raised." + stop.replace(" ", "_"))
            if want is not None and not isinstance(out.exc, want):
                raise Violation("wrong-exception", f"{q}: {stop} raised {out!r} instead of {want.__name__}")
        if out.ok and q[0] in ("get", "items"):
            mw = A.MW(st["cp"], st["kinds"], st["default"], 0)
            if not A.same(q, mw, out):
                raise Violation("event-changed-result", f"{q} gave {out!r}, without events it is "
                                f"{A.brief(A.expect(q, mw))}")

    def nontrivial(self, case, w):
        return any(k.startswith("fault.") or k.startswith("probe.warned") or k.startswith("probe.raised")
                   for k in w.counts)


CHECK = C07()
