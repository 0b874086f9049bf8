"""Independent objects used by different threads, under interleavings decided line by line."""
import gc
import io
import os
import re
import sys
import _thread

from .. import access as A
from .. import harness as H
from .. import hist
from .. import inigen as G
from .. import threads as T
from ..base import Check
from ..target import cpe, parser_class
from ..world import Violation, Inadmissible, CALLBACK_ERRORS, REAL
from ..procs import SimPopen
from . import c17, c18
from .c12 import dec, gen_value, frozen

ADDR = re.compile(r"0x[0-9a-f]+")
SE_LINES = ["envvar-set FOO : v1", "envvar-append FOO : ${BAR}/x", "envvar-prepend PATHS : /p q", "envvar-unset BAR",
            "envvar-remove FOO", "module-load gcc : 1.2", "module-purge", "module-swap gcc : gcc/2", "module-remove gcc",
            "envvar-remove-substr FOO : a", "envvar-set-if-empty BAZ : it's", "module-use : /some/where", "module-load boost"]


AP_LINES = ["envvar-set T#A : v1", "envvar-append T#A : ${T#B}/x", "envvar-prepend T#B : /p q", "envvar-unset T#B",
            "envvar-remove T#A", "module-load mod# : 1.2", "module-load bad#", "module-swap mod# : mod#/2", "module-use : /u/mod#",
            "envvar-remove-substr T#A : v", "envvar-set-if-empty T#C : it's", "module-load loud# : 3", "module-unload mod#",
            "envvar-find-in-path T#C : modulecmd", "envvar-remove-path-entry T#B : b", "envvar-assert-not-empty T#A : no T#A"]
EVENTS = ["SILENT", "WARNING", "MINOR", "SERIOUS", "CRITICAL", "CATASTROPHIC"]
EXCS = {"ValueError": ValueError, "KeyError": KeyError, "RuntimeError": RuntimeError, "OSError": OSError}
OWNER = re.compile(r"(mod|bad|loud)(\d)")


def module_process(w, cmd, a, kw):
    """What a module command does depends only on its own arguments."""
    if isinstance(cmd, str) or kw.get("shell"):
        return SimPopen(w, cmd, {"rc": 1, "err": "type: module: not found"}, kw)
    words = " ".join(os.fspath(c) for c in cmd[2:])
    m = OWNER.search(words)
    if m is None or m.group(1) == "bad":
        return SimPopen(w, cmd, {"rc": 1, "err": f"no {words}"}, kw)
    out = f"import os\nos.environ['T{m.group(2)}M'] = os.environ.get('T{m.group(2)}M', '') + '<{words}>'\n"
    if m.group(1) == "loud":
        out += "_mlstatus = False\n"
    return SimPopen(w, cmd, {"rc": 0, "out": out}, kw)


class ThreadOut(io.TextIOBase):
    """One stdout per thread."""

    def __init__(self):
        self.bufs = {}

    def write(self, s):
        self.bufs.setdefault(_thread.get_ident(), []).append(s)
        return len(s)

    def flush(self):
        pass

    def take(self):
        return "".join(self.bufs.pop(_thread.get_ident(), []))


class TW:
    """The part of the world that one simulated thread sees."""

    def __init__(self, w):
        self.w = w
        self.log = []
        self.steps = 0
        self.counts = {}

    def note(self, *e):
        self.log.append(e)

    def count(self, n, k=1):
        self.counts[n] = self.counts.get(n, 0) + k

    def fault_count(self):
        return 0

    def call(self, fn, *a, **k):
        return self.w.call(fn, *a, **k)

    def path(self, n):
        return self.w.path(n)


class C11(Check):
    id = "C11"
    keep = ("handlers", "handlers2", "props")
    quick_n = 4800
    thorough_n = 90000
    quick_wall = 120.0
    rule = "at least two threads and at least five switches inside the code under test"
    real = ["configparserenhanced", "setenvironment script generation and apply", "CPython threads (one runs at a time)"]
    stub = ["thread scheduler (baton, explicit schedule)", "modulecmd processes", "per-thread stdout", "user handlers and callbacks"]
    assumptions = Check.assumptions[:1] + [
        "switches happen at line boundaries (in a quarter of the runs at bytecode boundaries) of files under /repo; "
        "standard library code runs without a switch",
        "free-threaded (no GIL) execution is not modelled"]

    def gen(self, rng, tier):
        handlers = H.gen_handlers(rng)
        hops = [h["op"] for h in handlers] + ["op1"]
        files = {}
        names = rng.sample(hist.SECS, rng.randrange(2, 5))
        shared = rng.random() < 0.5
        nth = rng.choice([2, 2, 2, 3])
        props = {n: {"types": ["i", "s", "l", "d"], "default": rng.choice([["l", []], ["d", {}], ["s", "dflt"]]),
                     "conv": rng.choice([None, None, "str"]), "valid": rng.choice([None, "short"]),
                     "trans": rng.choice([None, "same", "dup"])}
                 for n in ("alpha", "beta")}
        hn = [h["op"] for h in handlers] * 2 + ["generic", "initialize", "finalize"]
        threads = []
        kind0 = rng.choice(["parser"] * 4 + ["prop", "prop", "se", "se", "apply", "apply", "mixed", "event", "kw", "ds"])
        for t in range(nth):
            kind = rng.choice(["parser", "prop", "se", "apply", "event", "kw", "ds"]) if kind0 == "mixed" else kind0
            ops = []
            if kind == "parser":
                fn = "f.ini" if shared else f"f{t}.ini"
                if fn not in files:
                    files[fn] = G.sections_text(rng, names, hops, targets=names, max_opts=3, p_default=0.4,
                                                p_missing=0.03)
                if rng.random() < 0.3:
                    ops.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1, 2]),
                                         "act": rng.choice(sorted(CALLBACK_ERRORS) + ["query"]), "ops": [["get", names[0]]]}])
                for _ in range(rng.randrange(1, 4)):
                    r = rng.random()
                    if r < 0.15:
                        ops.append(["level", rng.randrange(0, 6)])
                    elif r < 0.2:
                        ops.append(["dbg", rng.choice([1, 5])])
                    elif r < 0.25:
                        ops.append(["default", rng.choice(names)])
                    elif r < 0.3:
                        ops.append(["compact", True])
                    ops.append(["q", rng.choice([hist.gen_query(rng, names), ["get", rng.choice(names)], ["get", f"GONE {t}"],
                                                 ["all"], ["export", None, True, rng.random() < 0.5],
                                                 ["assert_sec", rng.choice(names), True], ["assert_sec", rng.choice(names), True], ["assert_file"],
                                                 ["parse", rng.choice(names)]])])
                if rng.random() < 0.3:
                    ops.append(["set", rng.choice(names), "k1", f"user{t}"])
                    ops.append(["q", ["get", rng.choice(names)]])
                threads.append({"kind": kind, "file": fn, "base": rng.random() < 0.25, "alt": rng.random() < 0.3, "ops": ops})
            elif kind == "prop":
                for _ in range(rng.randrange(2, 8)):
                    n = rng.choice(["alpha", "beta"])
                    r = rng.random()
                    if r < 0.45:
                        ops.append(["set", n, gen_value(rng)])
                    elif r < 0.75:
                        ops.append(["get", n])
                    elif r < 0.85:
                        ops.append(["del", n])
                    else:
                        ops.append(["mut", n, t])
                ops += [["get", "alpha"], ["get", "beta"]]
                threads.append({"kind": kind, "hp": rng.random() < 0.2, "ops": ops})
            elif kind == "event":
                for _ in range(rng.randrange(2, 7)):
                    r = rng.random()
                    if r < 0.3:
                        ops.append(["level", rng.randrange(0, 6)])
                    elif r < 0.4:
                        ops.append([rng.choice(["silent", "compact"]), rng.random() < 0.5])
                    elif r < 0.5:
                        ops.append(["dbg", rng.randrange(0, 4)])
                    ops.append(["msg", rng.randrange(0, 4), f"text {t}"] if rng.random() < 0.25 else
                               ["event", rng.choice(EVENTS), rng.choice(sorted(EXCS)), rng.choice([None, f"message {t}", f"two\nlines {t}"])])
                threads.append({"kind": kind, "ops": ops})
            elif kind == "kw":
                fn = "flags.ini" if shared else f"flags{t}.ini"
                if fn not in files:
                    files[fn] = c18.gen_flags(rng, 0.2)
                for _ in range(rng.randrange(2, 6)):
                    if rng.random() < 0.4:
                        ops.append(["build", c18.gen_build(rng)])
                    ops.append(rng.choice([["options"], ["string"], ["string"], ["default", rng.choice(c18.OPTIONS)],
                                           ["key", rng.choice(c18.OPTIONS)], ["show"]]))
                threads.append({"kind": kind, "file": fn, "build": c18.gen_build(rng), "ops": ops})
            elif kind == "ds":
                fn = "systems.ini" if shared else f"systems{t}.ini"
                if fn not in files:
                    files[fn] = c17.gen_file(rng)
                for _ in range(rng.randrange(1, 4)):
                    ops.append([rng.choice(["name", "name", "names"])])
                threads.append({"kind": kind, "file": fn, "build": rng.choice(c17.BUILDS), "force": rng.random() < 0.4,
                                "silent": rng.random() < 0.3, "ops": ops})
            elif kind == "apply":
                fn = f"ap{t}.ini"
                lines = []
                for s in names:
                    lines.append(f"[{s}]")
                    if rng.random() < 0.3:
                        lines.append(G.use_key(rng, rng.choice(names)))
                    lines += [x.replace("#", str(t)) for x in rng.sample(AP_LINES, rng.randrange(1, 6))]
                    if rng.random() < 0.5:
                        lines.append(f"module-load bad{t} : 9")
                files[fn] = lines
                for _ in range(rng.randrange(1, 4)):
                    if rng.random() < 0.6:
                        ops.append(["level", rng.choice([0, 1, 1, 2, 3, 5])])
                    ops.append(["apply", rng.choice(names)])
                    if rng.random() < 0.3:
                        ops.append(["body", rng.choice(names), "python"])
                threads.append({"kind": kind, "file": fn, "me": t, "ops": ops})
            else:
                fn = "se.ini" if shared else f"se{t}.ini"
                if fn not in files:
                    lines = []
                    for s in names:
                        lines.append(f"[{s}]")
                        if rng.random() < 0.4:
                            lines.append(G.use_key(rng, rng.choice(names)))
                        lines += rng.sample(SE_LINES, rng.randrange(1, 6))
                    files[fn] = lines
                for _ in range(rng.randrange(1, 4)):
                    s = rng.choice(names + [f"GONE {t}"])
                    ops.append(rng.choice([["script", s, "bash"], ["script", s, "python"], ["body", s, "bash"],
                                           ["print", s], ["actions", s], ["setenv", s, f"x{t}"]]))
                threads.append({"kind": kind, "file": fn, "ops": ops})
        if rng.random() < 0.3:      # all threads meet the same kind of error
            for t, th in enumerate(threads):
                gone = {"parser": ["q", ["get", f"GONE {t}"]], "se": ["script", f"GONE {t}", "bash"], "apply": ["apply", f"GONE {t}"],
                        "event": ["event", "CRITICAL", "ValueError", f"message {t}"], "kw": ["key", f"gone-{t}"]}.get(th["kind"])
                if gone:
                    for _ in range(rng.choice([1, 2])):
                        th["ops"].insert(rng.randrange(len(th["ops"]) + 1), gone)
        opc = rng.random() < 0.25
        x = 4 if opc else 1
        sched = []
        aim = None
        if rng.random() < 0.45 and not opc:
            mod = rng.choice([5, 10, 20, 50, 100, 200])
            aim = [mod, rng.randrange(mod), rng.randrange(1000)]
            sched = [[rng.randrange(1, 3000), rng.randrange(nth)] for _ in range(rng.choice([0, 0, 1, 3]))]
        elif rng.random() < 0.5:
            mean = rng.choice([2, 4, 10, 30, 100, 400])
            sched = [[max(1, int(rng.expovariate(1.0 / (mean * x)))), rng.randrange(nth)]
                     for _ in range(rng.choice([20, 100, 300]))]
        else:
            # long stretches in every thread, then bursts of short slices, so that bursts also happen late in a run
            total = rng.choice([500, 3000, 12000]) * x
            while sum(n for n, _ in sched) < total and len(sched) < 500:
                for t in rng.sample(range(nth), nth):
                    sched.append([rng.randrange(1, rng.choice([60, 400, 2500]) * x), t])
                mean = rng.choice([1, 2, 5])
                for _ in range(rng.randrange(5, 80)):
                    sched.append([max(1, int(rng.expovariate(1.0 / (mean * x)))), rng.randrange(nth)])
        return {"files": files, "host": rng.choice(c17.HOSTS), "handlers": handlers, "handlers2": H.gen_handlers(rng), "props": props, "threads": threads, "sched": sched, "opcodes": opc,
                "aim": aim}

    def environ(self, case, w):
        env = dict(os.environ, PATH=w.path("bin"))
        for t in range(3):
            env.update({f"T{t}A": "a:v:b", f"T{t}B": "b:c"})
        return env

    def run(self, case, w):
        w.procs = module_process
        w.hostname = case["host"]
        w.put("bin/modulecmd", "#!/bin/false\n")
        with w:
            os.chmod(w.path("bin/modulecmd"), 0o755)
        for n in sorted(case["files"]):
            w.put(n, "\n".join(case["files"][n]) + "\n")
        if any(len(x) != 2 for x in case["sched"]) or case["aim"] is not None and len(case["aim"]) != 3:
            raise Inadmissible()
        self.imports()
        n = len(case["threads"])
        solo = []
        for t in range(n):
            solo.append(T.isolated(lambda: self.simulate(case, w, [t], [], False, None))[0][0])
        res, info = T.isolated(lambda: self.simulate(case, w, list(range(n)), case["sched"], case["opcodes"],
                                                        case["aim"]))
        w.steps += info["points"]
        w.log += [tuple(x) for x in info["trail"]]
        w.count("fault.preemption", info["switches"]) if info["switches"] else None
        for t in range(n):
            for k, c in res[t]["counts"].items():
                w.count(k, c)
            w.log.append(("thread", t, res[t]["log"]))
        if info["switches"] >= 5 and n >= 2:
            w.probe("interleaved")
        for t in range(n):
            a, b = solo[t]["results"], res[t]["results"]
            if a != b:
                i = next((i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1]), 0)
                raise Violation("interference", f"thread {t} ({case['threads'][t]['kind']}) alone: "
                                f"{A.brief(a[i:i + 1], 700)}; next to the others: {A.brief(b[i:i + 1], 700)}")

    def imports(self):
        T.install_locks()          # before the code under test is imported
        cpe()
        import setenvironment      # noqa: prints a notice when imported without modules
        import determinesystem     # noqa
        c18.ckp_class()
        import json                # used lazily by the code under test
        import pprint              # noqa
        try:
            import distutils.spawn     # noqa
        except ImportError:
            pass

    # ------------------------------------------------------------------ inside the isolated child
    def simulate(self, case, w, which, sched, opcodes, aim):
        gc.disable()
        out = ThreadOut()
        sys.stdout = sys.stderr = out
        # classes are made once: all threads share them
        cls = [H.make_class(case["handlers"]), H.make_class(case["handlers2"])]
        holder = self.make_holder(case["props"])
        tws = {t: TW(w) for t in which}
        results = {t: [] for t in which}
        broken = []
        kinds = {"parser": self.t_parser, "prop": self.t_prop, "se": self.t_se, "apply": self.t_se,
                 "event": self.t_event, "kw": self.t_kw, "ds": self.t_ds}

        def body(t):
            th = case["threads"][t]

            def rec(op, fn):
                o = w.call(fn)
                if o.ok:
                    r = ("ok", o.value)
                else:
                    r = ("raised", type(o.exc).__name__, str(o.exc))
                results[t].append(ADDR.sub("0x", repr((op, r, out.take()))))

            def f():
                try:
                    kinds[th["kind"]](th, tws[t], rec, cls, holder)
                except Exception as ex:
                    broken.append(ex)
            return f

        s = T.Sched([x for x in sched], opcodes, aim)
        s.run([body(t) for t in which])
        sys.stdout = REAL["stdout"]
        sys.stderr = REAL["stderr"]
        if broken:
            raise broken[0]
        return ([{"results": results[t], "log": tws[t].log, "counts": tws[t].counts} for t in which],
                {"points": s.points, "switches": s.switches, "trail": s.trail})

    def t_parser(self, th, tw, rec, cls, holder):
        sim = H.Sim(tw, [])
        st = {}

        def make():
            p = parser_class()() if th["base"] else cls[th["alt"]]()
            p._sim = sim
            p.inifilepath = [tw.path(th["file"])]
            st["p"] = p
        rec("make", make)
        if "p" not in st:
            return
        p = st["p"]
        for op in th["ops"]:
            k = op[0]
            if k == "plan":
                sim.arm(op[1])
            elif k == "level":
                rec(op, lambda: setattr(p, "exception_control_level", op[1]))
            elif k == "dbg":
                rec(op, lambda: setattr(p, "debug_level", op[1]))
            elif k == "default":
                rec(op, lambda: setattr(p, "default_section_name", op[1]))
            elif k == "compact":
                rec(op, lambda: setattr(p, "exception_control_compact_warnings", op[1]))
            elif k == "set":
                rec(op, lambda: p.configparserenhanceddata.set(*op[1:]))
            else:
                rec(op, lambda: A.perform(p, op[1]))
                rec("events", lambda: [{a: b for a, b in e.items() if a not in ("nested", "nested_events")}
                                       for e in sim.take_events()])
        rec("settings", lambda: [p.exception_control_level, p.debug_level, p.default_section_name,
                                 [str(x) for x in p.inifilepath], p.configparser_delimiters])
        if not th["base"]:
            rec("last", lambda: {k: v for k, v in (p.parse_section_last_result or {}).items()})

    def make_holder(self, props):
        from .c12 import TYPES, CONV, TRANS, VALID
        tp = cpe().TypedProperty.typed_property
        ns = {}
        for n, sp in props.items():
            kw = {"default": dec(sp["default"])}
            if sp["conv"]:
                kw["internal_type"] = CONV[sp["conv"]]
            if sp["trans"]:
                kw["transform"] = TRANS[sp["trans"]]
            if sp["valid"]:
                kw["validator"] = VALID[sp["valid"]]
            ns[n] = tp(n, tuple(TYPES[t] for t in sp["types"]), **kw)
        return type("Holder", (), ns)

    def t_prop(self, th, tw, rec, cls, holder):
        if th["hp"]:
            o = cpe().HandlerParameters.HandlerParameters()
            name = {"alpha": "params", "beta": "data_shared"}
        else:
            o = holder()
            name = {"alpha": "alpha", "beta": "beta"}
        for op in th["ops"]:
            n = name[op[1]]
            if op[0] == "set":
                rec(op, lambda: setattr(o, n, dec(op[2])))
            elif op[0] == "get":
                rec(op, lambda: frozen(getattr(o, n)))
            elif op[0] == "del":
                rec(op, lambda: delattr(o, n))
            else:
                def mut():
                    v = getattr(o, n)
                    if isinstance(v, list):
                        v.append(f"m{op[2]}")
                    elif isinstance(v, dict):
                        v[f"m{op[2]}"] = op[2]
                rec(op, mut)

    def t_event(self, th, tw, rec, cls, holder):
        o = parser_class()()
        for op in th["ops"]:
            k = op[0]
            if k == "level":
                rec(op, lambda: setattr(o, "exception_control_level", op[1]))
            elif k == "silent":
                rec(op, lambda: setattr(o, "exception_control_silent_warnings", op[1]))
            elif k == "compact":
                rec(op, lambda: setattr(o, "exception_control_compact_warnings", op[1]))
            elif k == "dbg":
                rec(op, lambda: setattr(o, "debug_level", op[1]))
            elif k == "msg":
                rec(op, lambda: o.debug_message(op[1], op[2]))
            else:
                rec(op, lambda: o.exception_control_event(op[1], EXCS[op[2]], op[3]))

    def t_kw(self, th, tw, rec, cls, holder):
        st = {}
        rec("make", lambda: st.update(p=c18.ckp_class()(th["build"], tw.path(th["file"]))))
        if "p" not in st:
            return
        p = st["p"]
        for op in th["ops"]:
            k = op[0]
            if k == "build":
                rec(op, lambda: setattr(p, "build_name", op[1]))
            elif k == "options":
                rec(op, lambda: p.selected_options)
            elif k == "string":
                rec(op, lambda: p.selected_options_str)
            elif k == "default":
                rec(op, lambda: p.is_default_option(op[1]))
            elif k == "key":
                rec(op, lambda: p.get_key_for_section_value(c18.SECTION, op[1]))
            else:
                rec(op, lambda: p.get_msg_showing_supported_flags("choose"))

    def t_ds(self, th, tw, rec, cls, holder):
        from determinesystem import DetermineSystem
        st = {}
        rec("make", lambda: st.update(p=DetermineSystem(th["build"], tw.path(th["file"]), th["force"], th["silent"])))
        if "p" not in st:
            return
        for op in th["ops"]:
            rec(op, lambda: st["p"].system_name if op[0] == "name" else st["p"].supported_sys_names)

    def t_se(self, th, tw, rec, cls, holder):
        from setenvironment import SetEnvironment
        st = {}
        rec("make", lambda: st.update(p=SetEnvironment(tw.path(th["file"]))))
        if "p" not in st:
            return
        p = st["p"]
        for op in th["ops"]:
            k = op[0]
            if k == "script":
                rec(op, lambda: p.generate_actions_script(op[1], interp=op[2]))
            elif k == "level":
                rec(op, lambda: setattr(p, "exception_control_level", op[1]))
            elif k == "apply":
                rec(op, lambda: p.apply(op[1]))
                me = f"T{th['me']}"
                rec("env", lambda: {n: os.environ.get(me + n) for n in "ABCM"})
            elif k == "body":
                rec(op, lambda: p.generate_actions_script(op[1], incl_hdr=False, interp=op[2]))
            elif k == "print":
                rec(op, lambda: p.pretty_print_actions(op[1]))
            elif k == "actions":
                rec(op, lambda: (p.configparserenhanceddata[op[1]], repr(p.actions)))
            else:
                rec(op, lambda: p.parse_section(op[1]))

    def nontrivial(self, case, w):
        return "probe.interleaved" in w.counts


CHECK = C11()
