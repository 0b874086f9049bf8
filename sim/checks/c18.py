"""Keyword selection: histories of build-name assignments, queries and failed reads."""
import importlib
import sys

from .. import model as M
from .. import target
from ..base import Check
from ..world import Violation, Inadmissible

SECTION = "configure-flags"
SECOND = "other-flags"
FLAGS = ["use-mpi", "node-type", "package-enables", "kokkos-arch", "build-type"]
OPTIONS = ["mpi", "no-mpi", "serial", "openmp", "none", "empire", "sparc", "muelu", "opt", "dbg", "Opt", "a.b", "x-1", "^z", "p^q"]


class Reject(Exception):
    pass


def ckp_class():
    d = target.REPO + "/wip/genconfig"
    if d not in sys.path:
        sys.path.append(d)
    return target.where(importlib.import_module("src.config_keyword_parser")).ConfigKeywordParser


# ---------------------------------------------------------------------- model
def values(content, key):
    """Keywords of one key of an expanded section; Reject if they are not consistent."""
    text = content[key] or ""
    vals = [v.split("#", 1)[0].strip() for v in text.split("\n")]
    vals = [v for v in vals if v]
    if len(set(vals)) != len(vals):
        raise Reject("duplicates")
    for v in vals:
        if (" " in v or "_" in v) and v not in ("SELECT_ONE", "SELECT_MANY"):
            raise Reject("white space")
        if v in content:
            raise Reject("value is a key")
    return vals


def flag(content, name):
    v = values(content, name)
    if not v or v[0] not in ("SELECT_ONE", "SELECT_MANY"):
        raise Reject("flag type")
    return v[1:], v[0]


def defaults(content):
    out = []
    for n in content:
        opts, _ = flag(content, n)
        if not opts:
            raise Reject("no options")
        out.append(opts[0])
    return out


def selected(content, build):
    all_ = []
    for n in content:
        all_ += flag(content, n)[0]
    if len(set(all_)) != len(all_):
        raise Reject("option of two flags")
    names = build.split("_")
    out = {}
    for n in content:
        opts, typ = flag(content, n)
        hit = [o for o in opts if o in names]
        if typ == "SELECT_ONE" and len(hit) > 1:
            raise Reject("several")
        if len(hit) > 1:
            out[n] = sorted(hit)
        elif hit:
            out[n] = hit[0]
        else:
            if not opts:
                raise Reject("no options")
            out[n] = opts[0]
    return out


def as_str(sel):
    t = ""
    for v in sel.values():
        t += "".join("_" + x for x in v) if isinstance(v, list) else "_" + v
    return t


def key_for(content, value):
    found = None
    for k in content:
        if value in values(content, k):
            found = k
    if found is None:
        raise Reject("not found")
    return found


# ---------------------------------------------------------------------- generation
def gen_flags(rng, p_bad):
    lines = [f"[{SECTION}]"] if rng.random() > p_bad * 0.3 else ["[other]"]
    pool = list(OPTIONS)
    rng.shuffle(pool)
    for f in rng.sample(FLAGS, rng.randrange(1, 5)):
        typ = rng.choice(["SELECT_ONE", "SELECT_ONE", "SELECT_MANY"])
        if rng.random() < p_bad * 0.4:
            typ = rng.choice(["", "SELECT_SOME", "mpi"])
        lines.append(f"{f}: {typ}")
        for _ in range(rng.randrange(1, 4)):
            if not pool:
                break
            o = pool.pop()
            q = rng.random()
            if q < p_bad * 0.12:
                o = rng.choice(["two words", "under_score", "_lead", "trail_", f, rng.choice(OPTIONS)])
            c = rng.choice(["", "", "  # the default", " #x", "\t# " + rng.choice(OPTIONS)])
            lines.append("    " + o + c)
            if rng.random() < 0.1:
                lines.append(rng.choice(["    # " + rng.choice(OPTIONS), "", "#full line"]))
    if rng.random() < 0.15:
        lines = ["[extra]", "more-flags: SELECT_MANY", "    extra1", "    extra2"] + lines + ["use extra"]
    if rng.random() < 0.35:     # a section of the same shape, with keys of the same names
        more = [f"[{SECOND}]"]
        for f in rng.sample(FLAGS, rng.randrange(1, 4)):
            more.append(f"{f}: {rng.choice(['SELECT_ONE', 'SELECT_MANY', ''])}")
            more += ["    " + o for o in rng.sample(OPTIONS, rng.randrange(1, 4))]
        lines = lines + more if rng.random() < 0.5 else more + lines
    return lines


def gen_build(rng):
    n = rng.randrange(0, 5)
    parts = [rng.choice(OPTIONS + ["sys-1", "gcc", "MPI", "extra1", "extra2", ""]) for _ in range(n)]
    return "_".join(parts)


def next_build(rng, last):
    """A build name, often one that shares words with the last."""
    if rng.random() < 0.5 or not last:
        return gen_build(rng)
    parts = last.split("_")
    r = rng.random()
    if r < 0.3:
        parts.pop(rng.randrange(len(parts)))
    elif r < 0.5:
        parts.insert(rng.randrange(len(parts) + 1), rng.choice(OPTIONS))
    elif r < 0.7:
        parts[rng.randrange(len(parts))] = rng.choice(OPTIONS)
    elif r < 0.82:
        rng.shuffle(parts)
    elif r < 0.92:
        k = rng.randrange(len(parts))
        if rng.random() < 0.3:
            return last.swapcase()
        parts[k] = parts[k].swapcase()
    else:
        return last
    return "_".join(parts)


class C18(Check):
    id = "C18"
    quick_n = 20000
    thorough_n = 700000
    rule = "history with a failed read, an inconsistent file or a rejected build name followed by further requests"
    real = ["keywordparser.KeywordParser", "genconfig ConfigKeywordParser", "configparserenhanced"]
    stub = ["raw file system calls (interposed on a scratch directory)", "stdout/stderr"]

    def gen(self, rng, tier):
        p_bad = rng.choice([0.0, 0.0, 0.6, 1.0])
        ops = []
        first = last = gen_build(rng)
        for _ in range(rng.randrange(2, 9 if tier == "quick" else 18)):
            r = rng.random()
            if r < 0.35:
                last = next_build(rng, last)
                ops.append(["build", last])
            ops.append([rng.choice(["opts", "opts", "str", "str", "parse", "default", "key", "values", "msg", "list"]),
                        rng.choice(OPTIONS + ["extra1", "SELECT_ONE"]), rng.choice(FLAGS),
                        rng.choice([SECTION] * 4 + [SECOND] * 2 + ["extra", "nowhere"])])
        faults = []
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                faults.append({"op": rng.choice(["open_r", "read", "stat", "close"]), "path": "flags.ini",
                               "act": rng.choice(["EIO", "EACCES", "kbd", "mem", "vanish"]), "nth": rng.choice([0, 0, 1])})
        return {"file": gen_flags(rng, p_bad), "build": first, "ops": ops, "faults": faults,
                "mode": rng.choice(["config", "config", "config", "base"])}

    def run(self, case, w):
        text = "\n".join(case["file"]) + "\n"
        cp = M.try_load([text.encode()])
        w.put("flags.ini", text)
        self.contents = {}
        content = None
        if cp is not None:
            for s in cp.sections():
                try:
                    self.contents[s] = M.Walk(cp, set()).content(s)
                except M.ModelError:
                    pass
            content = self.contents.get(SECTION)
        if case["mode"] == "base":
            return self.run_base(case, w, cp, content, text)
        CKP = ckp_class()
        obj = None
        attempts = [case["faults"]] + [[]] * 2
        for fs in attempts:
            w.heal()
            for f in fs:
                w.arm(f)
            o = w.call(CKP, case["build"], w.path("flags.ini"))
            hit = w.fault_count() > 0
            w.heal()
            w.note("new", o.ok)
            w.put("flags.ini", text)
            if o.ok:
                if content is None:
                    raise Violation("accepted", "a parser was created from a file without usable flags")
                obj = o.value
                break
            if not hit and content is not None:
                raise Violation("rejected", f"creating the parser raised {o!r} for a valid file")
            w.probe("constructor_failed")
        if obj is None:
            return
        build = case["build"]
        failed = False
        for op in case["ops"]:
            if op[0] == "build":
                build = op[1]
                o = w.call(setattr, obj, "build_name", build)
                if not o.ok:
                    raise Violation("assignment", f"assigning the build name raised {o!r}")
                w.note("build", build)
                continue
            k, opt, fl, sec = op
            want = self.expected(content, k, opt, fl, build, sec)
            o = w.call(self.perform, obj, k, opt, fl, sec)
            w.take_output()
            w.note(k, o.ok)
            self.compare(w, k, opt, fl, build, want, o)
            if failed:
                w.count("fault.history.asked_after_failure")
            if not o.ok:
                failed = True

    def perform(self, obj, k, opt, fl, sec):
        if k == "opts":
            return {a: list(b) if isinstance(b, list) else b for a, b in obj.selected_options.items()}
        if k == "str":
            return obj.selected_options_str
        if k == "parse":
            obj.parse_selected_options()
            return {a: list(b) if isinstance(b, list) else b for a, b in obj.selected_options.items()}
        if k == "default":
            return bool(obj.is_default_option(opt))
        if k == "key":
            return obj.get_key_for_section_value(sec, opt)
        if k == "values":
            return list(obj.get_values_for_section_key(sec, fl))
        if k == "list":
            return list(obj.get_options_list_for_all_flags())
        if k == "msg":
            return obj.get_msg_showing_supported_flags("text")
        raise RuntimeError("harness: " + k)

    def expected(self, content, k, opt, fl, build, sec):
        """("ok", value) or ("raise", why)"""
        if k in ("key", "values"):
            content = self.contents.get(sec)
        if content is None:
            return ("raise", "file")
        try:
            if k in ("opts", "parse"):
                return ("ok", selected(content, build))
            if k == "str":
                return ("ok", as_str(selected(content, build)))
            if k == "default":
                return ("ok", opt in defaults(content))
            if k == "key":
                return ("ok", key_for(content, opt))
            if k == "values":
                if fl not in content:
                    raise Reject("no such flag")
                return ("ok", values(content, fl))
            if k == "list":
                out = []
                for n in content:
                    out += flag(content, n)[0]
                return ("ok", out)
            if k == "msg":
                for n in content:
                    flag(content, n)
                return ("ok", None)
        except Reject as ex:
            return ("raise", str(ex))

    def compare(self, w, k, opt, fl, build, want, o):
        what = f"{k}({opt if k in ('default', 'key') else fl if k == 'values' else ''}) for build name {build!r}"
        if want[0] == "raise":
            if o.ok:
                raise Violation("accepted", f"{what} gave {o.value!r}; expected a rejection ({want[1]})")
            w.probe("rejected." + k)
            return
        if not o.ok:
            raise Violation("rejected", f"{what} raised {o!r}; expected {want[1]!r}")
        if k == "msg":
            return
        if o.value != want[1] or k in ("opts", "parse") and list(o.value) != list(want[1]):
            raise Violation("wrong-selection", f"{what} gave {o.value!r}; expected {want[1]!r}")
        w.probe("ok." + k)

    # ------------------------------------------------------------------ the base class, loading on first use
    def run_base(self, case, w, cp, content, text):
        KP = target.where(__import__("keywordparser.KeywordParser", fromlist=["x"])).KeywordParser
        o = w.call(KP, w.path("flags.ini"))
        if not o.ok:
            raise Violation("constructor", repr(o))
        obj = o.value
        pending = list(case["faults"])
        for op in case["ops"]:
            if op[0] in ("build", "opts", "str", "parse", "default", "msg", "list"):
                k, opt, fl, sec = "key", (op[1] or "mpi").split("_")[0], None, op[3] if len(op) > 3 else SECTION
            else:
                k, opt, fl, sec = op
            w.heal()
            if pending:
                w.arm(pending.pop(0))
            want = self.expected(content, k, opt, fl, "", sec)
            o = w.call(self.perform, obj, k, opt, fl, sec)
            hit = w.fault_count() > 0
            w.heal()
            w.take_output()
            w.put("flags.ini", text)
            w.note(k, o.ok)
            if hit and not o.ok:
                w.probe("read_failed")
                continue
            self.compare(w, k, opt, fl, "", want, o)


CHECK = C18()
