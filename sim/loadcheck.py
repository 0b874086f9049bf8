"""Shared by C01 and C02: histories of accesses to a file list on a failing disk."""
import itertools
import os

from . import access as A
from . import inigen as G
from . import model as M
from .base import Check
from .target import parser_class
from .world import Violation, Inadmissible, REAL

BAD_KINDS = ["nohdr", "dupopt", "dupsec", "badline", "undecodable", "missing", "dir", "hdr", "dev", "dangle", "loop", "bom"]
NAMES = ["a.ini", "sub/b.ini", "c c.ini", "d.cfg", "sub/a.ini", "A.ini"]


def good_lines(rng, i, delims):
    names = rng.sample(["A", "B", "C", "D"], rng.randrange(1, 4))
    vals = ["v%d" % rng.randrange(9), "two words", "", None, "ünï©ode", "x=y:z", "tail", "kept ; this", "kept # this"]
    keys = ["k1", "k2", "k3", "key four", "f%d" % i]
    return G.sections_text(rng, names, [], delims, p_use=0.5, p_missing=0.0, p_cycle=0.1, values=vals, keys=keys,
                           max_opts=4, p_default=0.25, targets=names)


def spoil(rng, kind, lines):
    """Content descriptor of one unusable file."""
    l = list(lines)
    if kind == "nohdr":
        return {"lines": ["k0: v"] + l}
    if kind == "dupopt":
        return {"lines": l + ["[DUP]", "x: 1", "y: 2", "x: 3"]}
    if kind == "dupsec":
        return {"lines": l + ["[DUP]", "x: 1", "[DUP]", "y: 1"]}
    if kind == "badline":
        return {"lines": l + ["[DUP]", ": no key"]}
    if kind == "hdr":
        return {"lines": l + ["[DUP]", "k: v", "[]"]}
    if kind == "undecodable":
        return {"lines": l, "tail": "ff"}
    if kind == "bom":
        return {"lines": ["\ufeff" + l[0]] + l[1:]}
    if kind == "missing":
        return {"missing": True}
    if kind in ("dev", "dangle", "loop"):
        return {"to": kind}
    return {"dir": True}


def render(c):
    """bytes of a content descriptor, or None (missing) / False (not a regular file)."""
    if c.get("missing"):
        return None
    if c.get("dir") or c.get("to"):
        return False
    nl = c.get("nl", "\n")
    lines = list(c.get("lines", []))
    if c.get("pad"):
        at = c.get("at", len(lines))
        lines[at:at] = ["# " + "p" * 76] * c["pad"]
    b = "".join(l + nl for l in lines).encode("utf-8")
    if "tail" in c:
        b += b"[T]\nkey: " + bytes.fromhex(c["tail"]) + b"\n"
    return b


def place(w, name, c):
    b = render(c)
    w.drop(name)
    if b is None:
        return
    if b is False and c.get("dir"):
        with w:
            os.makedirs(w.path(name), exist_ok=True)
    elif b is False:
        link(w, name, {"dev": "/dev/null", "dangle": w.path("nothing-here"), "loop": w.path(name)}[c["to"]])
    elif c.get("link"):
        w.put("real/" + name, b)
        link(w, name, w.path("real/" + name))
    else:
        w.put(name, b)


def link(w, name, to):
    with w:
        os.makedirs(os.path.dirname(w.path(name)), exist_ok=True)
        REAL["os.symlink"](to, w.path(name))


IO_FAULTS = [
    ("open_r", ["EACCES", "EIO", "EMFILE", "ENOENT", "ENOMEM", "kbd", "mem", "EINTR"]),
    ("read", ["EIO", "ESTALE", "kbd", "mem", "EISDIR", "EINTR", "short"]),
    ("stat", ["EACCES", "EIO", "ENOENT", "kbd", "ELOOP"]),
    ("close", ["EIO", "kbd"]),
]
DISK_CHANGES = ["vanish", "swap", "swapdir"]


def gen_stdout(rng):
    """A failing print: the n-th write to stdout from now on."""
    return {"op": "stdout", "act": rng.choice(["EPIPE", "EPIPE", "ENOSPC", "kbd", "mem"]), "nth": rng.choice([0, 1, 2, 3, 5, 8, 13, 20, 30, 45, 70, 100]),
            "span": rng.choice([1, 1, 2, 9])}


def gen_fault(rng, names, new_content, allow_change=True, span=None):
    name = rng.choice(names)
    if allow_change and rng.random() < 0.35:
        act = rng.choice(DISK_CHANGES)
        f = {"op": rng.choice(["stat", "open_r", "read", "open_r"]), "path": name, "act": act,
             "nth": rng.choice([0, 0, 1, 2])}
        if act == "swap":
            f["data"] = new_content(rng)
        return f
    op, acts = rng.choice(IO_FAULTS)
    f = {"op": op, "path": name, "act": rng.choice(acts), "nth": rng.choice([0, 0, 0, 1, 2, 3]),
         "span": span or rng.choice([1, 1, 2, 5])}
    if f["act"] == "short":
        f["n"] = rng.randrange(1, 20)
        f["span"] = 50
    return f


def gen_access(rng, secs):
    s = rng.choice(secs)
    return rng.choice([
        ["raw"], ["raw"], ["get", s], ["getopt", s, rng.choice(["k1", "k2", "k3", "f0"])], ["item", s],
        ["options", s], ["items", s], ["all"], ["sections", rng.choice([False, True, "force"])], ["keys"], ["iter"],
        ["len"], ["has_sec", s], ["has_opt", s, "k1"], ["parse", s], ["parse_all"],
    ])


def gen_case(rng, tier, retry):
    """A history. retry: keep the parser object after a failure (C02)."""
    delims = rng.choice([["=", ":"], ["=", ":"], [":"], ["="], ["|"], ["=", ":", "|"], ["~", "=", "|", ":"]])
    nfiles = rng.choice([1, 1, 2, 2, 3, 4])
    files = rng.sample(NAMES, nfiles)
    counter = itertools.count()

    def new_content(rng):
        c = {"lines": good_lines(rng, next(counter), delims)}
        if rng.random() < 0.1:
            c["nl"] = "\r\n"
        if rng.random() < 0.06:
            c["link"] = True
        if rng.random() < 0.12:
            c["pad"] = rng.choice([110, 220, 500, 900])      # several buffers long
            if rng.random() < 0.6:
                c["at"] = rng.randrange(len(c["lines"]) + 1)
        return c

    def new_data(rng):
        return render(dict(new_content(rng), link=False)).decode("utf-8")

    disk = {}
    for n in files:
        disk[n] = new_content(rng)
    plist = list(files)
    if rng.random() < 0.1:
        plist.append(rng.choice(files))
    elif rng.random() < 0.02:
        plist = []
    ops = []
    for n in files:
        c = disk[n]
        if rng.random() < 0.22:
            c = spoil(rng, rng.choice(BAD_KINDS), c["lines"])
        ops.append(["put", n, c])
    ops.append(["new", plist, delims, rng.choice(["str", "path", "mixed"])])
    secs = ["A", "B", "C", "D", "DEFAULT", "NOPE"]
    rounds = rng.randrange(1, 4 if tier == "quick" else 6)
    for _ in range(rounds):
        q = rng.random()
        if q < 0.6:
            ops.append(["arm", gen_fault(rng, files, new_data)])
            if rng.random() < 0.25:
                ops.append(["arm", gen_fault(rng, files, new_data)])
        elif q < 0.75:
            n = rng.choice(files)
            ops.append(["put", n, spoil(rng, rng.choice(BAD_KINDS), disk[n]["lines"])])
        for _ in range(rng.randrange(1, 4)):
            ops.append(["access", gen_access(rng, secs)])
        if rng.random() < 0.75:
            ops.append(["heal"])
        if rng.random() < 0.7:
            for n in files:
                disk[n] = new_content(rng) if rng.random() < 0.3 else disk[n]
                ops.append(["put", n, disk[n]])
        for _ in range(rng.randrange(1, 3)):
            ops.append(["access", gen_access(rng, secs)])
        if rng.random() < (0.5 if not retry else 0.2):
            ops.append(["new", plist, delims, "str"])
    ops.append(["heal"])
    for n in files:
        ops.append(["put", n, disk[n]])
    ops.append(["access", gen_access(rng, secs)])
    ops.append(["access", ["raw"]])
    big = any(op[0] == "put" and op[2].get("pad") for op in ops) or '"pad"' in repr(ops) or "pppp" in repr(ops)
    return {"ops": ops, "keep": rng.random() < 0.4, "locale": rng.choice(["utf-8", "ascii", "latin-1", "cp1252"]),
            "chunk": rng.choice([None, None, None, 4096] if big else [None, None, None, 1, 7, 100, 4096])}


class LoadCheck(Check):
    retry = False

    def run(self, case, w):
        w.locale = case["locale"]
        w.chunk = case.get("chunk")
        CPE = parser_class()
        from pathlib import Path
        p = None
        plist, delims = [], []
        loaded = None        # list of acceptable loaded models once an access succeeded
        failed = False
        maybe = []           # complete contents that an access which failed under a fault may have loaded

        def current(name):
            with w:
                if os.path.lexists(w.path(name)) and not os.path.isfile(w.path(name)):
                    return False
            return w.get(name)

        for op in case["ops"]:
            if op[0] == "put":
                place(w, op[1], op[2])
            elif op[0] == "arm":
                w.arm(op[1])
            elif op[0] == "heal":
                w.heal()
            elif op[0] == "new":
                plist, delims = op[1], op[2]
                conv = {"str": [str], "path": [Path], "mixed": [Path, str]}[op[3]]
                arg = [conv[i % len(conv)](w.path(n)) for i, n in enumerate(plist)]
                p = CPE(arg if len(arg) != 1 or op[3] == "mixed" else arg[0])
                if tuple(delims) != ("=", ":"):
                    p.configparser_delimiters = tuple(delims)
                loaded = None
                failed = False
                maybe = []
            elif op[0] == "access":
                if p is None:
                    raise Inadmissible()
                acc = op[1]
                if failed and not self.retry and not case.get("keep"):
                    conv = [w.path(n) for n in plist]
                    p = CPE(conv)
                    if tuple(delims) != ("=", ":"):
                        p.configparser_delimiters = tuple(delims)
                    failed = False
                    maybe = []
                before = {n: current(n) for n in plist}
                f0 = sum(f.get("fired", 0) for f in w.faults)
                fired_changes = [f for f in w.faults if f["act"] in DISK_CHANGES]
                c0 = {id(f): f.get("fired", 0) for f in fired_changes}
                w.note("access", *acc)
                out = w.call(A.perform, p, acc)
                w.note("outcome", out.ok)
                w.take_output()
                fired = sum(f.get("fired", 0) for f in w.faults) - f0
                after = {n: current(n) for n in plist}
                changes = [f for f in fired_changes if f.get("fired", 0) > c0[id(f)]]

                if loaded is not None:
                    cands = loaded
                else:
                    opts = []
                    for n in plist:
                        o = [before[n]]
                        for f in changes:
                            if f["path"] == n and f["act"] == "swap":
                                o.append(f["data"].encode("utf-8"))
                        if after[n] not in o:
                            o.append(after[n])
                        opts.append([x for x in o if isinstance(x, bytes)])
                    cands = []
                    if plist and all(opts):
                        for combo in itertools.product(*opts):
                            cp = M.try_load(list(combo), delims)
                            if cp is not None:
                                cands.append(A.MW(cp))
                faulty = fired > 0
                now = len(cands)
                if loaded is None:
                    cands = cands + maybe
                if not now and loaded is None and not out.ok:
                    failed = True
                    w.probe("failed_load")
                    continue
                self.judge(acc, out, cands, faulty, bool(changes), failed, loaded is not None, w)
                if out.ok and loaded is None:
                    loaded = [c for c in cands if A.same(acc, c, out)] or None
                    w.probe("loaded")
                    failed = False
                elif not out.ok:
                    if loaded is None:
                        if not faulty and any(A.same(acc, c, out) for c in cands):
                            # the configuration itself is fine, the question failed
                            loaded = [c for c in cands if A.same(acc, c, out)]
                        else:
                            failed = True
                            if faulty:
                                maybe = maybe + cands[:now]
                            w.probe("failed_load")

    def judge(self, acc, out, cands, faulty, changed, failed, was_loaded, w):
        if not cands:
            if out.ok:
                raise Violation("served-unloadable",
                                f"{acc} answered {A.brief(out.value)} although the file list cannot be loaded")
            return
        if faulty and not was_loaded:
            if not out.ok:
                w.probe("fault_raised")
                return
            if not any(A.same(acc, c, out) for c in cands):
                raise Violation("partial-data", f"{acc} answered {A.brief(out.value)} under a fault; complete content: "
                                f"{A.brief(A.expect(acc, cands[0]))}")
            w.probe("fault_absorbed")
            return
        if not any(A.same(acc, c, out) for c in cands):
            if failed and not self.retry and not out.ok:
                return          # an error is never wrong data; C02 decides whether it may persist
            if failed:
                raise Violation("not-retryable", f"after a failed load {acc} gave {out!r}; the files say "
                                f"{A.brief(A.expect(acc, cands[0]))}")
            raise Violation("wrong-data", f"{acc} gave {out!r}; the files say {A.brief(A.expect(acc, cands[0]))}")
        if failed:
            w.probe("recovered")
