"""Writing script files: disk faults while the configuration is read and while the script is written."""
import os
import pathlib

from .. import model as M
from .. import setenv as S
from .. import target
from ..base import Check
from ..world import Violation, Inadmissible, SimCrash

NAMES = ["SA", "SB", "SC"]
DESTS = ["out.sh", "sub/out.py", "out2.sh"]


class C15(Check):
    id = "C15"
    quick_n = 12000
    thorough_n = 400000
    rule = "history in which a read of the configuration or a write of the script failed, was torn, short, interrupted or crashed"
    real = ["setenvironment.SetEnvironment", "configparserenhanced", "io buffering and encoding"]
    stub = ["raw file system calls (interposed on a scratch directory)", "locale", "stdout/stderr"]

    def gen(self, rng, tier):
        def ini():
            return S.gen_file(rng, rng.sample(NAMES, rng.randrange(1, 4)), p_missing=0.12, p_bad=0.04,
                              max_opts=rng.choice([3, 6, 6, 40]))

        ops = [["put", ini()]]
        for _ in range(rng.randrange(1, 5 if tier == "quick" else 9)):
            r = rng.random()
            if r < 0.15:
                ops += [["put", ini()], ["assign"]]
            elif r < 0.25:
                ops.append(["level", rng.choice([0, 1, 3, 4])])
            elif r < 0.4:
                ops.append(["old", rng.choice(DESTS), rng.choice(["old content\n", "", "x" * 20000, None])])
            elif r < 0.47:
                ops.append([rng.choice(["query", "apply"]), rng.choice(NAMES)])
            faults = []
            if rng.random() < 0.65:
                for _ in range(rng.choice([1, 1, 2])):
                    q = rng.random()
                    if q < 0.3:
                        faults.append({"op": rng.choice(["open_r", "read", "stat"]), "path": "env.ini",
                                       "act": rng.choice(["EIO", "EACCES", "ESTALE", "kbd", "mem", "crash", "EMFILE"]),
                                       "nth": rng.choice([0, 0, 1, 2])})
                    elif q < 0.4:
                        faults.append({"op": "read", "path": "env.ini", "act": "short", "n": rng.choice([1, 7, 100]), "span": 3})
                    elif q < 0.8:
                        act = rng.choice(["ENOSPC", "EIO", "short", "short", "torn", "torn", "EDQUOT", "kbd", "crash", "torncrash"])
                        faults.append({"op": "write", "path": "*", "act": act, "n": rng.choice([1, 7, 100, 4000]),
                                       "nth": rng.choice([0, 0, 0, 1, 2]), "span": rng.choice([1, 1, 4])})
                    elif q < 0.9:
                        faults.append({"op": "open_w", "path": "*", "act": rng.choice(["EACCES", "EROFS", "ENOSPC", "EMFILE", "kbd"])})
                    elif q < 0.93:
                        faults.append({"op": "access", "path": "*", "act": "deny", "span": rng.choice([1, 9])})
                    elif q < 0.96:
                        faults.append({"op": "close", "path": rng.choice(["*"] + DESTS), "act": rng.choice(["EIO", "ENOSPC", "EDQUOT"])})
                    else:
                        faults.append({"op": rng.choice(["rename", "unlink", "mkdir", "chmod"]), "path": "*",
                                       "act": rng.choice(["EIO", "ENOSPC", "EACCES"])})
            ops.append(["write", rng.choice(DESTS), rng.choice(NAMES + ["NOPE"] * (rng.random() < 0.2)),
                        rng.choice(["bash", "bash", "python", "python", "python", "perl"]),
                        [rng.random() < 0.8, rng.random() < 0.85, rng.random() < 0.8], rng.choice(["str", "path"]), faults])
            if rng.random() < 0.12:     # the same request again, with a configuration of the same size
                put = next(o for o in reversed(ops) if o[0] == "put")
                text = list(put[1])
                i = rng.randrange(len(text))
                if text[i][-1:].isalnum() and text[i][-1:].isascii() and not text[i].startswith("["):
                    text[i] = text[i][:-1] + rng.choice([c for c in "abx12" if c != text[i][-1]])
                ops += [["put", text], ["assign"], ops[-1][:6] + [[]]]
        return {"ops": ops, "locale": rng.choice(["utf-8"] * 5 + ["ascii"]), "chunk": rng.choice([None, None, 512, 5000])}

    def environ(self, case, w):
        return {"PATH": w.path("bin"), "HOME": w.path("home")}

    def run(self, case, w):
        senv = target.where(__import__("setenvironment.SetEnvironment", fromlist=["x"])).SetEnvironment
        w.locale = case["locale"]
        w.chunk = case["chunk"]
        with w:
            os.makedirs(w.path("sub"), exist_ok=True)
        if not case["ops"] or case["ops"][0][0] != "put":
            raise Inadmissible()
        p = senv(w.path("env.ini"))
        loaded = None                   # content of the single load, None = not known to be loaded
        level = p.exception_control_level
        for op in case["ops"]:
            k = op[0]
            if k == "put":
                w.put("env.ini", "\n".join(op[1]) + "\n")
            elif k == "assign":
                p.inifilepath = w.path("env.ini")
                loaded = None
            elif k == "level":
                level = p.exception_control_level = op[1]
            elif k == "old":
                if op[2] is None:
                    w.drop(op[1])
                else:
                    w.put(op[1], op[2])
            elif k in ("query", "apply"):
                before = w.get("env.ini")
                w.procs = lambda w, *a: (_ for _ in ()).throw(OSError(2, "no modulecmd"))
                o = w.call(lambda: p.configparserenhanceddata[op[1]] if k == "query" else p.apply(op[1]))
                w.take_output()
                if loaded is None and M.try_load([before]) is not None:
                    loaded = before
            else:
                loaded = self.write(op, case, w, p, senv, level, loaded)
                if w.crashed:
                    return
        # after the faults have stopped, writing works again
        w.heal()

    def write(self, op, case, w, p, senv, level, loaded):
        _, dest, sec, interp, (hdr, body, shb), kind, faults = op
        src = loaded if loaded is not None else w.get("env.ini")
        want = self.expected(w, senv, src, level, sec, interp, hdr, body, shb)
        raw_ok = M.try_load([src]) is not None
        before = w.get(dest)
        w.heal()
        for f in faults:
            w.arm(f)
        w.note("write", dest, sec, interp)
        d = w.path(dest)
        out = w.call(p.write_actions_to_file, d if kind == "str" else pathlib.Path(d), sec, include_header=hdr, include_body=body,
                     include_shebang=shb, interpreter=interp)
        fired = {f["op"] for f in w.faults if f.get("fired") and not (f["act"] == "short")}
        w.heal()
        after = w.get(dest)
        w.take_output()
        w.note("outcome", out.ok, out.value if out.ok else type(out.exc).__name__)
        desc = (f"write_actions_to_file({dest!r}, {sec!r}, interpreter={interp!r}, header={hdr}, body={body}) "
                f"{'with faults ' + str([(f['op'], f['act']) for f in faults]) if faults else ''}")
        good = out.ok and out.value == 0
        if w.crashed:
            if want is None and after != before:
                raise Violation("destroyed", f"{desc}: the script cannot be generated, but the destination changed before the crash")
            if fired <= {"open_r", "read", "stat"} and after != before:
                raise Violation("destroyed-early", f"{desc}: crash while the configuration was read, but the destination had changed")
            return loaded
        if good:
            if want is None:
                raise Violation("success", f"{desc} reported success, but the script cannot be generated")
            if after is None or self.decode(after, case["locale"]) != want:
                raise Violation("incomplete", f"{desc} reported success; the file has {None if after is None else len(after)} bytes, "
                                f"the script has {len(want)} characters")
            w.probe("written" + (".through_fault" if fired else ""))
            return src if body else loaded
        if want is None or interp not in ("bash", "python"):
            if after != before:
                raise Violation("destroyed", f"{desc} failed ({out!r}) because the script cannot be generated, but the destination "
                                f"changed from {None if before is None else len(before)} to "
                                f"{None if after is None else len(after)} bytes")
            w.probe("not_generated")
            # the failed parse may have loaded the files
            if loaded is None and raw_ok:
                return src
            return loaded
        try:
            want.encode(case["locale"])
            enc = True
        except UnicodeEncodeError:
            enc = False
        if not fired and enc and not (case["locale"] == "ascii" and self.nonascii(src)):
            raise Violation("spurious-failure", f"{desc} gave {out!r} without any fault")
        if fired and fired <= {"open_r", "read", "stat"} and after != before:
            raise Violation("destroyed-early", f"{desc} failed while the configuration was read ({out!r}), but the destination changed")
        if out.ok and fired & {"write", "open_w", "close", "rename"}:
            raise Violation("failure-not-raised", f"{desc} returned {out.value!r} instead of raising")
        w.probe("write_failed")
        if loaded is None and raw_ok and not (fired & {"open_r", "read", "stat"}):
            return src
        # the load may or may not have been made; the content did not change since
        if loaded is None and raw_ok:
            return src
        return loaded

    @staticmethod
    def nonascii(b):
        return any(c > 127 for c in b)

    @staticmethod
    def decode(b, enc):
        try:
            return b.decode(enc)
        except UnicodeDecodeError:
            try:
                return b.decode("utf-8")
            except UnicodeDecodeError:
                return None

    def expected(self, w, senv, src, level, sec, interp, hdr, body, shb):
        """The complete script, from a new object over the configuration in force; None if there is none."""
        if interp not in ("bash", "python"):
            return None
        if src is None or M.try_load([src]) is None:
            if body:
                return None
        save = (w.locale, w.chunk, w.log, w.steps)
        w.heal()
        w.locale, w.chunk, w.log = "utf-8", None, []
        try:
            w.put("ref/ref.ini", src or b"")
            q = senv(w.path("ref/ref.ini"))
            q.exception_control_level = level
            o = w.call(q.generate_actions_script, sec, hdr, body, shb, interp)
            w.take_output()
        finally:
            w.locale, w.chunk, w.log, w.steps = save
        return o.value if o.ok else None


CHECK = C15()
