"""System determination: histories of requests with changing host, build name, force flag and disk faults."""
import re

from .. import model as M
from .. import target
from ..base import Check
from ..world import Violation, Inadmissible

SYSTEMS = ["sys-1", "sys-2", "mach-10", "rhel7", "ats-x"]
PATTERNS = ["host1", "host2", "node[0-9]+", "login", "^front", "gw$", "^exact$", "box.*end", "n-1", "a|b-host", "z*", "(front)?[0-9]*$", r"\.front", "example", "gov$"]
HOSTS = ["host1", "host2", "node12", "mylogin01", "front3", "notfront", "gw", "gwx", "exact", "inexact", "unknown", "b-host", "boxend", "HOST1", "Node5", "host", "x.example.gov", "host2.front.org", "unknown.login", "gw.local", "n.gov.x"]
BUILDS = ["", "gcc_opt", "sys-1_gcc", "SYS-1_gcc", "gcc_sys-2", "sys-1_sys-2", "sys-1-gcc", "rhel7", "mach-10_x_rhel7", "default",
          "nosuch_thing", "ats-x", "mach-10_mach-10", "Rhel7_y"]


def gen_file(rng):
    lines = []
    secs = rng.sample(SYSTEMS, rng.randrange(1, 5))
    if rng.random() < 0.2:
        secs.insert(rng.randrange(len(secs) + 1), "DEFAULT")
    for i, s in enumerate(secs):
        lines.append(f"[{s}]")
        used = set()
        for _ in range(rng.randrange(0, 3)):
            if rng.random() < 0.12 and i + 1 < len(secs):
                k = "use " + rng.choice(secs[i + 1:])
            else:
                k = rng.choice(PATTERNS)
                if rng.random() < 0.3:
                    k += rng.choice(["  # a comment", " #x", "\t# host1"])
            if k in used or "DEFAULT" == s and rng.random() < 0.5:
                continue
            used.add(k)
            lines.append(k)
    return lines


def decide(cp, host, build, force):
    """The system name, or None for a rejection."""
    names = [s for s in cp.sections() if s != "DEFAULT"]
    by_host = None
    walk = M.Walk(cp, set())
    for s in names:
        keys = [re.split(r"[\s#]", k, maxsplit=1)[0] for k in walk.content(s)]
        if any(re.search(k, host) for k in keys):
            by_host = s
            break
    opts = build.lower().split("_")
    by_build = [s for s in names if s in opts]
    if len(by_build) > 1:
        return None
    if by_build:
        return by_build[0] if force or by_build[0] == by_host else None
    return by_host


class C17(Check):
    id = "C17"
    quick_n = 24000
    thorough_n = 800000
    rule = "history with a failed read, a failed host-name call, a failed print or a rejection followed by further requests"
    real = ["determinesystem.DetermineSystem", "keywordparser.FormattedMsg", "configparserenhanced"]
    stub = ["host name", "raw file system calls (interposed on a scratch directory)", "stdout/stderr"]

    def gen(self, rng, tier):
        ops = []
        bad = rng.random() < 0.25
        ops.append(["put", None if bad and rng.random() < 0.5 else ["no header"] if bad else gen_file(rng)])
        ops.append(["new", rng.choice(BUILDS), rng.random() < 0.3, rng.random() < 0.3])
        for _ in range(rng.randrange(1, 6 if tier == "quick" else 12)):
            r = rng.random()
            if r < 0.3:
                ops.append(["host", rng.choice(HOSTS)])
            elif r < 0.45:
                ops.append(["build", rng.choice(BUILDS)])
            elif r < 0.55:
                ops.append(["force", rng.random() < 0.5])
            elif r < 0.7:
                ops.append(["put", gen_file(rng)])
            faults = []
            q = rng.random()
            if q < 0.25:
                faults.append({"op": rng.choice(["open_r", "read", "stat", "close"]), "path": "systems.ini",
                               "act": rng.choice(["EIO", "EACCES", "EMFILE", "kbd", "mem", "ESTALE"]), "nth": rng.choice([0, 0, 1])})
            elif q < 0.32:
                faults.append({"op": "hostname", "act": rng.choice(["EIO", "kbd", "ENOMEM"])})
            elif q < 0.4:
                faults.append({"op": "stdout", "act": rng.choice(["EPIPE", "EIO", "kbd"]), "nth": rng.choice([0, 1, 2])})
            ops.append(["ask", rng.choice(["name", "name", "name", "determine", "names"]), faults])
        return {"ops": ops, "host": rng.choice(HOSTS)}

    def run(self, case, w):
        DS = target.where(__import__("determinesystem.DetermineSystem", fromlist=["x"])).DetermineSystem
        w.hostname = case["host"]
        obj = None
        build = force = None
        fixed = None                     # determined name
        cands = [None]                   # what the object may have loaded: None = nothing yet
        rejected = False
        for op in case["ops"]:
            k = op[0]
            if k == "put":
                if op[1] is None:
                    w.drop("systems.ini")
                else:
                    w.put("systems.ini", "\n".join(op[1]) + "\n")
            elif k == "new":
                build, force = op[1], op[2]
                o = w.call(DS, build, w.path("systems.ini"), force_build_name=force, silent=op[3])
                fixed = None
                if not o.ok:
                    if self.content(w) is not None:
                        raise Violation("constructor", f"{o!r} with a valid file")
                    obj = None
                    continue
                obj = o.value
                c = w.get("systems.ini")
                cands = [None] + ([c] if self.content(w) is not None else [])
            elif k == "host":
                w.hostname = op[1]
            elif k == "build":
                build = op[1]
                if obj is not None:
                    obj.build_name = build
            elif k == "force":
                force = op[1]
                if obj is not None:
                    obj.force_build_name = force
            elif obj is not None:
                fixed, cands, rejected = self.ask(op, w, obj, build, force, fixed, cands, rejected)

    @staticmethod
    def content(w):
        b = w.get("systems.ini")
        return None if b is None else M.try_load([b])

    def ask(self, op, w, obj, build, force, fixed, cands, rejected):
        _, how, faults = op
        w.heal()
        for f in faults:
            w.arm(f)
        disk = w.get("systems.ini")
        w.note("ask", how, build, force, w.hostname)

        def get():
            if how == "determine":
                obj.determine_system()
                return obj.system_name
            if how == "names":
                return list(obj.supported_sys_names)
            return obj.system_name

        o = w.call(get)
        hit = w.fault_count() > 0
        w.heal()
        w.take_output()
        w.note("outcome", o.ok, o.value if o.ok else type(o.exc).__name__)
        if rejected and how != "names":
            w.count("fault.history.asked_after_rejection")
        if fixed is not None and how != "names":
            if not hit and not (o.ok and o.value == fixed):
                raise Violation("changed", f"the system was determined to be {fixed!r}; a later request gave {o!r}")
            if o.ok and o.value != fixed:
                raise Violation("changed", f"the system was determined to be {fixed!r}; a later request gave {o!r}")
            return fixed, cands, False
        results = []
        new = []
        for c in cands:
            src = disk if c is None else c
            cp = None if src is None else M.try_load([src])
            if cp is None:
                if not o.ok:
                    new.append(c)
                results.append("raise (file)")
                continue
            if how == "names":
                want = [s for s in cp.sections() if s != "DEFAULT"]
            else:
                want = decide(cp, w.hostname, build, force)
            results.append(want)
            if o.ok and want is not None and o.value == want:
                new.append(src)
            elif not o.ok and (hit or want is None):
                new += [src] + ([c] if hit else [])
        uniq = []
        for c in new:
            if c not in uniq:
                uniq.append(c)
        if not uniq:
            raise Violation("wrong-decision", f"{how} for build name {build!r}, force {force}, host {w.hostname!r} gave {o!r}"
                            f"{' with ' + str(faults) if hit else ''}; expected {results}")
        if o.ok and how != "names":
            w.probe("determined")
            return o.value, uniq, False
        if not o.ok:
            w.probe("rejected" if not hit else "failed")
        return fixed, uniq, rejected or (not o.ok and not hit)


CHECK = C17()
