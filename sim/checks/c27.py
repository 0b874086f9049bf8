"""The listings of LoadEnv and GenConfig: what they name, what they leave alone, failed reads, later requests."""
import gc
import os
import re

from .. import access as A
from .. import model as M
from ..base import Check
from ..world import Violation
from . import c17, c18, c19, c20

HEAD = {"envs": "Supported Environments for", "flags": "Supported Flags Are", "configs": "one of the following complete configurations"}
ITEM = re.compile(r"^\|(\s+)- (\S.*?)\s*$")
KIND = re.compile(r"^\|\s+\* Options? \((\w+)\):")


def items(text, head):
    """[(indent, item)] of the listing that begins with the head line; None if there is none."""
    out = None
    for l in text.split("\n"):
        if head in l:
            out = []
        elif out is not None:
            m, k = ITEM.match(l), KIND.match(l)
            if m:
                out.append((len(m.group(1)), m.group(2)))
            elif k:
                out.append((0, k.group(1)))
    return out


def listing(text, kind):
    """What a listing says: {environment: aliases}, {flag: (type, options)} or [configurations]; None if there is none."""
    it = items(text, HEAD[kind])
    if it is None or kind == "configs":
        return None if it is None else [x for _, x in it]
    out, top = [], min((i for i, _ in it if i), default=0)
    for i, x in it:
        if i == top:
            out.append([x, []])
        elif out:
            out[-1][1].append(x)
        else:
            return "an item before the first name"
    if kind == "envs":
        return sorted([x, sorted(a)] for x, a in out)
    return out


class C27(Check):
    id = "C27"
    quick_n = 8000
    thorough_n = 300000
    rule = "a listing in which a read, a print or a host-name call failed, the process crashed, or the files do not allow a listing"
    real = c20.C20.real
    stub = c20.C20.stub

    def gen(self, rng, tier):
        case = c20.CHECK.gen(rng, tier)
        for k in ("runs", "new", "ops", "old"):
            case.pop(k, None)
        if rng.random() < 0.3:      # systems whose names begin alike
            a, b = rng.choice([("sys-2", "sys-10"), ("rhel7", "sys-1x"), ("sys-2", "sys"), ("rhel7", "sys-1-b")])
            for k in ("systems", "envs", "configs"):
                case[k] = [l.replace(a, b) for l in case[k]]
        given = case.get("decoy")

        def args(p):
            return rng.random() < p if given is None else [n for n in c19.DECOY if n in given or rng.random() < 0.3]
        names = [l[1:-1] for l in case["systems"] if l.startswith("[")]
        builds = ["", "gnu-7", "opt"] + names + [s + "_gnu" for s in names] + [l[1:-1] for l in case["configs"] if l.startswith("[")][:3]
        case["mode"] = rng.choice(["main", "main", "api"])

        def step(kinds, crash):
            return {"what": rng.choice(kinds), "faults": c20.gen_faults(rng, crash) if rng.random() < 0.4 else []}

        def who():
            return {"host": "anyhost" if rng.random() < 0.75 else rng.choice(["host1", "node7", "nowhere"]), "build": rng.choice(builds),
                    "force": rng.random() < 0.5}

        if case["mode"] == "main":
            case["runs"] = [dict(who(), args=args(0.4), **step(["envs", "flags", "configs"], True))
                            for _ in range(rng.randrange(1, 5 if tier == "quick" else 9))]
        else:
            case.update(who())
            case["ops"] = [step(["flags", "flags", "configs", "configs", "validate", "complete", "envs", "envs"], False)
                           for _ in range(rng.randrange(2, 8 if tier == "quick" else 16))]
        return case

    def environ(self, case, w):
        return c20.CHECK.environ(case, w)

    # ------------------------------------------------------------------ model
    def expect(self, kind, host, build, force, ini=True):
        """What the listing must say; Reject if there must be none."""
        if ini and not self.ini_ok:
            raise c18.Reject("the tool's configuration")
        if kind == "flags":
            if self.content is None:
                raise c18.Reject("flags file")
            out = []
            for n in self.content:
                opts, typ = c18.flag(self.content, n)
                out.append([n, [typ] + [o + (" (default)" if i == 0 else "") for i, o in enumerate(opts)]])
            return out
        if self.cp_sys is None:
            raise c18.Reject("systems file")
        system = c17.decide(self.cp_sys, host, build, force)
        if system is None:
            raise c18.Reject("no system")
        if kind == "envs":
            names, al = c19.env_tables(self.cp_env, system)
            return sorted([n, sorted(al[n])] for n in names)
        if self.cp_conf is None:
            raise c18.Reject("config-specs file")
        return [s for s in self.cp_conf.sections() if s.startswith(system + "_")]

    # ------------------------------------------------------------------ runs
    def run(self, case, w):
        lm, mod = c19.module(), c20.module()
        base_l, base_g = lm.LoadEnv, mod.GenConfig
        le_ini, gc_ini = w.path("load-env.ini"), w.path("gen-config.ini")

        class Tool(base_l):
            def __init__(self, argv):
                super().__init__(argv, load_env_ini_file=le_ini)

        class Gen(base_g):
            def __init__(self, argv):
                super().__init__(argv, gen_config_ini_file=gc_ini)

        w.chunk = case["chunk"]
        put = c19.C19.put
        put(w, "load-env.ini", ["[load-env]"] + [f"{o}: {'d-' if n in case.get('decoy', []) else ''}{n}.ini" for o, n in c19.FILE_ARGS])
        put(w, "specs.ini", ["[x]"])
        for n in ("gen-config", "systems", "envs", "flags", "configs"):
            put(w, n + ".ini", case["ini" if n == "gen-config" else n])
        for n in case.get("decoy", []):
            put(w, f"d-{n}.ini", c19.DECOY[n])
        load = lambda n: M.try_load([w.get(n + ".ini")])    # noqa
        self.cp_sys, self.cp_env, self.cp_flags, self.cp_conf = load("systems"), load("envs"), load("flags"), load("configs")
        cpi = load("gen-config")
        self.ini_ok = cpi is not None and all(cpi.has_section(s) for s in ("gen-config", "load-env")) and \
            all(cpi.has_option(s, k) and cpi[s][k] and w.get(os.path.basename(cpi[s][k])) is not None for s, k in c20.KEYS)
        self.content = None
        if self.cp_flags is not None and self.cp_flags.has_section(c18.SECTION):
            try:
                self.content = M.Walk(self.cp_flags, set()).content(c18.SECTION)
            except M.ModelError:
                pass
        lm.LoadEnv = mod.LoadEnv = Tool
        mod.GenConfig = Gen
        try:
            if case["mode"] == "main":
                for r in case["runs"]:
                    argv = c20.CHECK.argv(w, r["build"], r["force"], False, r["args"])
                    if r["what"] == "envs":
                        argv = [a for i, a in enumerate(argv) if a not in ("--supported-config-flags", "--config-specs")
                                and (i == 0 or argv[i - 1] not in ("--supported-config-flags", "--config-specs"))]
                        fn, argv = lm.main, ["--list-envs"] + argv
                    else:
                        fn, argv = mod.main, ["--list-configs" if r["what"] == "configs" else "--list-config-flags"] + argv
                    self.step(w, r["what"], r["faults"], fn, argv, r["host"], r["build"], r["force"],
                              " ".join(a.replace(w.root, ".") for a in argv))
            else:
                b, force = case["build"], case["force"]
                argv = c20.CHECK.argv(w, b, force, False, True)
                g = mod.GenConfig(argv)
                le = lm.LoadEnv(argv[4:])
                for i, o in enumerate(case["ops"]):
                    k = o["what"]
                    fn = {"flags": g.list_config_flags, "configs": g.list_configs, "validate": g.validate_config_specs_ini, "envs": le.list_envs,
                          "complete": lambda: g.complete_config}[k]
                    self.step(w, k, o["faults"], lambda _: fn(), None, case["host"], b, force,
                              f"{k} (request {i + 1} of {[x['what'] for x in case['ops']]}) for build {b!r}, force {force}")
        finally:
            lm.LoadEnv = mod.LoadEnv = base_l
            mod.GenConfig = base_g

    def step(self, w, kind, faults, fn, argv, host, build, force, what):
        w.heal()
        w.crashed = False
        w.hostname = host
        desc = f"{what} on {host}"
        want = why = None
        if kind in HEAD:
            try:
                want = self.expect(kind, host, build, force, kind != "envs")
            except c18.Reject as ex:
                why = str(ex)
        before = w.tree()
        w.take_output()
        for f in faults:
            w.arm(f)
        out = w.call(fn, argv)
        fired = [(f["op"], f.get("path", "*"), f["act"]) for f in w.faults if f.get("fired") and f["act"] != "short"]
        crashed = w.crashed
        w.heal()
        w.crashed = False
        left = not out.ok and isinstance(out.exc, SystemExit)
        text = str(w.take_output()) + (str(out.exc.code) if left else "")
        err = repr(out)
        ended = out.ok or left
        status = out.exc.code if left else None
        del out
        if crashed:
            gc.collect()
        w.steps += 1
        w.note("step", desc, ended, crashed)
        fs = f" with faults {fired}" if fired else ""
        if w.tree() != before:
            raise Violation("side-effect", f"{desc}{fs} changed {[n for n in set(before) | set(w.tree()) if w.tree().get(n) != before.get(n)]}")
        if kind not in HEAD:
            return
        got = listing(text, kind)
        if want is None:
            if ended and got is not None:
                raise Violation("listed", f"{desc}{fs} listed {A.brief(got, 300)}; expected a failure ({why})")
            if not left and ended or left and status in (None, 0):
                raise Violation("failure-hidden", f"{desc}{fs} reported success; expected a failure ({why})")
            w.probe("rejected")
            return
        if fired and (got is None or not ended):
            if not ended or status not in (None, 0):
                w.probe("crashed" if crashed else "failed")
                return
            raise Violation("failure-hidden", f"{desc}{fs} reported success and listed nothing")
        if not left or got is None:
            raise Violation("not-listed", f"{desc}{fs} gave {A.brief(err, 300)}; expected {A.brief(want, 300)}")
        if got != want:
            raise Violation("listing", f"{desc}{fs} listed {A.brief(got, 500)}; expected {A.brief(want, 500)}")
        w.probe("listed." + kind)


CHECK = C27()
