"""
Shared by C05 and C06: the handler calls of every parse are compared with the depth-first
walk of the model, call by call.
"""
from . import access as A
from . import harness as H
from . import hist
from . import loadcheck as L
from . import model as M
from .base import Check
from .world import Violation, Inadmissible, CALLBACK_ERRORS

LIMIT = 4000


class Visits(Check):
    keep = ("handlers",)

    # -------------------------------------------------------------- matching one parse
    def match(self, recs, root, init, fin, st, failed, io_fault):
        """recs: handler calls of one parse of `root`, in order. Returns True if the parse completed."""
        w = st["w"]
        level = st["level"]
        tags, poison = [], False
        i = 0
        stop = None       # why no further handler may run
        why_ok = False    # the failure of the parse is explained

        def bad(what, e=None):
            got = [(r["h"], r["var"], r["sec"], r["raw"]) for r in recs]
            raise Violation(what, f"parse of [{root}] (initialize={init}, finalize={fin}, level={level}): "
                            f"expected next {A.brief(e, 200)}, handler calls were {A.brief(got, 500)} at index {i}")

        def warned(level):
            # an event that was not raised
            if level > 0:
                st["warned"] = st.get("warned", 0) + 1

        for e in self.walk_events(st["cp"], root, st):
            k = e[0]
            if k == "init" and not init or k == "fin" and not fin:
                continue
            if k == "use":
                continue
            if k == "cycle":
                w.probe("cycle")
                st["cycles"] = st.get("cycles", 0) + 1
                if level >= 5:
                    stop = "cycle at level 5"
                    break
                warned(level)
                continue
            if k in ("missing", "bad"):
                stop = k
                break
            if k == "op" and st["kinds"].get(e[2]) == "both":
                st["ambig"] = st.get("ambig", 0) + 1
                if level >= 3:
                    stop = "ambiguous"
                    break
                warned(level)
            if i >= len(recs):
                if failed and io_fault:
                    return False       # the disk failed; whatever had to run ran in order
                bad("handler-missing", e)
            r = recs[i]
            want = {"init": "initialize", "fin": "finalize", "gen": "generic"}.get(k) or e[2]
            if r["h"] != want:
                bad("wrong-handler", e)
            if r["root"] != root:
                bad("wrong-root", e)
            if k in ("init", "fin"):
                if r["sec"] != root:
                    bad("wrong-section", e)
                deco = True
            else:
                sec, key, val = e[1], (e[4] if k == "op" else e[2]), (e[5] if k == "op" else e[3])
                op, params = (e[2], e[3]) if k == "op" else (e[4], e[5])
                if r["sec"] != sec:
                    bad("wrong-section", e)
                if r["raw"] != (key, val) or r["value"] != val:
                    bad("wrong-value", e)
                if op is not None and (r["op"] != op or r["params"] != list(params)):
                    bad("wrong-parameters", e)
                if k == "op":
                    kind = st["kinds"][e[2]]
                    if r["var"] != ("private" if kind == "private" else "public"):
                        bad("wrong-variant", e)
                deco = True if k == "gen" else st["deco"][e[2]]
            if r["shared"] != tags or (r["extra"] != (["poison"] if poison else [])):
                raise Violation("shared-data", f"parse of [{root}]: handler {r['h']} of {r['raw']} saw shared data "
                                f"{r['shared']} {r['extra']}, the handlers of this parse had left {tags}")
            tags.append(r["tag"])
            i += 1
            act = r.get("fired")
            if act == "poison":
                poison = True
            if act in CALLBACK_ERRORS:
                stop = "handler raised"
                break
            if act == "query" and r.get("nested_raised"):
                stop = "nested failure passed on"
                break
            if act == "ret" and deco:
                rc = r["rc"]
                if not isinstance(rc, int):
                    stop = "return type"
                    break
                if rc != 0:
                    st["rcs"] = st.get("rcs", 0) + 1
                if rc > 10 or rc != 0 and level >= 5:
                    stop = "return code"
                    break
                if rc != 0:
                    warned(level)
            if act == "level":
                level = st["level"] = min(5, max(0, r["level"]))
        if i < len(recs):
            bad("extra-handler", f"nothing (after {stop or 'the end'})")
        if stop is None:
            if failed and not io_fault:
                raise Violation("spurious-failure", f"parse of [{root}] failed with {failed!r} though every handler "
                                "ran and nothing was wrong")
            st["tags"] = tags
            if failed:
                self.unsure(root, st)
            return not failed
        if not failed:
            raise Violation("failure-hidden", f"parse of [{root}] reported success although: {stop}")
        st["stop"] = stop
        return False

    @staticmethod
    def unsure(root, st):
        """Every handler ran, then something failed: the section may count as parsed or not."""
        if root not in st["checked"] and "maybe" in st:
            st["maybe"].add(root)

    def walk_events(self, cp, root, st):
        n = 0
        for e in M.Walk(cp, set(st["kinds"]), st["default"]).events(root):
            n += 1
            if n > LIMIT:
                raise Inadmissible()
            yield e

    # -------------------------------------------------------------- one operation
    def groups(self, recs):
        """Split the handler calls of one operation into parses (consecutive calls with one root)."""
        out = []
        for r in recs:
            if not out or out[-1][0] != r["root"] or r["h"] == "initialize":
                out.append((r["root"], []))
            out[-1][1].append(r)
        return out

    def settle_nested(self, recs, st, io_fault):
        for r in recs:
            if "nested" in r:
                # nested queries happened during r; judge them first, with the state of that moment
                j = 0
                for (q, o, dist, mf, cnt) in r["nested"]:
                    sub = r["nested_events"][j:j + cnt]
                    j += cnt
                    st["w"].probe("nested_query")
                    self.settle(q, sub, o, st, io_fault)

    def settle(self, op, recs, outcome, st, io_fault):
        """Compare the handler calls of one operation with the model."""
        cp, checked = st["cp"], st["checked"]
        k = op[0]
        failed = None if outcome.ok else outcome.exc
        if k in ("raw", "keys", "iter", "len") or k == "sections" and op[1] is False:
            if recs:
                raise Violation("extra-handler", f"{op} ran handlers {[r['h'] for r in recs]}")
            return
        if k == "parse":
            self.settle_nested(recs, st, io_fault)
            init, fin = (op[2], op[3]) if len(op) > 2 else (True, True)
            if self.match(recs, op[1], init, fin, st, failed, io_fault):
                checked.add(op[1])
                st["maybe"].discard(op[1])
                if outcome.ok and isinstance(outcome.value, dict) and outcome.value.get("trail", []) != st["tags"]:
                    raise Violation("parse-result", f"{op} returned {A.brief(outcome.value)}; the handlers shared "
                                    f"{st['tags']}")
            return
        if k in ("all", "parse_all", "sections"):
            force = k == "sections" and op[1] == "force"
            names = set(cp.sections())
            gs = self.groups(recs)
            seen = set()
            for gi, (root, g) in enumerate(gs):
                stale = root in checked and not force
                self.settle_nested(g, st, io_fault)
                if root not in names or stale or root in seen:
                    raise Violation("parsed-again", f"{op} ran handlers for [{root}], which was already parsed or is "
                                    "unknown")
                seen.add(root)
                last = gi == len(gs) - 1
                # only the last parse of a failing operation can be the one that failed
                if self.match(g, root, True, True, st, failed if last and self.stops(g, root, st, failed) else None,
                              io_fault):
                    if last and failed and io_fault:
                        self.unsure(root, st)
                    else:
                        checked.add(root)
                        st["maybe"].discard(root)
            todo = names - (seen if force else seen | checked | st["maybe"])
            if failed is None:
                if todo:
                    raise Violation("not-parsed", f"{op} did not parse {sorted(todo)}")
                checked |= names
                st["maybe"].clear()
            return
        self.settle_nested(recs, st, io_fault)
        # queries about one section
        s = op[1]
        if s in checked:
            if recs:
                raise Violation("parsed-again", f"{op} ran handlers although [{s}] had been parsed")
            return
        if not cp.has_section(s):
            if failed is None and k not in ("has_sec", "has_opt"):
                raise Violation("failure-hidden", f"{op} succeeded for an unknown section")
            for r in recs:
                if r["h"] not in ("initialize",) and not (r["sec"] == st["default"] or cp.has_section(r["sec"])):
                    raise Violation("wrong-section", f"{op} ran a handler for {r['sec']}")
            return
        if s in st["maybe"]:
            st["maybe"].discard(s)
            if not recs and not failed:
                checked.add(s)
                return
            if not recs:
                st["maybe"].add(s)
                if io_fault or k == "getopt":
                    return
        missing_option = k == "getopt" and failed is not None
        if missing_option:
            # the parse itself may be fine and only the option absent
            done = self.stops(recs, s, st, failed)
            if not done:
                if self.match(recs, s, True, True, st, None, io_fault):
                    if io_fault:
                        self.unsure(s, st)
                    else:
                        checked.add(s)
                return
        if self.match(recs, s, True, True, st, failed, io_fault):
            checked.add(s)

    def stops(self, g, root, st, failed):
        """True unless this group of calls is a complete, undisturbed parse."""
        if failed is None:
            return False
        probe = dict(st, w=_Quiet())
        probe.pop("maybe")
        try:
            return not self.match(g, root, True, True, probe, None, False)
        except Violation:
            return True

    # -------------------------------------------------------------- run
    def run(self, case, w):
        hist.put_files(w, case["files"])
        order = sorted(case["files"])
        try:
            cp = M.raw_load(hist.raw_bytes(case["files"], order))
        except Exception:
            raise Inadmissible()
        p, sim = H.make_parser(w, case["handlers"], order, level=case["level"])
        if case["default"] != "DEFAULT":
            p.default_section_name = case["default"]
        st = {"cp": cp, "checked": set(), "maybe": set(), "level": case["level"], "default": case["default"], "w": w,
              "kinds": {h["op"]: h["kind"] for h in case["handlers"]},
              "deco": {h["op"]: h["deco"] for h in case["handlers"]}}
        silent = False
        for s in cp.sections():
            sum(1 for _ in self.walk_events(cp, s, st))          # small enough?
        for op in case["ops"]:
            if op[0] == "plan":
                sim.arm(op[1])
            elif op[0] == "arm":
                w.arm(op[1])
            elif op[0] == "disarm":
                sim.disarm()
                w.heal()
            elif op[0] == "level":
                p.exception_control_level = op[1]
                st["level"] = op[1]
            elif op[0] == "silent":
                p.exception_control_silent_warnings = op[1]
                silent = op[1]
            elif op[0] == "debug":
                p.debug_level = op[1]
            elif op[0] == "compact":
                p.exception_control_compact_warnings = op[1]
            elif op[0] == "q":
                q = op[1]
                i0 = w.fault_count()
                sim.take_events()
                w.take_output()
                for c in ("cycles", "ambig", "rcs", "stop", "warned"):
                    st.pop(c, None)
                w.note("query", *q)
                if q[0] == "parse":
                    out = w.call(p.parse_section, *q[1:])
                else:
                    out = w.call(A.perform, p, q)
                w.note("outcome", out.ok)
                printed = w.take_output()
                recs = sim.take_events()
                self.settle(q, recs, out, st, w.fault_count() > i0)
                if out.ok and q[0] == "parse":
                    last = w.call(lambda: p.parse_section_last_result)
                    if not last.ok or last.value != out.value:
                        raise Violation("last-result", f"after {q} parse_section_last_result is {last!r}, the parse "
                                        f"returned {A.brief(out.value)}")
                self.after(q, out, printed, st, silent, case, w.fault_count() > i0)
                seen_level = w.call(lambda: p.exception_control_level)
                if not seen_level.ok or seen_level.value != st["level"]:
                    raise Violation("level-changed", f"after {q} the exception control level is {seen_level!r}, it was "
                                    f"set to {st['level']}")

    def after(self, q, out, printed, st, silent, case, io_fault):
        pass


class _Quiet:
    def probe(self, *a):
        pass
