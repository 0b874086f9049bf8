from .. import access as A
from .. import inigen as G
from ..visits import Visits
from ..world import Violation, CALLBACK_ERRORS


def gen_graph(rng, tier):
    """Lines of a .ini file whose sections form a random `use` graph."""
    shape = rng.choice(["random", "random", "cycle", "self", "diamond", "default", "default", "chain", "mutual"])
    n = rng.randrange(1, 7)
    if shape in ("cycle", "chain"):
        n = rng.choice([2, 3, 4, 5, 6, 8]) if rng.random() < 0.94 else rng.choice([20, 60, 110])
    names = ["S%d" % i for i in range(n)]
    edges = {s: [] for s in names}
    has_default = shape == "default" or rng.random() < 0.25
    if shape == "cycle":
        for i in range(n):
            edges[names[i]].append(names[(i + 1) % n])
    elif shape == "chain":
        for i in range(n - 1):
            edges[names[i]].append(names[i + 1])
        if n > 2 and rng.random() < 0.6:
            edges[names[-1]].append(rng.choice(names))
    elif shape == "diamond":
        n = 4 * rng.randrange(1, 3)
        names = ["S%d" % i for i in range(n + 1)]
        edges = {s: [] for s in names}
        for i in range(0, n, 4):
            a, b, c, d, e = names[i], names[i + 1], names[i + 2], names[i + 3], names[i + 4]
            edges[a] += [b, c]
            edges[b] += [d]
            edges[c] += [d]
            edges[d] += [e]
        if rng.random() < 0.5:
            edges[names[-1]].append(rng.choice(names))
    else:
        p = rng.choice([0.15, 0.3, 0.5]) if n < 6 else 0.2
        for a in names:
            for b in names:
                if rng.random() < p:
                    edges[a].append(b)
        if shape == "self":
            edges[rng.choice(names)].append(rng.choice(names))
            s = rng.choice(names)
            edges[s].append(s)
        if shape == "mutual" and n > 1:
            edges[names[0]].append(names[1])
            edges[names[1]].append(names[0])
    if has_default:
        edges["DEFAULT"] = [rng.choice(names) for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < 0.3:
            edges["DEFAULT"].append("DEFAULT")
        if rng.random() < 0.4:
            edges[rng.choice(names)].append("DEFAULT")
    if rng.random() < 0.25 and n <= 8:
        # names that are easily mistaken for each other
        pool = rng.choice([["sec", "SEC", "Sec", "sEC", "seC", "SeC", "sEc", "SEc", "sec."],
                           ["A", "AA", "A-A", "A.A", "A A", " A".strip() + "  A", "AAA", "A_A", "AA A"],
                           ["default", "Default", "use", "USE", "DEFAULTS", "k1", "op1", "0", "use x"],
                           ["x", "x-y", "x_y", "x y", "X_Y", "X-Y", "é", "É", "e"]])
        new = dict(zip(names, rng.sample(pool, len(names))))
        new["DEFAULT"] = "DEFAULT"
        edges = {new[s]: [new[t] for t in l] for s, l in edges.items()}
    order = list(edges)
    if rng.random() < 0.5:
        rng.shuffle(order)
    lines = []
    for s in order:
        lines.append(f"[{s}]")
        opts = [("u", t) for t in dict.fromkeys(edges[s])]
        for j in range(rng.choice([0, 1, 1, 2])):
            opts.append(("k", rng.choice(["k1", "k2", "own %s" % s, "op1 %s" % s])))
        rng.shuffle(opts)
        seen = set()
        for k, x in opts:
            if k == "u":
                key = rng.choice([f"use {x}", f"use '{x}'", f"use {x} again"] if " " not in x else [f"use '{x}'"])
                if key in seen:
                    continue
                lines.append(key + rng.choice(["", ":", ": x"]))
            else:
                key = x
                if key in seen:
                    continue
                lines.append(f"{x}: from {s}")
            seen.add(key)
    return lines, [s for s in order]


class C06(Visits):
    id = "C06"
    quick_n = 12000
    thorough_n = 400000
    rule = "history with at least one link back to an open section, or a handler failure inside the expansion"
    assumptions = Visits.assumptions + [
        "graphs whose expansion exceeds 4000 option visits are not executed (the expansion is exponential by "
        "specification)"]

    def gen(self, rng, tier):
        lines, names = gen_graph(rng, tier)
        handlers = [{"op": "op1", "kind": "public", "deco": True}] if rng.random() < 0.6 else []
        seq = []
        for _ in range(rng.randrange(1, 5)):
            r = rng.random()
            if r < 0.35:
                seq.append(["level", rng.choice([0, 1, 3, 4, 5, 5])])
            elif r < 0.5:
                seq.append(["plan", {"h": rng.choice(["op1", "generic", "initialize", "finalize"]),
                                     "nth": rng.choice([0, 1, 2, 4, 8]),
                                     "act": rng.choice(sorted(CALLBACK_ERRORS))}])
            elif r < 0.6:
                seq.append(["silent", rng.random() < 0.5])
            s = rng.choice(names)
            seq.append(["q", rng.choice([["parse", s, True, True], ["parse", s, rng.random() < 0.5, True],
                                         ["parse", s, True, False], ["get", s],
                                         ["items", s], ["has_sec", s], ["parse_all"], ["all"],
                                         ["sections", "force"], ["sections", True]])])
        seq.append(["disarm"])
        seq.append(["level", rng.choice([0, 1, 4])])
        for s in (names[:6] if len(names) < 10 else names[:2]):
            seq.append(["q", rng.choice([["get", s], ["parse", s, True, True]])])
        if len(names) > 10:
            multi = ("all", "parse_all", "sections")
            seq = [x for x in seq if x[0] != "q" or x[1][0] not in multi]
        else:
            seq.append(["q", ["all"]])
        return {"files": {"f0.ini": lines}, "handlers": handlers, "default": "DEFAULT",
                "level": rng.choice([0, 1, 4, 4, 5]), "ops": seq}

    def after(self, q, out, printed, st, silent, case, io_fault):
        """Warning, error class and content of an operation that met a cycle."""
        cycles = st.get("cycles", 0)
        level = st["level"]
        if st.get("stop") == "cycle at level 5":
            if out.ok or not isinstance(out.exc, ValueError):
                raise Violation("cycle-error", f"{q} met a cycle at level 5 and gave {out!r} instead of a ValueError")
            st["w"].probe("cycle_raised")
        if out.ok and level < 5:
            want = cycles if level > 0 and not silent else 0
            if want != printed.count("EXCEPTION SKIPPED") or (want == 0) != (printed.strip() == ""):
                raise Violation("cycle-warning", f"{q} at level {level} (silent warnings: {silent}) met {cycles} "
                                f"cycles and printed {A.brief(printed, 120)}")
        if out.ok and q[0] in ("get", "items"):
            mw = A.MW(st["cp"], st["kinds"], st["default"], 0)
            if not A.same(q, mw, out):
                raise Violation("cycle-content", f"{q} gave {out!r}, expansion gives {A.brief(A.expect(q, mw))}")

    def nontrivial(self, case, w):
        return "probe.cycle" in w.counts or any(k.startswith("fault.") for k in w.counts)


CHECK = C06()
