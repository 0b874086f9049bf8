from .. import harness as H
from .. import hist
from .. import loadcheck as L
from ..visits import Visits
from ..world import CALLBACK_ERRORS


class C05(Visits):
    id = "C05"
    quick_n = 12000
    thorough_n = 400000
    rule = ("history in which a handler raised, was interrupted, returned a failure code or queried the parser, or "
            "the disk failed, during a parse")

    def gen(self, rng, tier):
        handlers = H.gen_handlers(rng, ambiguous=rng.random() < 0.2)
        ops = [h["op"] for h in handlers] + ["op1", "nohandler"]
        broken = rng.random() < 0.2
        files, names = hist.gen_ini(rng, ops, rng.choice([1, 1, 2]), p_missing=0.12 if broken else 0,
                                    p_bad=0.05 if broken else 0, allow_interp=broken, p_default=0.5)
        hn = [h["op"] for h in handlers] * 2 + ["generic", "generic", "initialize", "finalize"]
        chatty = rng.random() < 0.25
        seq = [["debug", rng.choice([1, 2, 4, 5])]] if chatty else []
        for _ in range(rng.randrange(1, 6 if tier == "quick" else 10)):
            r = rng.random()
            if r < 0.4:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 0, 1, 2, 3, 6]),
                                     "span": rng.choice([1, 1, 2]), "act": rng.choice(sorted(CALLBACK_ERRORS))}])
            elif r < 0.55:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1, 2]), "act": "ret",
                                     "rc": rng.choice([0, 1, 10, 11, 300, -1, None, "x", True])}])
            elif r < 0.65:
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1, 2]), "act": "poison"}])
            elif r < 0.8:
                qs = [hist.gen_query(rng, names, parse=False) for _ in range(rng.randrange(1, 3))]
                qs.append(["parse", rng.choice(names)])
                seq.append(["plan", {"h": rng.choice(hn), "nth": rng.choice([0, 1, 2]), "act": "query",
                                     "pass": rng.random() < 0.4, "ops": rng.sample(qs, rng.randrange(1, len(qs) + 1))}])
            elif r < 0.88:
                seq.append(["arm", L.gen_fault(rng, sorted(files), None, allow_change=False)])
            elif r < 0.94:
                seq.append(["level", rng.randrange(0, 6)])
            if chatty and rng.random() < 0.5:
                seq.append(["arm", L.gen_stdout(rng)])
            for _ in range(rng.randrange(1, 4)):
                if rng.random() < 0.5:
                    seq.append(["q", ["parse", rng.choice(names + ["DEFAULT"]), rng.random() < 0.8,
                                      rng.random() < 0.8]])
                else:
                    seq.append(["q", hist.gen_query(rng, names)])
            if rng.random() < 0.3:
                seq.append(["disarm"])
        seq.append(["disarm"])
        seq.append(["q", ["parse", rng.choice(names), True, True]])
        seq.append(["q", ["sections", rng.choice([True, "force"])]])
        default = rng.choice(["DEFAULT"] * 4 + names[:1])
        return {"files": files, "handlers": handlers, "default": default, "level": rng.choice([0, 2, 4, 4, 4, 5]),
                "ops": seq}


CHECK = C05()
