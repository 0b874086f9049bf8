from ..queries import QueryCheck, gen_case


class C04(QueryCheck):
    id = "C04"
    kind = "partial-section"
    quick_n = 16000
    thorough_n = 500000
    rule = "history in which at least one query failed because of an injected callback or I/O fault"

    def gen(self, rng, tier):
        return gen_case(rng, tier, True)

    def nontrivial(self, case, w):
        return "probe.failed_query" in w.counts


CHECK = C04()
