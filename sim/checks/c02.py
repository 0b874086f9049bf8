from ..loadcheck import LoadCheck, gen_case


class C02(LoadCheck):
    id = "C02"
    retry = True
    quick_n = 24000
    thorough_n = 600000
    rule = "history with a failed load followed by further accesses to the same object"

    def gen(self, rng, tier):
        return gen_case(rng, tier, True)

    def nontrivial(self, case, w):
        return "probe.failed_load" in w.counts


CHECK = C02()
