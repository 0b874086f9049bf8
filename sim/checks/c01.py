from ..loadcheck import LoadCheck, gen_case


class C01(LoadCheck):
    id = "C01"
    retry = False
    quick_n = 24000
    thorough_n = 600000
    rule = ("history in which at least one injected fault fired during a load (I/O error, interruption, short read, "
            "file replaced, removed or turned into a directory)")

    def gen(self, rng, tier):
        return gen_case(rng, tier, False)


CHECK = C01()
