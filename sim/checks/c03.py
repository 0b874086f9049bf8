from ..queries import QueryCheck, gen_case


class C03(QueryCheck):
    id = "C03"
    kind = "wrong-content"
    quick_n = 16000
    thorough_n = 500000
    rule = ("history in which a handler queried the parser while another section was being parsed, or a callback or "
            "I/O fault fired before later queries")

    def gen(self, rng, tier):
        return gen_case(rng, tier, False)


CHECK = C03()
