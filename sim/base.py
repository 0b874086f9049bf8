"""Common parts of the checks."""


class Check:
    id = "C00"
    quick_n = 1000
    thorough_n = 20000
    quick_wall = 100.0
    thorough_wall = 840.0
    cpu_limit = 20.0
    rule = ""
    keep = ()            # top-level case entries the minimiser leaves alone
    real = ["configparserenhanced (ConfigParserEnhanced, ExceptionControl, Debuggable, HandlerParameters, "
            "TypedProperty)", "stdlib configparser, pathlib, io buffering and decoding"]
    stub = ["raw file system calls (interposed on a scratch directory)", "locale", "stdout/stderr"]
    assumptions = [
        "sampled, not exhaustive: a clean run is evidence, not proof",
        "faults and interruptions occur at seams (I/O calls, user callbacks, child processes, prompts), not between "
        "two arbitrary bytecodes",
        "a crash loses what the process has not handed to the kernel; the kernel itself does not crash",
    ]

    def environ(self, case, w):
        return None

    def gen(self, rng, tier):
        raise NotImplementedError

    def run(self, case, w):
        raise NotImplementedError

    def nontrivial(self, case, w):
        return any(k.startswith("fault.") for k in w.counts)

    def known_findings(self):
        return []
